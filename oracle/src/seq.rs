//! Sequences: appending to the longest view of a buffer is done in place, and a subsequence is a
//! view.  Elements never move while anything refers to them: a full buffer is copied, not grown.
use crate::value::V;
use std::cell::UnsafeCell;
use std::ops::Deref;
use std::rc::Rc;

/// invariant: the vector is never pushed beyond its capacity and never shortened
type Buf = UnsafeCell<Vec<V>>;
#[derive(Clone)]
pub struct Seq {
    buf: Rc<Buf>,
    off: u32,
    len: u32,
}
impl Seq {
    pub fn new(v: Vec<V>) -> Seq {
        let len = v.len() as u32;
        Seq { buf: Rc::new(UnsafeCell::new(v)), off: 0, len }
    }
    /// space after the end of this view for n more elements, in its own buffer
    fn room(&self, n: usize) -> bool {
        // SAFETY: no reference to the vector's header outlives a call
        let v = unsafe { &*self.buf.get() };
        (self.off + self.len) as usize == v.len() && v.capacity() - v.len() >= n
    }
    fn copy(&self, more: usize) -> Seq {
        let n = self.len as usize + more;
        let mut v = Vec::with_capacity(if self.is_empty() && more > 1 { more } else { (2 * n).max(4) });
        v.extend_from_slice(self);
        Seq::new(v)
    }
    pub fn push(&self, x: V) -> Seq {
        let s = if self.room(1) { self.clone() } else { self.copy(1) };
        // SAFETY: within capacity, so nothing moves; the slot belongs to no view
        unsafe { (*s.buf.get()).push(x) };
        Seq { len: s.len + 1, ..s }
    }
    pub fn cat(&self, o: &Seq) -> Seq {
        if o.is_empty() {
            return self.clone();
        }
        if self.is_empty() {
            return o.clone();
        }
        let s = if self.room(o.len as usize) { self.clone() } else { self.copy(o.len as usize) };
        for i in 0..o.len as usize {
            let x = o[i].clone();
            // SAFETY: as in push
            unsafe { (*s.buf.get()).push(x) };
        }
        Seq { len: s.len + o.len, ..s }
    }
    /// elements a .. b (0-based, b excluded)
    pub fn sub(&self, a: usize, b: usize) -> Seq {
        assert!(a <= b && b <= self.len as usize);
        Seq { buf: self.buf.clone(), off: self.off + a as u32, len: (b - a) as u32 }
    }
    pub fn same(&self, o: &Seq) -> bool {
        Rc::ptr_eq(&self.buf, &o.buf) && self.off == o.off && self.len == o.len
    }
}
impl Deref for Seq {
    type Target = [V];
    fn deref(&self) -> &[V] {
        // SAFETY: these elements are initialised and stay where they are as long as the buffer lives
        unsafe { std::slice::from_raw_parts((*self.buf.get()).as_ptr().add(self.off as usize), self.len as usize) }
    }
}
impl std::fmt::Debug for Seq {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}
