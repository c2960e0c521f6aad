//! Values of the specification: booleans, integers, strings, sequences, records, finite sets.
use crate::seq::Seq;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Mutex, OnceLock};

pub type Lz<T, F> = std::cell::LazyCell<T, F>;

#[derive(Clone, Debug)]
pub enum V {
    B(bool),
    I(i64),
    S(u32),
    Q(Seq),
    R(Rc<Vec<(u32, V)>>),
    T(Rc<Vec<V>>),
}

// ---- strings are interned; the constants of the specification come first ----
static EXTRA: OnceLock<Mutex<(HashMap<String, u32>, Vec<String>)>> = OnceLock::new();
thread_local! { static LOCAL: RefCell<HashMap<String, u32>> = RefCell::new(HashMap::new()); }

fn extra() -> &'static Mutex<(HashMap<String, u32>, Vec<String>)> {
    EXTRA.get_or_init(|| {
        let mut m = HashMap::new();
        for (i, s) in crate::spec::SYMS.iter().enumerate() {
            m.insert(s.to_string(), i as u32);
        }
        Mutex::new((m, Vec::new()))
    })
}

pub fn sym(s: &str) -> u32 {
    LOCAL.with(|l| {
        if let Some(i) = l.borrow().get(s) {
            return *i;
        }
        let mut g = extra().lock().unwrap();
        let base = crate::spec::SYMS.len();
        let i = match g.0.get(s) {
            Some(i) => *i,
            None => {
                let i = (base + g.1.len()) as u32;
                g.1.push(s.to_string());
                g.0.insert(s.to_string(), i);
                i
            }
        };
        l.borrow_mut().insert(s.to_string(), i);
        i
    })
}

pub fn sym_name(i: u32) -> String {
    let n = crate::spec::SYMS.len();
    if (i as usize) < n {
        crate::spec::SYMS[i as usize].to_string()
    } else {
        extra().lock().unwrap().1[i as usize - n].clone()
    }
}

impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::B(a), V::B(b)) => a == b,
            (V::I(a), V::I(b)) => a == b,
            (V::S(a), V::S(b)) => a == b,
            (V::Q(a), V::Q(b)) => a.same(b) || **a == **b,
            (V::R(a), V::R(b)) => Rc::ptr_eq(a, b) || a == b,
            (V::T(a), V::T(b)) => a == b,
            _ => false,
        }
    }
}
impl Eq for V {}

fn rank(v: &V) -> u8 {
    match v {
        V::B(_) => 0,
        V::I(_) => 1,
        V::S(_) => 2,
        V::Q(_) => 3,
        V::R(_) => 4,
        V::T(_) => 5,
    }
}
impl Ord for V {
    fn cmp(&self, o: &V) -> Ordering {
        match (self, o) {
            (V::B(a), V::B(b)) => a.cmp(b),
            (V::I(a), V::I(b)) => a.cmp(b),
            (V::S(a), V::S(b)) => a.cmp(b),
            (V::Q(a), V::Q(b)) => (**a).cmp(&**b),
            (V::R(a), V::R(b)) => a.cmp(b),
            (V::T(a), V::T(b)) => a.cmp(b),
            _ => rank(self).cmp(&rank(o)),
        }
    }
}
impl PartialOrd for V {
    fn partial_cmp(&self, o: &V) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl V {
    pub fn s(x: &str) -> V {
        V::S(sym(x))
    }
    /// a text as the sequence of its code points
    pub fn text(x: &str) -> V {
        V::seq(x.chars().map(|c| V::I(c as i64)).collect())
    }
    pub fn seq(v: Vec<V>) -> V {
        V::Q(Seq::new(v))
    }
    pub fn set(mut v: Vec<V>) -> V {
        v.sort();
        v.dedup();
        V::T(Rc::new(v))
    }
    /// fields sorted by symbol number
    pub fn rec(v: Vec<(u32, V)>) -> V {
        debug_assert!(v.windows(2).all(|w| w[0].0 < w[1].0));
        V::R(Rc::new(v))
    }
    pub fn record(v: &[(&str, V)]) -> V {
        let mut r: Vec<(u32, V)> = v.iter().map(|(k, x)| (sym(k), x.clone())).collect();
        r.sort_by_key(|x| x.0);
        V::rec(r)
    }
    pub fn opt(v: Option<V>) -> V {
        V::seq(v.into_iter().collect())
    }
    pub fn b(&self) -> bool {
        match self {
            V::B(b) => *b,
            _ => panic!("oracle: boolean expected, got {}", self.tla()),
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            V::I(b) => *b,
            _ => panic!("oracle: integer expected, got {}", self.tla()),
        }
    }
    pub fn f(&self, k: u32) -> &V {
        match self {
            V::R(r) => {
                for (n, v) in r.iter() {
                    if *n == k {
                        return v;
                    }
                }
                panic!("oracle: no field {} in {}", sym_name(k), self.tla())
            }
            _ => panic!("oracle: record expected for {}, got {}", sym_name(k), self.tla()),
        }
    }
    pub fn get(&self, k: &str) -> &V {
        self.f(sym(k))
    }
    pub fn with_f(&self, k: u32, v: V) -> V {
        match self {
            V::R(r) => {
                let mut n = (**r).clone();
                for e in n.iter_mut() {
                    if e.0 == k {
                        e.1 = v;
                        break;
                    }
                }
                V::R(Rc::new(n))
            }
            _ => panic!("oracle: EXCEPT on a non-record"),
        }
    }
    pub fn items(&self) -> &[V] {
        match self {
            V::Q(q) => q,
            _ => panic!("oracle: sequence expected, got {}", self.tla()),
        }
    }
    pub fn at(&self, i: i64) -> &V {
        let q = self.items();
        if i < 1 || i as usize > q.len() {
            panic!("oracle: index {} out of 1..{}", i, q.len());
        }
        &q[i as usize - 1]
    }
    pub fn with_at(&self, i: i64, v: V) -> V {
        let mut q = self.items().to_vec();
        if i >= 1 && i as usize <= q.len() {
            q[i as usize - 1] = v;
        }
        V::seq(q)
    }
    pub fn len(&self) -> usize {
        match self {
            V::Q(q) => q.len(),
            V::T(q) => q.len(),
            _ => panic!("oracle: Len of {}", self.tla()),
        }
    }
    fn q(&self) -> &Seq {
        match self {
            V::Q(q) => q,
            _ => panic!("oracle: sequence expected, got {}", self.tla()),
        }
    }
    pub fn cat(&self, o: &V) -> V {
        V::Q(self.q().cat(o.q()))
    }
    pub fn push(&self, o: V) -> V {
        V::Q(self.q().push(o))
    }
    pub fn sub(&self, a: i64, b: i64) -> V {
        let q = self.q();
        if a > b {
            return V::seq(vec![]);
        }
        if a < 1 || b as usize > q.len() {
            panic!("oracle: SubSeq {}..{} of length {}", a, b, q.len());
        }
        V::Q(q.sub(a as usize - 1, b as usize))
    }
    pub fn is_sym(&self, k: u32) -> bool {
        matches!(self, V::S(s) if *s == k)
    }
    pub fn set_elems(&self) -> Vec<V> {
        match self {
            V::T(q) => (**q).clone(),
            _ => panic!("oracle: set expected, got {}", self.tla()),
        }
    }
    pub fn contains(&self, x: &V) -> bool {
        match self {
            V::T(q) => q.binary_search(x).is_ok(),
            _ => panic!("oracle: set expected, got {}", self.tla()),
        }
    }
    pub fn domain(&self) -> V {
        match self {
            V::Q(q) => V::set((1..=q.len() as i64).map(V::I).collect()),
            V::R(r) => V::set(r.iter().map(|x| V::S(x.0)).collect()),
            _ => panic!("oracle: DOMAIN"),
        }
    }
    /// the value in TLA+ syntax
    pub fn tla(&self) -> String {
        let mut s = String::new();
        self.tla_to(&mut s);
        s
    }
    fn tla_to(&self, o: &mut String) {
        use std::fmt::Write;
        fn list(o: &mut String, l: &str, v: &[V], r: &str) {
            o.push_str(l);
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                x.tla_to(o);
            }
            o.push_str(r);
        }
        match self {
            V::B(b) => o.push_str(if *b { "TRUE" } else { "FALSE" }),
            V::I(i) => write!(o, "{}", i).unwrap(),
            V::S(s) => write!(o, "{:?}", sym_name(*s)).unwrap(),
            V::Q(q) => list(o, "<<", q, ">>"),
            V::T(q) => list(o, "{", q, "}"),
            V::R(r) => {
                o.push('[');
                for (i, (k, v)) in r.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    write!(o, "{} |-> ", sym_name(*k)).unwrap();
                    v.tla_to(o);
                }
                o.push(']');
            }
        }
    }
    /// the value as JSON (for ndJsonDeserialize: records, arrays, numbers, strings, booleans)
    pub fn json(&self) -> String {
        let mut s = String::new();
        self.json_to(&mut s);
        s
    }
    fn json_to(&self, o: &mut String) {
        use std::fmt::Write;
        match self {
            V::B(b) => o.push_str(if *b { "true" } else { "false" }),
            V::I(i) => write!(o, "{}", i).unwrap(),
            V::S(s) => json_str(&sym_name(*s), o),
            V::Q(_) | V::T(_) => {
                let q: &[V] = if let V::T(t) = self { t } else { self.items() };
                o.push('[');
                for (i, x) in q.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.json_to(o);
                }
                o.push(']');
            }
            V::R(r) => {
                o.push('{');
                for (i, (k, v)) in r.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    json_str(&sym_name(*k), o);
                    o.push(':');
                    v.json_to(o);
                }
                o.push('}');
            }
        }
    }
    /// code points back to text (invalid ones become U+FFFD)
    pub fn to_text(&self) -> String {
        self.items().iter().map(|c| char::from_u32(c.i() as u32).unwrap_or('\u{fffd}')).collect()
    }
}

pub fn json_str(s: &str, o: &mut String) {
    use std::fmt::Write;
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

pub trait Quant: Iterator<Item = V> + Sized {
    fn all_(self, f: impl Fn(V) -> bool) -> bool {
        let mut s = self;
        s.all(f)
    }
    fn any_(self, f: impl Fn(V) -> bool) -> bool {
        let mut s = self;
        s.any(f)
    }
}
impl<T: Iterator<Item = V>> Quant for T {}
