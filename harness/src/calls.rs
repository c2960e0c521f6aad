//! Histories of calls and returns: several callers, each in a thread of its own (C21).
use crate::case::{self, Case};
use crate::gen;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};
use yamd::lexer::Lexer;
use yamd::op::Op;
use yamd::Yamd;

#[derive(Clone)]
struct Entry {
    ret: bool,
    c: u64,
    a: String,
    t: u64,
    i: u64,
    r: u64,
}
pub fn class(a: &str) -> &str {
    match a {
        "fallible" | "infallible" | "onestep" | "look" => "tree",
        x => x,
    }
}
/// what a caller holds
struct Held<'a> {
    texts: &'a [String],
    t: usize,
    lexer: Option<Lexer<'a>>,
    pos: u64,
    ev: Option<Vec<Op>>,
    tree: Option<Yamd>,
}
impl<'a> Held<'a> {
    fn new(texts: &'a [String], t: usize) -> Held<'a> {
        Held { texts, t, lexer: Some(Lexer::new(&texts[t])), pos: 0, ev: None, tree: None }
    }
    /// the result, in full
    fn call(&mut self, a: &str, t: usize) -> String {
        let s = &self.texts[self.t];
        match a {
            "open" => {
                *self = Held::new(self.texts, t);
                String::new()
            }
            "next" => {
                self.pos += 1;
                format!("{:?}", self.lexer.as_mut().unwrap().next())
            }
            "events" => {
                self.ev = Some(yamd::parse(s));
                format!("{:?}", self.ev)
            }
            "fallible" => {
                self.tree = yamd::try_to_yamd(self.ev.as_ref().unwrap(), s).ok();
                format!("{:?}", self.tree)
            }
            "infallible" => {
                self.tree = Some(yamd::to_yamd(self.ev.as_ref().unwrap(), s));
                format!("{:?}", self.tree)
            }
            "onestep" => {
                self.tree = Some(yamd::deserialize(s));
                format!("{:?}", self.tree)
            }
            "look" => format!("{:?}", self.tree),
            "print" => self.tree.as_ref().map(|d| d.to_string()).unwrap_or_default(),
            _ => panic!("no action {a}"),
        }
    }
    fn index(&self, a: &str) -> u64 {
        if a == "next" {
            self.pos + 1
        } else {
            0
        }
    }
    fn run(&mut self, a: &str, t: usize) -> String {
        catch_unwind(AssertUnwindSafe(|| self.call(a, t))).unwrap_or_else(|_| {
            *self = Held::new(self.texts, self.t);
            "panic".into()
        })
    }
}
#[derive(Default)]
struct Log {
    hist: Vec<Entry>,
    ids: HashMap<(String, String), u64>,
}
impl Log {
    fn id(&mut self, a: &str, r: String) -> u64 {
        if r == "panic" {
            return 0;
        }
        let n = self.ids.len() as u64 + 1;
        *self.ids.entry((class(a).to_string(), r)).or_insert(n)
    }
    /// the first entry that contradicts an earlier one
    fn wrong(&self) -> Option<String> {
        let mut seen: HashMap<(&str, u64, u64), (u64, &str)> = HashMap::new();
        for e in self.hist.iter().filter(|e| e.ret) {
            if e.r == 0 {
                return Some(format!("{} panicked", e.a));
            }
            let (r, a) = *seen.entry((class(&e.a), e.t, e.i)).or_insert((e.r, &e.a));
            if r != e.r {
                return Some(format!("{} of text {} differs from an earlier {}", e.a, e.t, a));
            }
        }
        None
    }
    fn json(&self, texts: &[String]) -> Value {
        json!({"texts": texts, "hist": self.hist.iter().map(|e| json!({"k": if e.ret { "ret" } else { "call" }, "c": e.c, "a": e.a, "t": e.t, "i": e.i, "r": e.r})).collect::<Vec<_>>()})
    }
}

/// every caller is a thread; the schedule says whose turn it is
fn scheduled(texts: &[String], sched: &[(u64, String, u64)]) -> Log {
    let n = sched.iter().map(|x| x.0).max().unwrap_or(0);
    let turn = Mutex::new((0usize, Log::default()));
    let moved = Condvar::new();
    std::thread::scope(|sc| {
        for c in 1..=n {
            let (turn, moved) = (&turn, &moved);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut held = Held::new(texts, 0);
                    for (k, (_, a, t)) in sched.iter().enumerate().filter(|x| x.1 .0 == c) {
                        let mut g = moved.wait_while(turn.lock().unwrap(), |g| g.0 != k).unwrap();
                        let i = held.index(a);
                        let e = Entry { ret: false, c, a: a.clone(), t: *t, i, r: 0 };
                        g.1.hist.push(e.clone());
                        let r = held.run(a, *t as usize - 1);
                        let r = g.1.id(a, r);
                        g.1.hist.push(Entry { ret: true, r, ..e });
                        g.0 += 1;
                        drop(g);
                        moved.notify_all();
                    }
                })
                .unwrap();
        }
    });
    turn.into_inner().unwrap().1
}
/// threads that are not held back
fn free(texts: &[String], callers: u64, steps: u64, seed: u64) -> Log {
    let log = Mutex::new(Log::default());
    let start = std::sync::Barrier::new(callers as usize);
    std::thread::scope(|sc| {
        for c in 1..=callers {
            let (log, start) = (&log, &start);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut r = gen::Rng::new(seed, c, 1);
                    let mut held = Held::new(texts, 0);
                    start.wait();
                    for k in 0..steps {
                        let a = if k == 0 { "open" } else { ["next", "next", "events", "events", "onestep", "onestep", "fallible", "infallible", "print", "look", "open"][r.below(11)] };
                        let a = match a {
                            "fallible" | "infallible" if held.ev.is_none() => "events",
                            "print" | "look" if held.tree.is_none() => "onestep",
                            a => a,
                        };
                        let t = if a == "open" { r.below(texts.len()) } else { held.t };
                        let e = Entry { ret: false, c, a: a.into(), t: t as u64 + 1, i: held.index(a), r: 0 };
                        log.lock().unwrap().hist.push(e.clone());
                        let x = held.run(a, t);
                        let mut g = log.lock().unwrap();
                        let r = g.id(a, x);
                        g.hist.push(Entry { ret: true, r, ..e });
                    }
                })
                .unwrap();
        }
    });
    log.into_inner().unwrap()
}

/// harness history --in FILE|none --seed N --free N --sample N --out FILE --summary FILE
/// Plays the schedules of FILE (one per line, as TLC wrote them) and N free runs; OUT gets the
/// free runs and a sample of the scheduled ones.
pub fn history() -> i32 {
    let arg = |n: &str| crate::arg(n).unwrap();
    let seed: u64 = arg("--seed").parse().unwrap();
    let nfree: u64 = arg("--free").parse().unwrap();
    let want: u64 = arg("--sample").parse().unwrap();
    let mut lines: Vec<String> = vec![];
    let mut bad: Vec<Value> = vec![];
    let (mut played, mut steps) = (0u64, 0u64);
    let inp = arg("--in");
    if inp != "none" {
        let text = std::fs::read_to_string(inp).unwrap();
        let all: Vec<&str> = text.lines().collect();
        let every = (all.len() as u64 / want.max(1)).max(1);
        let next = std::sync::atomic::AtomicUsize::new(0);
        let res: Mutex<Vec<(usize, Option<String>, Option<Value>, u64)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for _ in 0..4 {
                sc.spawn(|| loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= all.len() {
                        break;
                    }
                    let v: Value = serde_json::from_str(all[k]).unwrap();
                    let texts: Vec<String> = v["texts"].as_array().unwrap().iter().map(|t| case::from_json(t).to_text()).collect();
                    let sched: Vec<(u64, String, u64)> = v["hist"].as_array().unwrap().iter().map(|e| (e["c"].as_u64().unwrap(), e["a"].as_str().unwrap().to_string(), e["t"].as_u64().unwrap())).collect();
                    let log = scheduled(&texts, &sched);
                    let w = log.wrong();
                    let keep = w.is_some() || (k as u64 + seed) % every == 0;
                    let j = if keep { Some(log.json(&texts)) } else { None };
                    res.lock().unwrap().push((k, w, j, log.hist.len() as u64));
                });
            }
        });
        let mut r = res.into_inner().unwrap();
        r.sort_by_key(|x| x.0);
        for (_, w, j, n) in r {
            played += 1;
            steps += n;
            if let Some(w) = w {
                bad.push(json!({"why": w, "history": j}));
            } else if let Some(j) = j {
                lines.push(json!({"hist": j["hist"]}).to_string());
            }
        }
    }
    let fams = gen::families("C21", "quick");
    for n in 0..nfree {
        let mut r = gen::Rng::new(seed, n, 2);
        let mut texts = vec![];
        while texts.len() < 3 {
            let f = &fams[r.below(fams.len())];
            if let Case::Text(s) = f.get("C21", seed, r.below(f.count() as usize) as u64) {
                if s.len() < 400 {
                    texts.push(s);
                }
            }
        }
        let log = free(&texts, 4, 8, seed ^ n);
        played += 1;
        steps += log.hist.len() as u64;
        match log.wrong() {
            Some(w) => bad.push(json!({"why": w, "history": log.json(&texts)})),
            None if (lines.len() as u64) < 2 * want => lines.push(json!({"hist": log.json(&texts)["hist"]}).to_string()),
            None => (),
        }
    }
    std::fs::write(arg("--out"), lines.iter().map(|l| l.clone() + "\n").collect::<String>()).unwrap();
    let sum = json!({"histories": played, "entries": steps, "sampled": lines.len(), "violations": bad.iter().take(5).collect::<Vec<_>>()});
    std::fs::write(arg("--summary"), serde_json::to_string_pretty(&sum).unwrap()).unwrap();
    println!("{played} histories, {steps} entries, {} wrong", bad.len());
    !bad.is_empty() as i32
}
