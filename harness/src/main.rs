mod calls;
mod case;
mod conv;
mod gen;
mod obs;
use case::Case;
use obs::Verdict;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("HARNESS_VERBOSE").is_ok() {
            eprintln!("{i}");
        }
    }));
    match std::env::args().nth(1).as_deref() {
        Some("explore") => big_stack(explore),
        Some("one") => big_stack(one),
        Some("deep") => std::process::exit(deep()),
        Some("gen") => big_stack(gen_one),
        Some("replay") => big_stack(replay),
        Some("digest") => digest(),
        Some("soak") => std::process::exit(soak()),
        Some("history") => std::process::exit(calls::history()),
        _ => {
            eprintln!("usage: harness explore|one|gen|replay|digest ...");
            std::process::exit(2)
        }
    }
}
fn big_stack(f: fn() -> i32) {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap();
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            eprintln!("harness: {m}");
            std::process::exit(2)
        }
    }
}
fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// harness explore --prop P --tier T --seed N --out DIR --time-s N
/// Judges every case of the property's families; writes DIR/summary.json, DIR/samples.ndjson.
/// Slot files DIR/slot.K say which case a worker is on, should the process die.
fn explore() -> i32 {
    let p = arg("--prop").unwrap();
    let tier = arg("--tier").unwrap();
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let out = arg("--out").unwrap();
    let limit = Duration::from_secs_f64(arg("--time-s").unwrap().parse().unwrap());
    std::fs::create_dir_all(&out).unwrap();
    let nsamples: usize = arg("--samples").and_then(|x| x.parse().ok()).unwrap_or(120);
    let hang = Duration::from_secs(arg("--hang-s").and_then(|x| x.parse().ok()).unwrap_or(20));
    let workers: usize = arg("--workers").and_then(|x| x.parse().ok()).unwrap_or(8);
    let mut fams = gen::families(&p, &tier);
    // for experiments: some of the families
    if let Some(o) = arg("--only") {
        fams.retain(|f| f.name().contains(&o));
    }
    let starts: Vec<u64> = fams
        .iter()
        .scan(0u64, |a, f| {
            let s = *a;
            *a += f.count();
            Some(s)
        })
        .collect();
    let total: u64 = fams.iter().map(|f| f.count()).sum();
    // families are interleaved so that a time limit cuts all of them alike
    let order = Order::new(&fams, &starts);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let t0 = Instant::now();
    let done: Vec<AtomicU64> = fams.iter().map(|_| AtomicU64::new(0)).collect();
    let nontriv = AtomicU64::new(0);
    let bad: Mutex<Vec<(u64, Value)>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<(u64, String, String)>> = Mutex::new(vec![]);
    let distinct: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    let busy: Vec<(AtomicU64, AtomicU64)> = (0..workers).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
    let alive = AtomicU64::new(workers as u64);
    let hung = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (p, out, fams, order, next, stop, done, nontriv, bad, samples, distinct, busy, alive) = (&p, &out, &fams, &order, &next, &stop, &done, &nontriv, &bad, &samples, &distinct, &busy, &alive);
            let f = move || {
                let _left = Leaving(alive);
                let slot = std::fs::File::create(format!("{out}/slot.{w}")).unwrap();
                const CHUNK: u64 = 16;
                'work: while !stop.load(SeqCst) && t0.elapsed() < limit {
                    let a = next.fetch_add(CHUNK, SeqCst);
                    if a >= total {
                        break;
                    }
                    for k in a..(a + CHUNK).min(total) {
                        let (fi, i) = order.at(k);
                        let c = fams[fi].get(p, seed, i);
                        let _ = slot.write_all_at(format!("{fi} {i}                    ").as_bytes(), 0);
                        busy[w].1.store(order.pack(fi, i), SeqCst);
                        busy[w].0.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                        let (v, o) = obs::check(p, &c, i % 40 == 0);
                        busy[w].0.store(0, SeqCst);
                        done[fi].fetch_add(1, SeqCst);
                        let h = hash(&c.key());
                        let fresh = distinct[(h % 64) as usize].lock().unwrap().insert(h);
                        match v {
                            Verdict::Broken(why, o) => {
                                let (c, why, o) = shrink(p, c, why, o);
                                let mut b = bad.lock().unwrap();
                                b.push((k, json!({"property": p, "predicate": obs::predicate(p, &c), "why": why, "family": fams[fi].name(), "index": i, "case": c.json(), "obs": o.map(|x| x.json())})));
                                if b.len() >= 6 {
                                    stop.store(true, SeqCst);
                                    break 'work;
                                }
                            }
                            Verdict::Holds => {
                                let o = o.unwrap();
                                let nt = obs::nontrivial(p, &c, &o);
                                if nt && fresh {
                                    nontriv.fetch_add(1, SeqCst);
                                }
                                // a sample for validation by TLC: by hash, small cases
                                if nt && fresh && c.size() <= 60 {
                                    let mut s = samples.lock().unwrap();
                                    let r = hash(&format!("{h}{seed}"));
                                    if s.len() < nsamples || r < s.last().unwrap().0 {
                                        let at = s.partition_point(|x| x.0 < r);
                                        s.insert(at, (r, obs::predicate(p, &c), format!("{{\"case\":{},\"obs\":{}}}", c.json(), o.json())));
                                        s.truncate(nsamples);
                                    }
                                }
                            }
                        }
                    }
                }
            };
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, f).unwrap();
        }
        // watchdog
        let (busy, alive, hung, stop, order, fams, p) = (&busy, &alive, &hung, &stop, &order, &fams, &p);
        let out = &out;
        sc.spawn(move || {
            while alive.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                for b in busy {
                    let s = b.0.load(SeqCst);
                    if s > 0 && now > s + hang.as_millis() as u64 {
                        let (fi, i) = order.unpack(b.1.load(SeqCst));
                        let mut h: std::sync::MutexGuard<Vec<Value>> = hung.lock().unwrap();
                        h.push(fams[fi].get(p, seed, i).json());
                        stop.store(true, SeqCst);
                        std::fs::write(format!("{out}/hung.json"), serde_json::to_string(&*h).unwrap()).unwrap();
                        std::process::exit(3);
                    }
                }
            }
        });
    });
    let mut b = bad.into_inner().unwrap();
    b.sort_by_key(|x| x.1["case"].to_string().len());
    let s = samples.into_inner().unwrap();
    let mut f = std::fs::File::create(format!("{out}/samples.ndjson")).unwrap();
    for (_, pred, l) in &s {
        writeln!(f, "{{\"pred\":\"{pred}\",\"rec\":{l}}}").unwrap();
    }
    let n: u64 = done.iter().map(|x| x.load(SeqCst)).sum();
    let sum = json!({
        "property": p, "tier": tier, "seed": seed, "planned": total, "evaluations": n,
        "complete": n == total,
        "distinct": distinct.iter().map(|d| d.lock().unwrap().len() as u64).sum::<u64>(),
        "distinct_nontrivial": nontriv.load(SeqCst),
        "families": fams.iter().zip(&done).map(|(f, d)| json!({"family": f.name(), "planned": f.count(), "done": d.load(SeqCst)})).collect::<Vec<_>>(),
        "violations": b.iter().map(|x| x.1.clone()).collect::<Vec<_>>(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "spec_hash": oracle::spec::SPEC_HASH,
    });
    std::fs::write(format!("{out}/summary.json"), serde_json::to_string_pretty(&sum).unwrap()).unwrap();
    println!("{n} of {total} cases in {:.1} s, {} violations", t0.elapsed().as_secs_f64(), b.len());
    (b.len() > 0) as i32
}

/// a worker has ended, by a panic of the harness perhaps; then the others need not go on
struct Leaving<'a>(&'a AtomicU64);
impl Drop for Leaving<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
        if std::thread::panicking() {
            std::process::exit(4);
        }
    }
}
/// proportional interleaving of the families
struct Order {
    cum: Vec<(u64, usize, u64)>, // (first global index, family, first index in it) of each slice
}
impl Order {
    fn new(fams: &[gen::Fam], _starts: &[u64]) -> Order {
        const SLICES: u64 = 64;
        let mut cum = vec![];
        let mut g = 0;
        for s in 0..SLICES {
            for (fi, f) in fams.iter().enumerate() {
                let (a, b) = (f.count() * s / SLICES, f.count() * (s + 1) / SLICES);
                if b > a {
                    cum.push((g, fi, a));
                    g += b - a;
                }
            }
        }
        Order { cum }
    }
    fn at(&self, k: u64) -> (usize, u64) {
        let j = self.cum.partition_point(|x| x.0 <= k) - 1;
        (self.cum[j].1, self.cum[j].2 + k - self.cum[j].0)
    }
    fn pack(&self, f: usize, i: u64) -> u64 {
        (f as u64) << 56 | i
    }
    fn unpack(&self, x: u64) -> (usize, u64) {
        ((x >> 56) as usize, x & ((1 << 56) - 1))
    }
}

/// a smaller case that is broken as well
fn shrink(p: &str, c: Case, why: String, o: Option<oracle::value::V>) -> (Case, String, Option<oracle::value::V>) {
    let mut best = (c, why, o);
    let t0 = Instant::now();
    let mut tries = 0;
    loop {
        let (mut next, mut over) = (None, false);
        smaller(&best.0, &mut |cand| {
            tries += 1;
            over = tries > 3000 || t0.elapsed() > Duration::from_secs(5);
            if over {
                return true;
            }
            if let (Verdict::Broken(w, o), _) = obs::check(p, &cand, false) {
                next = Some((cand, w, o));
            }
            next.is_some()
        });
        match next {
            Some(x) => best = x,
            None => return best,
        }
    }
}
/// the sequence without one of its halves, quarters, .., elements
fn cuts<T: Clone>(v: &[T]) -> impl Iterator<Item = Vec<T>> + '_ {
    let halves = std::iter::successors(Some(v.len() / 2), |n| Some(n / 2)).take_while(|n| *n >= 1);
    halves.flat_map(move |n| {
        (0..v.len() / n).map(move |k| {
            let mut x = v[..k * n].to_vec();
            x.extend_from_slice(&v[(k + 1) * n..]);
            x
        })
    })
}
fn smaller(c: &Case, f: &mut dyn FnMut(Case) -> bool) {
    let text = |s: &str, f: &mut dyn FnMut(String) -> bool| -> bool { cuts(&s.chars().collect::<Vec<_>>()).any(|x| f(x.into_iter().collect())) };
    match c {
        Case::Text(s) => {
            text(s, &mut |x| f(Case::Text(x)));
        }
        Case::Plain(s) => {
            text(s, &mut |x| f(Case::Plain(x)));
        }
        Case::Pair(a, b) => {
            let _ = text(a, &mut |x| f(Case::Pair(x, b.clone()))) || text(b, &mut |x| f(Case::Pair(a.clone(), x)));
        }
        Case::Picks(s, p) => {
            let _ = cuts(p).any(|x| f(Case::Picks(s.clone(), x))) || text(s, &mut |x| f(Case::Picks(x, p.clone())));
        }
        Case::Ops(s, v) => {
            cuts(v).any(|x| f(Case::Ops(s.clone(), x)));
        }
        Case::Doc(d) => {
            // drop blocks
            let b = d.get("body").items().to_vec();
            cuts(&b).any(|x| f(Case::Doc(oracle::value::V::record(&[("meta", d.get("meta").clone()), ("body", oracle::value::V::seq(x))]))));
        }
    }
}

/// harness one --prop P --case FILE [--obs OUT]: judge one case
fn one() -> i32 {
    let p = arg("--prop").unwrap();
    let f: Value = case::parsed(&std::fs::read_to_string(arg("--case").unwrap()).unwrap());
    let c = Case::from_json(f.get("case").unwrap_or(&f));
    let (v, o) = obs::check(&p, &c, true);
    let (code, why, o) = match v {
        Verdict::Holds => (0, "holds".to_string(), o),
        Verdict::Broken(w, o) => (1, w, o),
    };
    if let (Some(x), Some(o)) = (arg("--obs"), o) {
        std::fs::write(x, o.json() + "\n").unwrap();
    }
    println!("{p} {why}");
    code
}
/// harness deep --kind K --n N --stack-mb M: everything the library does with a text of N nested or
/// repeated pieces, on a stack of M megabytes
fn deep() -> i32 {
    let n: usize = arg("--n").unwrap().parse().unwrap();
    let mb: usize = arg("--stack-mb").unwrap().parse().unwrap();
    let s = match arg("--kind").unwrap().as_str() {
        "coll" => format!("{}a{}", "{% t\n".repeat(n), "\n%}".repeat(n)),
        "open" => "{% t\n".repeat(n),
        "list" => (0..n).map(|k| format!("{}- a", " ".repeat(k))).collect::<Vec<_>>().join("\n"),
        "paren" => format!("[a]({}", "(".repeat(n)),
        "bracket" => "[".repeat(n) + "a",
        "star" => "*a **b ~~c _d `e ".repeat(n / 10) + "a",
        "hl" => "!!\n".repeat(n),
        "esc" => "\\a".repeat(n),
        k => panic!("no kind {k}"),
    };
    let t = std::thread::Builder::new().stack_size(mb << 20).spawn(move || {
        let n = yamd::lexer::Lexer::new(&s).count();
        let ops = yamd::parse(&s);
        let d = yamd::deserialize(&s);
        let out = d.to_string();
        let d2 = yamd::deserialize(&out);
        std::mem::forget(d2);
        std::mem::forget(d);
        n + ops.len()
    });
    t.unwrap().join().is_err() as i32
}
/// harness gen --prop P --tier T --seed N --fam F --index I: print a case
fn gen_one() -> i32 {
    let p = arg("--prop").unwrap();
    let fams = gen::families(&p, &arg("--tier").unwrap());
    let c = fams[arg("--fam").unwrap().parse::<usize>().unwrap()].get(&p, arg("--seed").unwrap().parse().unwrap(), arg("--index").unwrap().parse().unwrap());
    println!("{}", c.json());
    0
}

/// harness replay --prop P --in FILE --kind K --out FILE
/// Each line of FILE is a behaviour of the specification as TLC printed it.  The native form of
/// the specification has to give the same values, and the library has to satisfy the property on
/// what the behaviour starts from.
fn replay() -> i32 {
    let p = arg("--prop").unwrap();
    let out = arg("--out").unwrap();
    let f = std::io::BufReader::new(std::fs::File::open(arg("--in").unwrap()).unwrap());
    let (mut n, mut steps, mut bad, mut diff, mut same) = (0u64, 0u64, vec![], vec![], 0u64);
    for line in f.lines() {
        let line = line.unwrap();
        let v: Value = case::parsed(&line);
        let tv = case::from_json(&v);
        n += 1;
        let c = match v["kind"].as_str().unwrap() {
            "text" => {
                let m = oracle::spec::o_ModelObs(tv.get("src"));
                for k in ["tk", "ev", "doc", "out", "doc2", "out2"] {
                    if v.get(k).is_some() {
                        steps += tv.get(k).len_or_1();
                        if m.get(k) != tv.get(k) {
                            diff.push(json!({"src": tv.get("src").to_text(), "field": k, "native": m.get(k).tla(), "tlc": tv.get(k).tla()}));
                        }
                    }
                }
                // does the library make exactly the steps of the behaviour?
                let s = tv.get("src").to_text();
                if let Ok(o) = obs::observe("ALL", &Case::Text(s.clone()), false) {
                    if ["tk", "ev", "doc", "out", "doc2", "out2"].iter().all(|k| v.get(*k).is_none() || o.v.get(k) == tv.get(k)) {
                        same += 1;
                    }
                }
                if p == "C09" && v.get("plain").is_some() { Case::Plain(tv.get("plain").to_text()) } else if p == "C19" { Case::Doc(tv.get("doc").clone()) } else { Case::Text(s) }
            }
            "pair" => {
                let m = oracle::spec::o_ModelPair(tv.get("a"), tv.get("b"));
                for k in ["da", "db", "dj", "dc"] {
                    steps += 1;
                    if m.get(k) != tv.get(k) {
                        diff.push(json!({"a": tv.get("a").to_text(), "b": tv.get("b").to_text(), "field": k}));
                    }
                }
                Case::Pair(tv.get("a").to_text(), tv.get("b").to_text())
            }
            "picks" => {
                let c = oracle::spec::o_Assemble(tv.get("src"), tv.get("tk"), tv.get("ps"));
                steps += tv.get("ps").len() as u64;
                if &oracle::spec::o_Lex(tv.get("src")) != tv.get("tk") || &c != tv.get("c") {
                    diff.push(json!({"src": tv.get("src").to_text(), "ps": tv.get("ps").tla()}));
                }
                let c = Case::Picks(tv.get("src").to_text(), tv.get("ps").items().iter().map(|i| i.i() as usize - 1).collect());
                if let Ok(o) = obs::observe(&p, &c, false) {
                    if o.v.get("c") == tv.get("c") && o.v.get("tk") == tv.get("tk") {
                        same += 1;
                    }
                }
                c
            }
            "ops" => {
                let b = oracle::spec::o_Build(tv.get("ev"));
                steps += tv.get("ev").len() as u64;
                if b.get("ok") != tv.get("ok") || b.get("tree") != tv.get("doc") {
                    diff.push(json!({"ev": tv.get("ev").tla()}));
                }
                let spec = tv
                    .get("ev")
                    .items()
                    .iter()
                    .map(|e| case::OpSpec {
                        o: sym(e.get("o")).chars().next().unwrap(),
                        n: sym(e.get("n")),
                        m: true,
                        s: 0,
                        e: 0,
                        w: e.get("x").get("w").to_text(),
                    })
                    .collect();
                Case::Ops(String::new(), spec)
            }
            _ => {
                let o = oracle::spec::o_Show(tv.get("doc"));
                steps += 1;
                if &o != tv.get("out") {
                    diff.push(json!({"doc": tv.get("doc").tla()}));
                }
                if p == "C18" { Case::Text(tv.get("out").to_text()) } else { Case::Doc(tv.get("doc").clone()) }
            }
        };
        if let (Verdict::Broken(why, o), _) = obs::check(&p, &c, false) {
            if bad.len() < 6 {
                let (c, why, o) = shrink(&p, c, why, o);
                bad.push(json!({"property": p, "predicate": obs::predicate(&p, &c), "why": why, "family": "behaviours of the specification", "index": n, "case": c.json(), "obs": o.map(|x| x.json())}));
            }
        }
    }
    let sum = json!({"behaviours": n, "steps": steps, "reproduced_exactly": same, "violations": bad, "oracle_differences": diff.iter().take(5).collect::<Vec<_>>()});
    std::fs::write(out, serde_json::to_string_pretty(&sum).unwrap()).unwrap();
    if !diff.is_empty() {
        return 2;
    }
    (!bad.is_empty()) as i32
}
fn sym(v: &oracle::value::V) -> String {
    match v {
        oracle::value::V::S(i) => oracle::value::sym_name(*i),
        oracle::value::V::Q(q) if q.is_empty() => String::new(),
        _ => panic!("string expected"),
    }
}
trait LenOr1 {
    fn len_or_1(&self) -> u64;
}
impl LenOr1 for oracle::value::V {
    fn len_or_1(&self) -> u64 {
        match self {
            oracle::value::V::Q(q) => q.len() as u64,
            _ => 1,
        }
    }
}

/// harness digest --seed N --count N --order fwd|rev|mix --threads K --out FILE
/// One line per case: what the library makes of it, as a hash.  The order in which the cases are
/// given and the number of threads must not matter.
fn digest() {
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let n: u64 = arg("--count").unwrap().parse().unwrap();
    let order = arg("--order").unwrap();
    let threads: u64 = arg("--threads").unwrap().parse().unwrap();
    let fams = gen::families("C21", "quick");
    let text = |i: u64| -> String {
        let f = &fams[(i % fams.len() as u64) as usize];
        match f.get("C21", seed, hash(&format!("{i}.{seed}")) % f.count()) {
            Case::Text(s) => s,
            _ => String::new(),
        }
    };
    let mut ix: Vec<u64> = (0..n).collect();
    match order.as_str() {
        "rev" => ix.reverse(),
        "mix" => ix.sort_by_key(|i| hash(&format!("{i}/{seed}"))),
        _ => {}
    }
    let res: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
    let next = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= n {
                        break;
                    }
                    let s = text(ix[k as usize]);
                    let h = fingerprint(&s);
                    res.lock().unwrap().push((ix[k as usize], h));
                })
                .unwrap();
        }
    });
    let mut r = res.into_inner().unwrap();
    r.sort();
    let mut f = std::io::BufWriter::new(std::fs::File::create(arg("--out").unwrap()).unwrap());
    for (i, h) in r {
        writeln!(f, "{i} {h:016x}").unwrap();
    }
    if let Some(i) = arg("--text") {
        println!("{}", Case::Text(text(i.parse().unwrap())).json());
    }
}

fn fingerprint(s: &str) -> u64 {
    std::panic::catch_unwind(|| {
        let t: Vec<_> = yamd::lexer::Lexer::new(s).collect();
        let o = yamd::parse(s);
        let d = yamd::deserialize(s);
        hash(&format!("{t:?}{o:?}{d:?}{d}"))
    })
    .unwrap_or(0)
}
/// harness soak --seed N --rounds N --threads K --out FILE
/// One text over and over again, many times; then all the texts must still give what they gave
/// before.  Each thread has its own share of the texts to repeat.
fn soak() -> i32 {
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let rounds: u64 = arg("--rounds").unwrap().parse().unwrap();
    let threads: usize = arg("--threads").unwrap().parse().unwrap();
    let mut texts: Vec<String> = gen::SHORT.iter().map(|s| s.to_string()).collect();
    let fams = gen::families("C21", "quick");
    for i in 0..40u64 {
        let f = &fams[(i % fams.len() as u64) as usize];
        if let Case::Text(s) = f.get("C21", seed, hash(&format!("{i}~{seed}")) % f.count()) {
            if s.len() < 60 {
                texts.push(s);
            }
        }
    }
    let texts = &texts;
    let base: Vec<u64> = texts.iter().map(|s| fingerprint(s)).collect();
    let base = &base;
    let found: Mutex<Option<Value>> = Mutex::new(None);
    let found = &found;
    std::thread::scope(|sc| {
        for w in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    for (i, s) in texts.iter().enumerate() {
                        if i % threads != w {
                            continue;
                        }
                        for _ in 0..rounds {
                            let _ = std::panic::catch_unwind(|| {
                                let n = yamd::lexer::Lexer::new(s).count();
                                let d = yamd::deserialize(s);
                                n + d.to_string().len()
                            });
                        }
                        for (j, x) in texts.iter().enumerate() {
                            if fingerprint(x) != base[j] {
                                *found.lock().unwrap() = Some(json!({"case": Case::Text(x.clone()).json(), "repeated": s, "rounds": rounds}));
                                return;
                            }
                        }
                        if found.lock().unwrap().is_some() {
                            return;
                        }
                    }
                })
                .unwrap();
        }
    });
    let (twins, deep) = (lookalikes(seed, rounds, found), crowd(threads, rounds, found));
    let f = found.lock().unwrap();
    std::fs::write(arg("--out").unwrap(), json!({"texts": texts.len(), "rounds": rounds, "lookalikes": twins, "crowd": deep, "found": *f}).to_string()).unwrap();
    f.is_some() as i32
}
/// Texts of one length made of the same characters, or that differ in a single place, one right
/// after the other and from the same buffer.
fn lookalikes(seed: u64, rounds: u64, found: &Mutex<Option<Value>>) -> u64 {
    let fams = gen::families("C21", "quick");
    let bases = 60 + rounds / 2000;
    let done = AtomicU64::new(0);
    let next = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..4 {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let b = next.fetch_add(1, SeqCst);
                    if b >= bases || found.lock().unwrap().is_some() {
                        break;
                    }
                    let mut r = gen::Rng::new(seed, b, 71);
                    let mut s = String::new();
                    // from a few characters to some ten thousand
                    let least = [8, 60, 200, 1100, 4200, 20000][b as usize % 6];
                    while s.len() < least {
                        let f = &fams[r.below(fams.len())];
                        if let Case::Text(t) = f.get("C21", seed, r.next() % f.count()) {
                            if t.len() <= least {
                                s += &t;
                                s += "\n\n*a* _b_ ";
                            }
                        }
                    }
                    let c: Vec<char> = s.chars().collect();
                    let mut group: Vec<Vec<char>> = vec![c.clone()];
                    for k in 0..8 {
                        let mut x = c.clone();
                        for _ in 0..1 + k % 3 {
                            match k {
                                0 => x.reverse(),
                                1 => x.rotate_left(c.len() / 2),
                                6 | 7 => {
                                    let i = r.below(c.len());
                                    x[i] = if x[i].is_ascii() && x[i] != '*' { '*' } else { x[i] };
                                }
                                _ => {
                                    let i = r.below(c.len());
                                    let j = if k < 4 { (i + 1) % c.len() } else { r.below(c.len()) };
                                    x.swap(i, j);
                                }
                            }
                        }
                        group.push(x);
                    }
                    let group: Vec<String> = group.into_iter().map(|x| x.into_iter().collect()).collect();
                    let mut buf = String::with_capacity(s.len() * 4);
                    let mut first: Vec<Option<u64>> = vec![None; group.len()];
                    let n = group.len();
                    for step in 0..n * n {
                        // every text after every other
                        let i = (step % n + (step / n) * (step % 2)) % n;
                        buf.clear();
                        buf.push_str(&group[i]);
                        let h = fingerprint(&buf);
                        done.fetch_add(1, SeqCst);
                        match first[i] {
                            None => first[i] = Some(h),
                            Some(f) if f != h => {
                                *found.lock().unwrap() = Some(json!({"case": Case::Text(group[i].clone()).json(), "why": "a text gives another result after one like it was parsed"}));
                                return;
                            }
                            _ => {}
                        }
                    }
                })
                .unwrap();
        }
    });
    done.into_inner()
}
/// Many threads deep in nested texts at once.
fn crowd(threads: usize, rounds: u64, found: &Mutex<Option<Value>>) -> u64 {
    let n = 600;
    let texts = [
        format!("{}a{}\n\nb", "{% t\n".repeat(n), "\n%}".repeat(n)),
        (0..n / 2).map(|k| format!("{}- a", " ".repeat(k))).collect::<Vec<_>>().join("\n"),
        format!("[a]({}u{}) b", "(".repeat(n), ")".repeat(n)),
        "{% t\n!! t\n! i\n\na **b _c_** [d](e)\n!!\n\n- a\n - b\n\n```x\nc\n```\n\n{{a|b}}\n%}\n\n".repeat(60),
        format!("{}\\*", "a-".repeat(3000)),
    ];
    let (texts, done) = (&texts, &AtomicU64::new(0));
    std::thread::scope(|sc| {
        let base: Vec<u64> = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, || texts.iter().map(|s| fingerprint(s)).collect()).unwrap().join().unwrap();
        for w in 0..threads * 2 {
            let base = base.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    for k in 0..(20 + rounds / 10000) as usize {
                        // first all in the same text, then each in its own
                        let i = if k % 2 == 0 { (k / 2) % texts.len() } else { (k + w) % texts.len() };
                        if found.lock().unwrap().is_some() {
                            return;
                        }
                        done.fetch_add(1, SeqCst);
                        if fingerprint(&texts[i]) != base[i] {
                            *found.lock().unwrap() = Some(json!({"case": Case::Text(texts[i].clone()).json(), "why": "a text gives another result while other threads parse"}));
                            return;
                        }
                    }
                })
                .unwrap();
        }
    });
    done.load(SeqCst)
}
