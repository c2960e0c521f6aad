//! Run the library on a case and record what it did.
use crate::case::{build_doc, build_ops, construct_doc, Case};
use crate::conv::{self, Src};
use oracle::spec as sp;
use oracle::value::V;
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use yamd::lexer::{Lexer, Token};
use yamd::op::{Content, Op};
use yamd::Yamd;

/// the library panicked in this stage
pub struct Crash(pub &'static str, pub String);
type R<T> = Result<T, Crash>;

fn guard<T>(stage: &'static str, f: impl FnOnce() -> T) -> R<T> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        Crash(stage, m)
    })
}

fn lex(s: &str) -> R<Vec<Token>> {
    guard("tokens", || Lexer::new(s).collect())
}
fn lex_after(s: &str) -> R<(Vec<Token>, bool)> {
    guard("tokens", || {
        let mut it = Lexer::new(s);
        let mut v = vec![];
        for t in it.by_ref() {
            v.push(t);
        }
        let after = (0..3).all(|_| it.next().is_none());
        (v, after)
    })
}
fn parse(s: &str) -> R<Vec<Op>> {
    guard("events", || yamd::parse(s))
}
fn deser(s: &str) -> R<Yamd> {
    guard("tree", || yamd::deserialize(s))
}
fn show(d: &Yamd) -> R<String> {
    guard("printing", || d.to_string())
}
fn toks(src: &Src, t: &[Token]) -> V {
    V::seq(t.iter().map(|x| conv::token(src, x)).collect())
}

/// a serde_json value in the encoding of the specification: objects sorted by key;
/// names of variants are tags
fn jv(v: &Value, tag: bool) -> V {
    let r = |j: &str, k: &str, x: V| V::record(&[("j", V::s(j)), (k, x)]);
    match v {
        Value::Null => V::record(&[("j", V::s("z"))]),
        Value::Bool(b) => r("b", "b", V::B(*b)),
        Value::Number(n) => r("n", "n", n.as_i64().map(V::I).unwrap_or(V::s("not an integer"))),
        Value::String(s) if tag => r("t", "t", V::s(s)),
        Value::String(s) => r("s", "s", V::text(s)),
        Value::Array(a) => r("a", "a", V::seq(a.iter().map(|x| jv(x, false)).collect())),
        Value::Object(o) => {
            let start_end = matches!(o.get("type").and_then(|x| x.as_str()), Some("Start" | "End"));
            let mut ks: Vec<&String> = o.keys().collect();
            ks.sort();
            r(
                "o",
                "kv",
                V::seq(
                    ks.iter()
                        .map(|k| {
                            let t = *k == "type" || *k == "list_type" || (*k == "value" && start_end);
                            V::record(&[("k", V::s(k)), ("v", jv(&o[*k], t))])
                        })
                        .collect(),
                ),
            )
        }
    }
}
/// from a string, to any depth
fn read<T: serde::de::DeserializeOwned>(s: &str) -> Option<T> {
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    let v = T::deserialize(&mut d).ok()?;
    d.end().ok()?;
    Some(v)
}
/// both ways of reading back what was written give an equal value
fn back<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(x: &T) -> (Value, bool) {
    let j = serde_json::to_value(x).unwrap_or(Value::Null);
    let s = serde_json::to_string(x).unwrap_or_default();
    let ok = serde_json::from_value::<T>(j.clone()).is_ok_and(|y| y == *x)
        && read::<T>(&s).is_some_and(|y| y == *x)
        && read::<Value>(&s).is_some_and(|y| y == j)
        && serde_json::to_string(x).is_ok_and(|t| t == s);
    (j, ok)
}

fn own(x: &Op, s: &str) -> Op {
    let c = Content::Materialized(x.content.to_string(s));
    let n = |n: &yamd::op::Node| crate::case::node(&conv::node_name(n));
    match &x.kind {
        yamd::op::OpKind::Start(k) => Op::new_start(n(k), c),
        yamd::op::OpKind::End(k) => Op::new_end(n(k), c),
        _ => Op::new_value(c),
    }
}
/// the comparisons of C21
fn agree(s: &str, ops: &[Op], d: &Yamd) -> R<Option<String>> {
    const OTHERS: &[&str] = &["**a", "- x\n + y\n\n{% t\n!! u\nv\n!!\n%}", "```\n\\a", "---\nm\n---\n\n# \\é"];
    let k = s.len() % OTHERS.len();
    let t1 = lex(s)?;
    let ops2 = parse(s)?;
    guard("tree builders", || {
        macro_rules! eq { ($a:expr, $b:expr, $w:expr) => { if $a != $b { return Some($w.to_string()); } } }
        eq!(ops2, ops, "events of a repeated call");
        eq!(yamd::deserialize(s), *d, "tree of a repeated call");
        eq!(yamd::try_to_yamd(ops, s).ok().as_ref(), Some(d), "fallible builder and one-step parse");
        eq!(yamd::to_yamd(ops, s), *d, "infallible builder and one-step parse");
        // something else in between
        let o = yamd::deserialize(OTHERS[k]);
        let mut l1 = Lexer::new(s);
        let mut l2 = Lexer::new(OTHERS[k]);
        let mut inter = vec![];
        loop {
            let a = l1.next();
            l2.next();
            match a {
                Some(t) => inter.push(t),
                None => break,
            }
        }
        eq!(inter, t1, "tokens with another text tokenised in between");
        eq!(yamd::parse(s), ops, "events after another text");
        eq!(yamd::deserialize(s), *d, "tree after another text");
        eq!(yamd::deserialize(OTHERS[k]), o, "tree of another text");
        let copy = d.clone();
        let p1 = d.to_string();
        eq!(*d, copy, "printing changed the tree");
        eq!(p1, d.to_string(), "printed twice");
        eq!(p1, copy.to_string(), "printed copy");
        eq!(p1, format!("{d}"), "printed by format");
        // borrowed and owned contents
        for x in ops {
            let c = &x.content;
            let t: &str = c.as_str(s);
            eq!(t, c.to_string(s), "as_str and to_string");
            if let Content::Materialized(m) = c {
                eq!(m.as_str(), t, "owned content");
                eq!(c.is_empty(), m.is_empty(), "is_empty of owned content");
            }
            if let Content::Span(r) = c {
                eq!(c.is_empty(), r.is_empty(), "is_empty of borrowed content");
                if !r.is_empty() {
                    eq!(Some(t), s.get(r.clone()), "borrowed content");
                }
            }
        }
        let owned: Vec<Op> = ops.iter().map(|x| own(x, s)).collect();
        eq!(yamd::to_yamd(&owned, s), *d, "tree from owned contents");
        eq!(yamd::to_yamd(&owned, ""), *d, "tree from owned contents without the source");
        // contents of runs of tokens
        let n = t1.len();
        let lim = if n <= 14 { n } else { 3 };
        for a in 0..n.min(40) {
            for b in a..(a + lim + 1).min(n + 1) {
                let c = Content::from_tokens(&t1[a..b], s);
                let want: String = t1[a..b].iter().map(|t| s.get(t.range.clone()).unwrap_or("?")).collect();
                eq!(c.as_str(s), want, "text of a run of tokens");
                let contiguous = t1[a..b].windows(2).all(|w| w[0].range.end == w[1].range.start);
                eq!(matches!(c, Content::Span(_)), contiguous, "borrowed exactly when contiguous");
            }
        }
        None
    })
}
/// the same from several threads at once
fn agree_threads(s: &str, ops: &[Op], d: &Yamd) -> Option<String> {
    let out = d.to_string();
    let t = Lexer::new(s).collect::<Vec<_>>();
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|sc| {
        for k in 0..4 {
            let (bad, out, t) = (&bad, &out, &t);
            let f = move || {
                for i in 0..3 {
                    if (i + k) % 2 == 0 {
                        yamd::deserialize("{% t\n- a\n + **b\n%}");
                    }
                    let ok = catch_unwind(AssertUnwindSafe(|| yamd::deserialize(s) == *d && yamd::parse(s) == ops && Lexer::new(s).collect::<Vec<_>>() == *t && d.to_string() == *out)).unwrap_or(false);
                    if !ok {
                        *bad.lock().unwrap() = Some("results in several threads".to_string());
                    }
                }
            };
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, f).unwrap();
        }
    });
    bad.into_inner().unwrap()
}

pub struct Seen {
    pub v: V,
    pub note: String,
}
fn seen(v: V) -> R<Seen> {
    Ok(Seen { v, note: String::new() })
}

pub fn observe(p: &str, c: &Case, threads: bool) -> R<Seen> {
    match c {
        Case::Text(s) => observe_text(p, s, threads),
        Case::Picks(s, ps) => picks(s, ps),
        Case::Plain(plain) => {
            let t = V::text(plain);
            let e = sp::o_FullyEscaped(&t);
            let d = deser(&e.to_text())?;
            seen(V::record(&[("src", e), ("plain", t), ("doc", conv::doc(&d))]))
        }
        Case::Pair(a, b) => {
            let (va, vb) = (V::text(a), V::text(b));
            let j = sp::o_JoinText(&va, &vb).to_text();
            if p == "C28" {
                let ev = |s: &str| -> R<V> { Ok(conv::ops(&Src::new(s), &parse(s)?)) };
                return seen(V::record(&[("a", va), ("b", vb), ("ea", ev(a)?), ("eb", ev(b)?), ("ej", ev(&j)?)]));
            }
            let k = sp::o_CollText(&va, &vb).to_text();
            seen(V::record(&[("a", va), ("b", vb), ("da", conv::doc(&deser(a)?)), ("db", conv::doc(&deser(b)?)), ("dj", conv::doc(&deser(&j)?)), ("dc", conv::doc(&deser(&k)?))]))
        }
        Case::Ops(s, spec) => {
            let src = Src::new(s);
            let ops = build_ops(spec);
            let r = guard("fallible tree builder", || yamd::try_to_yamd(&ops, s))?;
            let i = guard("infallible tree builder", || yamd::to_yamd(&ops, s));
            let doc = |x: Option<&Yamd>| x.map(conv::doc).unwrap_or_else(conv::no_doc);
            seen(V::record(&[
                ("ev", conv::ops(&src, &ops)),
                ("ok", V::B(r.is_ok())),
                ("doc", doc(r.as_ref().ok())),
                ("iok", V::B(i.is_ok())),
                ("idoc", doc(i.as_ref().ok())),
            ]))
        }
        Case::Doc(v) => {
            if p == "C26" {
                return built(v, None);
            }
            let d = build_doc(v);
            if p == "C20" {
                let ops: Vec<Op> = vec![];
                return c20(&Src::new(""), &d, &ops);
            }
            let out = show(&d)?;
            let d2 = deser(&out)?;
            seen(V::record(&[("doc", conv::doc(&d)), ("out", V::text(&out)), ("doc2", conv::doc(&d2))]))
        }
    }
}
/// a tree made with the constructors, printed as a whole and block by block; the tree of a text
/// has to come out of the constructors as it went in
fn built(given: &V, parsed: Option<&Yamd>) -> R<Seen> {
    let made = guard("construction of the tree", || construct_doc(given))?;
    let d = parsed.unwrap_or(&made);
    let mut doc = conv::doc(d);
    if parsed.is_some() && *d != made {
        doc = conv::doc(&made);
    }
    let out = show(d)?;
    let parts = guard("printing of the blocks", || {
        use yamd::nodes::YamdNodes as N;
        d.body
            .iter()
            .map(|b| {
                let alone = match b {
                    N::Paragraph(x) => x.to_string(),
                    N::Heading(x) => x.to_string(),
                    N::Image(x) => x.to_string(),
                    N::Images(x) => x.to_string(),
                    N::Code(x) => x.to_string(),
                    N::List(x) => x.to_string(),
                    N::Highlight(x) => x.to_string(),
                    N::ThematicBreak(x) => x.to_string(),
                    N::Embed(x) => x.to_string(),
                    N::Collapsible(x) => x.to_string(),
                };
                if alone == b.to_string() { V::text(&alone) } else { V::text("printed differently as a node and as one of the nodes of a document") }
            })
            .collect::<Vec<_>>()
    })?;
    seen(V::record(&[("given", given.clone()), ("doc", doc), ("out", V::text(&out)), ("parts", V::seq(parts))]))
}
/// the blocks of a document printed alone, in a collapsible, and in reverse order
fn edited(d: &Yamd) -> R<Seen> {
    use yamd::nodes::{Collapsible, YamdNodes as N};
    fn all<'a>(b: &'a [N], out: &mut Vec<&'a N>) {
        for n in b {
            out.push(n);
            if let N::Collapsible(c) = n {
                all(&c.body, out)
            }
        }
    }
    let mut parts = vec![];
    all(&d.body, &mut parts);
    parts.truncate(8);
    let again = |body: Vec<N>| -> R<V> { Ok(conv::doc(&deser(&show(&Yamd::new(None, body))?)?)) };
    let (mut alone, mut inside) = (vec![], vec![]);
    for n in &parts {
        alone.push(again(vec![(*n).clone()])?);
        inside.push(again(vec![N::Collapsible(Collapsible::new("x", vec![(*n).clone()]))])?);
    }
    let back = again(d.body.iter().rev().cloned().collect())?;
    let parts = V::seq(parts.iter().map(|n| conv::doc(&Yamd::new(None, vec![(*n).clone()])).get("body").items()[0].clone()).collect());
    seen(V::record(&[("doc", conv::doc(d)), ("parts", parts), ("alone", V::seq(alone)), ("inside", V::seq(inside)), ("back", back)]))
}
/// contents assembled from tokens of a text, in every way there is
fn picks(s: &str, ps: &[usize]) -> R<Seen> {
    let src = Src::new(s);
    let t = lex(s)?;
    let ps: Vec<usize> = if t.is_empty() { vec![] } else { ps.iter().map(|i| i % t.len()).collect() };
    let sel: Vec<Token> = ps.iter().map(|i| t[*i].clone()).collect();
    let (c, f, note) = guard("contents", || {
        let c = Content::from_tokens(&sel, s);
        let f = Content::from(sel.as_slice());
        let mut bad: Option<&str> = None;
        let mut must = |ok: bool, w: &'static str| {
            if !ok && bad.is_none() {
                bad = Some(w)
            }
        };
        must(c == Content::from_tokens(&sel.clone(), s), "assembled twice");
        must(c.as_str(s) == c.to_string(s), "as_str and to_string");
        must(c.is_empty() == c.as_str(s).is_empty(), "is_empty and as_str");
        must(c.is_empty() == ps.is_empty(), "is_empty without tokens");
        must(f == Content::from(sel.clone()), "from a slice and from a vector");
        must(f.as_str(s) == f.to_string(s), "as_str and to_string of a converted content");
        must(f.is_empty() == f.as_str(s).is_empty(), "is_empty and as_str of a converted content");
        must(Op::new_value(sel.as_slice()) == Op { kind: yamd::op::OpKind::Value, content: Content::from(sel.as_slice()) }, "an event of tokens");
        macro_rules! arr { ($($n:literal),*) => { $( if sel.len() == $n {
            let a: [Token; $n] = sel.clone().try_into().unwrap();
            must(f == Content::from(&a), "from an array");
            must(Op::new_start(yamd::op::Node::Bold, &a).content == f, "a start of tokens");
            must(Op::new_end(yamd::op::Node::Bold, &a).content == f, "an end of tokens");
        } )* } }
        arr!(0, 1, 2, 3, 4);
        if let Content::Materialized(m) = &c {
            must(c.as_str("") == m && c.to_string("") == *m, "an owned text without the source");
        }
        if ps.windows(2).all(|w| w[0] + 1 == w[1]) && !ps.is_empty() {
            let (a, b) = (ps[0], ps[ps.len() - 1] + 1);
            must(Content::from_tokens(&t[a..b], s) == c && Content::from(&t[a..b]) == f, "a part of the list of tokens and a copy of it");
        }
        (conv::content(&src, &c), conv::content(&src, &f), bad)
    })?;
    let ps1 = V::seq(ps.iter().map(|i| V::I(*i as i64 + 1)).collect());
    Ok(Seen {
        v: V::record(&[("src", V::text(s)), ("tk", toks(&src, &t)), ("ps", ps1), ("c", c), ("f", f), ("agree", V::B(note.is_none()))]),
        note: note.unwrap_or_default().to_string(),
    })
}
fn c20(src: &Src, d: &Yamd, ops: &Vec<Op>) -> R<Seen> {
    let (jd, b1) = guard("serialisation of the tree", || back(d))?;
    let (je, b2) = guard("serialisation of the events", || back(ops))?;
    let same = guard("serialisation of a copy", || serde_json::to_string(&d.clone()).ok() == serde_json::to_string(d).ok() && ops.iter().all(|o| back(o).1) && d.body.iter().all(|n| back(n).1))?;
    seen(V::record(&[("ev", conv::ops(src, ops)), ("doc", conv::doc(d)), ("jd", jv(&jd, false)), ("je", jv(&je, false)), ("back", V::B(b1 && b2 && same))]))
}

fn observe_text(p: &str, s: &str, threads: bool) -> R<Seen> {
    let src = Src::new(s);
    let vs = V::text(s);
    match p {
        "C01" => {
            lex_after(s)?;
            let ops = parse(s)?;
            guard("fallible tree builder", || yamd::try_to_yamd(&ops, s).is_ok())?;
            guard("infallible tree builder", || yamd::to_yamd(&ops, s))?;
            let d = deser(s)?;
            let out = show(&d)?;
            let d2 = deser(&out)?;
            show(&d2)?;
            seen(V::record(&[("src", vs), ("fin", V::B(true))]))
        }
        "C02" => seen(V::record(&[("src", vs), ("ev", conv::ops(&src, &parse(s)?))])),
        "C03" | "C04" => {
            let ops = parse(s)?;
            let r = guard("fallible tree builder", || yamd::try_to_yamd(&ops, s))?;
            let d = if r.is_ok() && p == "C04" { conv::doc(&guard("infallible tree builder", || yamd::to_yamd(&ops, s))?) } else { conv::no_doc() };
            seen(V::record(&[("src", vs), ("ev", conv::ops(&src, &ops)), ("ok", V::B(r.is_ok())), ("doc", d)]))
        }
        "C06" | "C07" | "C08" => {
            let (t, after) = lex_after(s)?;
            seen(V::record(&[("src", vs), ("tk", toks(&src, &t)), ("after", V::B(after))]))
        }
        "C09" => {
            let alt = sp::o_AltSrc(&vs).to_text();
            let asrc = Src::new(&alt);
            seen(V::record(&[
                ("src", vs),
                ("tk", toks(&src, &lex(s)?)),
                ("ev", conv::ops(&src, &parse(s)?)),
                ("doc", conv::doc(&deser(s)?)),
                ("aev", conv::ops(&asrc, &parse(&alt)?)),
                ("adoc", conv::doc(&deser(&alt)?)),
            ]))
        }
        "C18" => {
            let d = deser(s)?;
            let out = show(&d)?;
            let d2 = deser(&out)?;
            let out2 = show(&d2)?;
            seen(V::record(&[("src", vs), ("doc", conv::doc(&d)), ("out", V::text(&out)), ("doc2", conv::doc(&d2)), ("out2", V::text(&out2))]))
        }
        "C20" => c20(&src, &deser(s)?, &parse(s)?),
        "C21" => {
            let ops = parse(s)?;
            let d = deser(s)?;
            let mut bad = agree(s, &ops, &d)?;
            if threads && bad.is_none() {
                bad = agree_threads(s, &ops, &d);
            }
            Ok(Seen {
                v: V::record(&[("src", vs), ("ev", conv::ops(&src, &ops)), ("agree", V::B(bad.is_none()))]),
                note: bad.unwrap_or_default(),
            })
        }
        "C23" => {
            let crlf = s.replace('\n', "\r\n");
            seen(V::record(&[("src", vs), ("doc", conv::doc(&deser(s)?)), ("cdoc", conv::doc(&deser(&crlf)?))]))
        }
        "C29" => {
            let dp = conv::doc(&deser(s)?);
            let mut docs = vec![];
            if sp::o_LineAlone(&vs) {
                for k in 1..=sp::o_PlacesOfLines() {
                    docs.push(conv::doc(&deser(&sp::o_PlacedText(&V::I(k), &vs).to_text())?));
                }
            }
            seen(V::record(&[("src", vs), ("dp", dp), ("docs", V::seq(docs))]))
        }
        "C30" | "C33" => {
            let r = if p == "C30" { sp::o_Renamed(&vs) } else { sp::o_Exchanged(&vs) }.to_text();
            let rsrc = Src::new(&r);
            let (d, rd) = (deser(s)?, deser(&r)?);
            seen(V::record(&[
                ("src", vs),
                ("tk", toks(&src, &lex(s)?)),
                ("ev", conv::ops(&src, &parse(s)?)),
                ("doc", conv::doc(&d)),
                ("out", V::text(&show(&d)?)),
                ("rsrc", V::text(&r)),
                ("rtk", toks(&rsrc, &lex(&r)?)),
                ("rev", conv::ops(&rsrc, &parse(&r)?)),
                ("rdoc", conv::doc(&rd)),
                ("rout", V::text(&show(&rd)?)),
            ]))
        }
        "C31" => {
            let d = deser(s)?;
            edited(&d)
        }
        "C32" => {
            let mut docs = vec![];
            for j in 1..=3 {
                docs.push(conv::doc(&deser(&sp::o_MoreEscapes(&vs, &V::I(j)).to_text())?));
            }
            seen(V::record(&[("src", vs), ("doc", conv::doc(&deser(s)?)), ("docs", V::seq(docs))]))
        }
        "C26" => {
            let d = deser(s)?;
            built(&conv::doc(&d), Some(&d))
        }
        "C27" => {
            let t = lex(s)?;
            // a few dozen of the places between tokens, and all of them in short texts
            let n = t.len();
            let step = if n <= 20 { 1 } else if n < 5000 { n.div_ceil(14) } else { n / 4 };
            let first = s.len() % step.max(1);
            let mut cuts = vec![];
            for (i, x) in t.iter().enumerate().skip(first).step_by(step.max(1)) {
                let (Some(l), Some(r)) = (s.get(..x.range.end), s.get(x.range.end..)) else {
                    return Err(Crash("tokens", "a token ends within a character".into()));
                };
                cuts.push(V::record(&[("i", V::I(i as i64 + 1)), ("l", toks(&src, &lex(l)?)), ("r", toks(&Src::new(r), &lex(r)?))]));
            }
            seen(V::record(&[("src", vs), ("tk", toks(&src, &t)), ("cuts", V::seq(cuts))]))
        }
        "C24" => seen(V::record(&[("src", vs), ("doc", conv::doc(&deser(s)?))])),
        "ALL" => {
            let (t, after) = lex_after(s)?;
            let ops = parse(s)?;
            let d = deser(s)?;
            let ok = guard("fallible tree builder", || yamd::try_to_yamd(&ops, s).is_ok())?;
            let out = show(&d)?;
            let d2 = deser(&out)?;
            let out2 = show(&d2)?;
            seen(V::record(&[
                ("src", vs),
                ("tk", toks(&src, &t)),
                ("ev", conv::ops(&src, &ops)),
                ("ok", V::B(ok)),
                ("doc", conv::doc(&d)),
                ("out", V::text(&out)),
                ("doc2", conv::doc(&d2)),
                ("out2", V::text(&out2)),
                ("fin", V::B(true)),
                ("after", V::B(after)),
            ]))
        }
        // C10 .. C17
        _ => seen(V::record(&[("src", vs), ("tk", toks(&src, &lex(s)?)), ("ev", conv::ops(&src, &parse(s)?)), ("doc", conv::doc(&deser(s)?))])),
    }
}

/// name of the predicate that judges a case of this kind for this property
pub fn predicate(p: &str, c: &Case) -> String {
    match (p, c) {
        ("C04", Case::Ops(..)) => "C04b".into(),
        ("C09", Case::Plain(_)) => "C09f".into(),
        _ => p.into(),
    }
}
/// the verdict of the specification on an observation
pub fn judge(pred: &str, o: &V, big: bool) -> bool {
    match pred {
        "C01" => sp::o_P_C01(o),
        "C02" => sp::o_P_C02(o),
        "C03" => sp::o_P_C03(o),
        "C04" => sp::o_P_C04(o),
        "C04b" => sp::o_P_C04b(o),
        "C05" => sp::o_P_C05(o),
        "C06" => sp::o_P_C06(o),
        "C07" => sp::o_P_C07(o),
        "C08" => sp::o_P_C08(o),
        "C09" => sp::o_P_C09(o),
        "C09f" => sp::o_P_C09f(o),
        // on long texts only the comparison with the specification, which is linear
        "C10" if big => sp::o_X_C10(o),
        "C11" if big => sp::o_X_C11(o),
        "C12" if big => sp::o_X_C12(o),
        "C13" if big => sp::o_X_C13(o),
        "C14" if big => sp::o_X_C14(o),
        "C15" if big => sp::o_X_C15(o),
        "C16" if big => sp::o_X_C16(o),
        "C17" if big => sp::o_X_C17(o),
        "C10" => sp::o_P_C10(o),
        "C11" => sp::o_P_C11(o),
        "C12" => sp::o_P_C12(o),
        "C13" => sp::o_P_C13(o),
        "C14" => sp::o_P_C14(o),
        "C15" => sp::o_P_C15(o),
        "C16" => sp::o_P_C16(o),
        "C17" => sp::o_P_C17(o),
        "C18" => sp::o_P_C18(o),
        "C19" => sp::o_P_C19(o),
        "C20" => sp::o_P_C20(o),
        "C21" => sp::o_P_C21(o),
        "C22" => sp::o_P_C22(o),
        "C23" => sp::o_P_C23(o),
        "C24" => sp::o_P_C24(o),
        "C25" => sp::o_P_C25(o),
        "C26" => sp::o_P_C26(o),
        "C27" => sp::o_P_C27(o),
        "C28" => sp::o_P_C28(o),
        "C29" => sp::o_P_C29(o),
        "C30" => sp::o_P_C30(o),
        "C31" => sp::o_P_C31(o),
        "C32" => sp::o_P_C32(o),
        "C33" => sp::o_P_C33(o),
        _ => panic!("no predicate {pred}"),
    }
}

pub enum Verdict {
    Holds,
    /// why, and the observation if there is one
    Broken(String, Option<V>),
}
pub fn check(p: &str, c: &Case, threads: bool) -> (Verdict, Option<V>) {
    match observe(p, c, threads) {
        Err(Crash(stage, m)) => (Verdict::Broken(format!("panic while computing {stage}: {m}"), None), None),
        Ok(s) => {
            let pred = predicate(p, c);
            let big = c.size() > 300;
            match catch_unwind(AssertUnwindSafe(|| judge(&pred, &s.v, big))) {
                Ok(true) => (Verdict::Holds, Some(s.v)),
                Ok(false) => (Verdict::Broken(if s.note.is_empty() { "the specification rejects the observation".into() } else { format!("results differ: {}", s.note) }, Some(s.v)), None),
                Err(_) => (Verdict::Broken("the observation is not of the form the property is about".into(), Some(s.v)), None),
            }
        }
    }
}

/// does the case exercise what the property is about?
pub fn nontrivial(p: &str, c: &Case, o: &V) -> bool {
    let ev_has = |k: &[&str]| o.get("ev").items().iter().any(|e| k.iter().any(|n| e.get("n") == &V::s(n)));
    match (p, c) {
        ("C10", _) => ev_has(&["Bold", "Italic", "Strikethrough", "CodeSpan", "Emphasis"]),
        ("C11", _) => ev_has(&["Anchor", "Image", "Images"]),
        ("C12", _) => ev_has(&["Heading", "ThematicBreak", "Embed"]),
        ("C13", _) => ev_has(&["Code"]),
        ("C14", _) => ev_has(&["ListItem"]),
        ("C15", _) => ev_has(&["Highlight"]),
        ("C16", _) => ev_has(&["Collapsible"]),
        ("C17", _) => ev_has(&["Metadata"]),
        ("C09", Case::Text(s)) => s.contains('\\'),
        ("C05", _) => o.get("ev").len() > 1,
        ("C19", _) => sp::o_GoodDoc(o.get("doc")),
        ("C27", _) => o.get("tk").len() > 1,
        ("C29", _) => sp::o_C29Premise(o),
        ("C30", _) => o.get("rsrc") != o.get("src"),
        ("C33", _) => sp::o_C33Premise(o) && o.get("rsrc") != o.get("src"),
        ("C25", _) => o.get("ps").len() > 1,
        ("C22" | "C28", _) => sp::o_C22Premise(o),
        ("C23", _) => sp::o_C23Premise(o.get("src")) && sp::o_HasChar(o.get("src"), &V::I(10)),
        _ => c.size() > 1,
    }
}
