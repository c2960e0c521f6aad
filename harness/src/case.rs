//! One case of a check: what is given to the library.  Cases are kept as JSON.
use oracle::value::V;
use serde_json::{json, Value};
use yamd::nodes::*;
use yamd::op::{Content, Node, Op};

#[derive(Clone, Debug, PartialEq)]
pub struct OpSpec {
    pub o: char,
    pub n: String,
    pub m: bool,
    pub s: usize,
    pub e: usize,
    pub w: String,
}
#[derive(Clone, Debug)]
pub enum Case {
    Text(String),
    Plain(String),
    Pair(String, String),
    Ops(String, Vec<OpSpec>),
    Doc(V),
    /// a text and places in the list of its tokens (taken modulo their number)
    Picks(String, Vec<usize>),
}

impl Case {
    pub fn json(&self) -> Value {
        match self {
            Case::Text(s) => json!({"kind": "text", "text": s}),
            Case::Plain(s) => json!({"kind": "plain", "text": s}),
            Case::Pair(a, b) => json!({"kind": "pair", "a": a, "b": b}),
            Case::Ops(s, v) => json!({"kind": "ops", "text": s, "ops": v.iter().map(|o| json!([o.o.to_string(), o.n, o.m, o.s, o.e, o.w])).collect::<Vec<_>>()}),
            Case::Picks(s, p) => json!({"kind": "picks", "text": s, "picks": p}),
            Case::Doc(v) => json!({"kind": "doc", "doc": parsed(&v.json())}),
        }
    }
    pub fn from_json(v: &Value) -> Case {
        let s = |k: &str| v[k].as_str().unwrap().to_string();
        match v["kind"].as_str().unwrap() {
            "text" => Case::Text(s("text")),
            "plain" => Case::Plain(s("text")),
            "pair" => Case::Pair(s("a"), s("b")),
            "ops" => Case::Ops(
                s("text"),
                v["ops"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|o| OpSpec {
                        o: o[0].as_str().unwrap().chars().next().unwrap(),
                        n: o[1].as_str().unwrap().into(),
                        m: o[2].as_bool().unwrap(),
                        s: o[3].as_u64().unwrap() as usize,
                        e: o[4].as_u64().unwrap() as usize,
                        w: o[5].as_str().unwrap().into(),
                    })
                    .collect(),
            ),
            "picks" => Case::Picks(s("text"), v["picks"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()),
            _ => Case::Doc(from_json(&v["doc"])),
        }
    }
    pub fn key(&self) -> String {
        match self {
            Case::Text(s) => s.clone(),
            Case::Plain(s) => s.clone(),
            Case::Pair(a, b) => format!("{a}\u{0}{b}"),
            Case::Doc(v) => v.json(),
            c => c.json().to_string(),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Case::Text(s) | Case::Plain(s) => s.chars().count(),
            Case::Pair(a, b) => a.chars().count() + b.chars().count(),
            Case::Ops(_, v) => v.len(),
            Case::Picks(s, p) => s.chars().count() + p.len(),
            Case::Doc(v) => v.json().len() / 8,
        }
    }
}

/// to any depth
pub fn parsed(s: &str) -> Value {
    use serde::Deserialize;
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    Value::deserialize(&mut d).unwrap()
}
/// the JSON form of a value of the specification, as TLC and V::json write it
pub fn from_json(v: &Value) -> V {
    match v {
        Value::Bool(b) => V::B(*b),
        Value::Number(n) => V::I(n.as_i64().unwrap()),
        Value::String(s) => V::s(s),
        Value::Array(a) => V::seq(a.iter().map(from_json).collect()),
        Value::Object(o) => V::record(&o.iter().map(|(k, x)| (k.as_str(), from_json(x))).collect::<Vec<_>>()),
        Value::Null => V::seq(vec![]),
    }
}

pub fn node(n: &str) -> Node {
    macro_rules! m { ($($x:ident),*) => { match n { $(stringify!($x) => Node::$x,)* _ => panic!("no node {n}") } } }
    m!(
        Document, Metadata, Paragraph, Heading, Bold, Italic, Strikethrough, CodeSpan, Emphasis, Anchor, Title, Destination, Image, Images, Code, Modifier, UnorderedList, OrderedList, ListItem, Highlight,
        Icon, ThematicBreak, Embed, Collapsible
    )
}
pub fn build_ops(v: &[OpSpec]) -> Vec<Op> {
    v.iter()
        .map(|o| {
            let c = if o.m { Content::Materialized(o.w.clone()) } else { Content::Span(o.s..o.e) };
            match o.o {
                'S' => Op::new_start(node(&o.n), c),
                'E' => Op::new_end(node(&o.n), c),
                _ => Op::new_value(c),
            }
        })
        .collect()
}

// ---- a tree of the specification as a tree of the library ----
fn t(v: &V, k: &str) -> String {
    v.get(k).to_text()
}
fn opt(v: &V) -> Option<String> {
    v.items().first().map(|x| x.to_text())
}
fn name(v: &V) -> String {
    match v.get("t") {
        V::S(i) => oracle::value::sym_name(*i),
        _ => panic!(),
    }
}
fn inline(v: &V) -> ParagraphNodes {
    match name(v).as_str() {
        "Text" => ParagraphNodes::from(t(v, "s")),
        "Anchor" => Anchor::new(t(v, "text"), t(v, "url")).into(),
        "Italic" => Italic::new(t(v, "s")).into(),
        "Strikethrough" => Strikethrough::new(t(v, "s")).into(),
        "CodeSpan" => CodeSpan::new(t(v, "s")).into(),
        "Emphasis" => Emphasis::new(t(v, "s")).into(),
        _ => Bold::new(
            v.get("body")
                .items()
                .iter()
                .map(|x| match name(x).as_str() {
                    "Italic" => Italic::new(t(x, "s")).into(),
                    "Strikethrough" => Strikethrough::new(t(x, "s")).into(),
                    _ => BoldNodes::from(t(x, "s")),
                })
                .collect(),
        )
        .into(),
    }
}
fn inlines(v: &V) -> Vec<ParagraphNodes> {
    v.items().iter().map(inline).collect()
}
fn image(v: &V) -> Image {
    Image::new(t(v, "alt"), t(v, "src"))
}
fn list(v: &V) -> List {
    let k = if v.get("kind") == &V::s("OrderedList") { ListTypes::Ordered } else { ListTypes::Unordered };
    List::new(
        k,
        v.get("level").i() as usize,
        v.get("body").items().iter().map(|i| ListItem::new(inlines(i.get("text")), i.get("nested").items().first().map(list))).collect(),
    )
}
/// with the constructors, or field by field
fn block(v: &V, new: bool) -> YamdNodes {
    match name(v).as_str() {
        "Paragraph" => Paragraph::new(inlines(v.get("body"))).into(),
        "Heading" => Heading::new(
            v.get("level").i() as u8,
            v.get("body")
                .items()
                .iter()
                .map(|x| match name(x).as_str() {
                    "Anchor" => Anchor::new(t(x, "text"), t(x, "url")).into(),
                    _ => HeadingNodes::from(t(x, "s")),
                })
                .collect(),
        )
        .into(),
        "Image" => image(v).into(),
        "Images" => Images::new(v.get("body").items().iter().map(image).collect()).into(),
        "Code" if new => Code::new(t(v, "lang"), t(v, "code")).into(),
        "Code" => Code { lang: t(v, "lang"), code: t(v, "code") }.into(),
        "List" => list(v).into(),
        "Highlight" => Highlight::new(
            opt(v.get("title")),
            opt(v.get("icon")),
            v.get("body").items().iter().map(|p| Paragraph::new(inlines(p.get("body")))).collect(),
        )
        .into(),
        "ThematicBreak" => ThematicBreak::new().into(),
        "Embed" => Embed::new(t(v, "kind"), t(v, "args")).into(),
        _ => Collapsible::new(t(v, "title"), v.get("body").items().iter().map(|x| block(x, new)).collect()).into(),
    }
}
pub fn build_doc(v: &V) -> Yamd {
    Yamd { metadata: opt(v.get("meta")), body: v.get("body").items().iter().map(|x| block(x, false)).collect() }
}
pub fn construct_doc(v: &V) -> Yamd {
    Yamd::new(opt(v.get("meta")), v.get("body").items().iter().map(|x| block(x, true)).collect())
}
