//! Observations of the real library as values of the specification.
use oracle::value::{sym, V};
use yamd::lexer::Token;
use yamd::nodes::*;
use yamd::op::{Content, Node, Op, OpKind};

/// character index (0-based) of every byte offset on a character boundary
pub struct Src<'a> {
    pub s: &'a str,
    idx: Vec<i64>,
}
impl<'a> Src<'a> {
    pub fn new(s: &'a str) -> Self {
        let mut idx = vec![-1; s.len() + 1];
        let mut n = 0;
        for (b, _) in s.char_indices() {
            idx[b] = n;
            n += 1;
        }
        idx[s.len()] = n;
        Src { s, idx }
    }
    /// 1-based character position of a byte offset, or -1
    pub fn pos(&self, b: usize) -> i64 {
        match self.idx.get(b) {
            Some(i) if *i >= 0 => *i + 1,
            _ => -1,
        }
    }
}

fn int(n: usize) -> V {
    V::I(n as i64)
}

pub fn token(src: &Src, t: &Token) -> V {
    V::record(&[
        ("k", V::s(&format!("{:?}", t.kind))),
        ("s", int(t.range.start)),
        ("e", int(t.range.end)),
        ("a", V::I(src.pos(t.range.start))),
        ("z", V::I(src.pos(t.range.end))),
        ("b", int(t.position.byte_index)),
        ("c", int(t.position.column)),
        ("r", int(t.position.row)),
        ("x", V::B(t.escaped)),
    ])
}

pub fn content(src: &Src, c: &Content) -> V {
    let (m, s, e, w) = match c {
        Content::Span(r) => {
            let w = if r.is_empty() {
                V::seq(vec![])
            } else {
                match src.s.get(r.clone()) {
                    Some(t) => V::text(t),
                    None => V::seq(vec![V::I(-1)]),
                }
            };
            (false, r.start, r.end, w)
        }
        Content::Materialized(t) => (true, 0, 0, V::text(t)),
    };
    V::record(&[("m", V::B(m)), ("s", int(s)), ("e", int(e)), ("w", w)])
}
pub fn node_name(n: &Node) -> String {
    format!("{:?}", n)
}
pub fn op(src: &Src, o: &Op) -> V {
    let (k, n) = match &o.kind {
        OpKind::Start(n) => ("S", node_name(n)),
        OpKind::End(n) => ("E", node_name(n)),
        OpKind::Value => ("V", String::new()),
    };
    V::record(&[("o", V::s(k)), ("n", V::s(&n)), ("x", content(src, &o.content))])
}
pub fn ops(src: &Src, o: &[Op]) -> V {
    V::seq(o.iter().map(|x| op(src, x)).collect())
}

fn leaf(t: &str, s: &str) -> V {
    V::record(&[("t", V::s(t)), ("s", V::text(s))])
}
fn anchor(a: &Anchor) -> V {
    V::record(&[("t", V::s("Anchor")), ("text", V::text(&a.text)), ("url", V::text(&a.url))])
}
fn inline(n: &ParagraphNodes) -> V {
    match n {
        ParagraphNodes::Text(s) => leaf("Text", s),
        ParagraphNodes::Anchor(a) => anchor(a),
        ParagraphNodes::Bold(b) => V::record(&[
            ("t", V::s("Bold")),
            (
                "body",
                V::seq(
                    b.body
                        .iter()
                        .map(|x| match x {
                            BoldNodes::Text(s) => leaf("Text", s),
                            BoldNodes::Italic(i) => leaf("Italic", &i.0),
                            BoldNodes::Strikethrough(i) => leaf("Strikethrough", &i.0),
                        })
                        .collect(),
                ),
            ),
        ]),
        ParagraphNodes::Italic(i) => leaf("Italic", &i.0),
        ParagraphNodes::Strikethrough(i) => leaf("Strikethrough", &i.0),
        ParagraphNodes::CodeSpan(i) => leaf("CodeSpan", &i.0),
        ParagraphNodes::Emphasis(i) => leaf("Emphasis", &i.0),
    }
}
fn inlines(b: &[ParagraphNodes]) -> V {
    V::seq(b.iter().map(inline).collect())
}
fn image(i: &Image) -> V {
    V::record(&[("t", V::s("Image")), ("alt", V::text(&i.alt)), ("src", V::text(&i.src))])
}
fn paragraph(p: &Paragraph) -> V {
    V::record(&[("t", V::s("Paragraph")), ("body", inlines(&p.body))])
}
fn list(l: &List) -> V {
    V::record(&[
        ("t", V::s("List")),
        (
            "kind",
            V::s(match l.list_type {
                ListTypes::Unordered => "UnorderedList",
                ListTypes::Ordered => "OrderedList",
            }),
        ),
        ("level", int(l.level)),
        (
            "body",
            V::seq(
                l.body
                    .iter()
                    .map(|i| {
                        V::record(&[("text", inlines(&i.text)), ("nested", V::opt(i.nested_list.as_ref().map(list)))])
                    })
                    .collect(),
            ),
        ),
    ])
}
fn block(n: &YamdNodes) -> V {
    let opt = |s: &Option<String>| V::opt(s.as_ref().map(|x| V::text(x)));
    match n {
        YamdNodes::Paragraph(p) => paragraph(p),
        YamdNodes::Heading(h) => V::record(&[
            ("t", V::s("Heading")),
            ("level", int(h.level as usize)),
            (
                "body",
                V::seq(
                    h.body
                        .iter()
                        .map(|x| match x {
                            HeadingNodes::Text(s) => leaf("Text", s),
                            HeadingNodes::Anchor(a) => anchor(a),
                        })
                        .collect(),
                ),
            ),
        ]),
        YamdNodes::Image(i) => image(i),
        YamdNodes::Images(i) => {
            V::record(&[("t", V::s("Images")), ("body", V::seq(i.body.iter().map(image).collect()))])
        }
        YamdNodes::Code(c) => {
            V::record(&[("t", V::s("Code")), ("lang", V::text(&c.lang)), ("code", V::text(&c.code))])
        }
        YamdNodes::List(l) => list(l),
        YamdNodes::Highlight(h) => V::record(&[
            ("t", V::s("Highlight")),
            ("title", opt(&h.title)),
            ("icon", opt(&h.icon)),
            ("body", V::seq(h.body.iter().map(paragraph).collect())),
        ]),
        YamdNodes::ThematicBreak(_) => V::record(&[("t", V::s("ThematicBreak"))]),
        YamdNodes::Embed(e) => {
            V::record(&[("t", V::s("Embed")), ("kind", V::text(&e.kind)), ("args", V::text(&e.args))])
        }
        YamdNodes::Collapsible(c) => V::record(&[
            ("t", V::s("Collapsible")),
            ("title", V::text(&c.title)),
            ("body", V::seq(c.body.iter().map(block).collect())),
        ]),
    }
}
pub fn doc(d: &Yamd) -> V {
    V::record(&[
        ("meta", V::opt(d.metadata.as_ref().map(|x| V::text(x)))),
        ("body", V::seq(d.body.iter().map(block).collect())),
    ])
}
pub fn no_doc() -> V {
    V::record(&[("meta", V::seq(vec![])), ("body", V::seq(vec![]))])
}
#[allow(dead_code)]
pub fn field(v: &V, k: &str) -> V {
    v.f(sym(k)).clone()
}
