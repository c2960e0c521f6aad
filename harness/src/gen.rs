//! Generators.  Every family is a function from an index to a case, so a run is a
//! list of (family, index) pairs that can be repeated one by one.
use crate::case::{Case, OpSpec};
use oracle::value::V;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xBF58476D1CE4E5B9) ^ c.wrapping_mul(0x94D049BB133111EB));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
}

/// every mark and every pair of marks with a meaning, plus ordinary characters
pub const POOL: &[&str] = &[
    "a", " ", "  ", "\n", "\r\n", "\n\n", "\\", "\\\n", "- ", "+ ", "\n- ", "\n - ", " + ", "# ", "#", "###### ", "!!", "!! ", "!!\n",
    "\n!!", "! ", "!", "![", "[", "]", "(", ")", "](", "_", "*", "**", "***", "~", "~~", "`", "``", "```", "```\n", "\n```", "-----",
    "---", "---\n", "{{", "}}", "|", "{%", "{% ", "\n%}", "%}", "%", "{", "}", ">", "é", "\u{1F600}", "\r", "\t",
];

pub const UNI: &[&str] = &[
    "é", "ß", "文", "字", "\u{1F600}", "\u{10FFFF}", "\u{0}", "\u{1}", "\t", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}",
    "\u{200b}", "\u{200d}", "\u{feff}", "\u{301}", "\u{ff01}", "\u{ff0a}", "\u{ff3f}", "\u{ff5b}", "\u{2013}", "\u{2014}", "\u{2212}",
    "\u{ff03}", "\u{2003}", "\u{3000}", "\u{7f}", "\u{fffd}", "\u{d7ff}", "\u{e000}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "İ",
    "\u{1F468}\u{200d}\u{1F469}", "\u{5d0}", "\u{202e}",
];

pub const SIZES: &[usize] = &[
    2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 25, 26, 31, 32, 33, 40, 48, 50, 63, 64, 65, 80, 99, 100, 101, 120, 127,
    128, 129, 130, 160, 200, 240, 250, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025,
];

/// what a property is about; its constructs are generated more often
#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Any,
    Inline,
    Link,
    Line,
    Code,
    List,
    Callout,
    Coll,
    Meta,
    Esc,
}
pub fn focus(p: &str) -> Focus {
    match p {
        "C09" => Focus::Esc,
        "C10" => Focus::Inline,
        "C11" => Focus::Link,
        "C12" => Focus::Line,
        "C13" => Focus::Code,
        "C14" => Focus::List,
        "C15" => Focus::Callout,
        "C16" => Focus::Coll,
        "C17" => Focus::Meta,
        _ => Focus::Any,
    }
}

pub struct G {
    pub r: Rng,
    pub f: Focus,
}

impl G {
    fn sp(&mut self) -> String {
        match self.r.below(12) {
            0 => "".into(),
            1 => "  ".into(),
            _ => " ".into(),
        }
    }
    pub fn word(&mut self) -> String {
        match self.r.below(16) {
            0 => self.r.pick(UNI).into(),
            1 => format!("{}{}", self.r.pick(UNI), self.r.pick(UNI)),
            2 => self.r.pick(POOL).into(),
            3 => format!("a{}b", self.r.pick(POOL)),
            4 => "\\".to_string() + self.r.pick(POOL),
            5 => "b c".into(),
            6 => "long words of plain text".into(),
            7 => "".into(),
            8 => "\n".into(),
            9 => format!("x{}\ny", self.sp()),
            10 => "12".into(),
            11 => self.r.pick(&[" a", "a ", " ", "$x.y$", "a-b", "c+d", "e#f", "g!h", "{a}", "(p)", "[q]", "<b>", "a|b", "50%", "~t", "`s", "*u", "_v", "w_", ":", "'", "\""]).into(),
            _ => self.r.pick(&["a", "b", "foo", "bar", "q"]).into(),
        }
    }
    fn words(&mut self) -> String {
        let n = 1 + self.r.below(3);
        (0..n).map(|_| self.word()).collect::<Vec<_>>().join(self.r.pick(&["", " ", " ", "\n"]))
    }
    fn simple(&mut self) -> String {
        if self.r.one_in(4) { self.words() } else { self.r.pick(&["a", "foo", "b c", "x y z", "é"]).into() }
    }
    fn target(&mut self, d: usize) -> String {
        let mut s = String::new();
        for _ in 0..1 + self.r.below(3) {
            match self.r.below(6) {
                0 if d > 0 => s += &format!("({})", self.target(d - 1)),
                1 => s += &self.word(),
                2 if self.r.one_in(3) => s += self.r.pick(&["(", ")", "((", "))", "\\)", "\\("]),
                _ => s += self.r.pick(&["u", "http://x.y/z", "/p", "a b"]),
            }
        }
        s
    }
    fn link(&mut self) -> String {
        let l = self.simple();
        let t = self.target(3);
        match self.r.below(14) {
            0 => format!("[{l}]"),
            1 => format!("[{l}] ({t})"),
            2 => format!("[{l}]({t}"),
            3 => format!("[[{l}]({t})"),
            4 => format!("[{l}]]({t})"),
            5 => format!("[{l}]()"),
            6 => format!("[]({t})"),
            _ => format!("[{l}]({t})"),
        }
    }
    fn image(&mut self) -> String {
        format!("!{}", self.link())
    }
    pub fn piece(&mut self, d: usize) -> String {
        let k = if self.f == Focus::Link && self.r.one_in(2) { 8 } else { self.r.below(14) };
        match k {
            0 => format!("_{}_", self.simple()),
            1 => format!("~~{}~~", self.simple()),
            2 if d > 0 => {
                let mut s = String::from("**");
                for _ in 0..1 + self.r.below(3) {
                    s += &match self.r.below(4) {
                        0 => format!("_{}_", self.simple()),
                        1 => format!("~~{}~~", self.simple()),
                        2 => self.simple(),
                        _ => self.piece(d - 1),
                    };
                }
                s + "**"
            }
            3 => format!("*{}*", self.simple()),
            4 => format!("`{}`", self.simple()),
            5 => self.r.pick(&["_", "*", "**", "~~", "`", "***", "~", "``", "~~~", "****"]).into(),
            6 => format!("\\{}", self.r.pick(POOL)),
            7 | 8 => self.link(),
            9 => self.image(),
            10 if d > 0 => {
                let m = self.r.pick(&["_", "*", "**", "~~", "`"]);
                format!("{m}{}{m}", self.piece(d - 1))
            }
            _ => self.word(),
        }
    }
    pub fn inlines(&mut self) -> String {
        let n = 1 + self.r.below(if self.f == Focus::Inline { 7 } else { 4 });
        let mut s = String::new();
        for _ in 0..n {
            s += &self.piece(2);
            s += self.r.pick(&["", "", " ", "\n"]);
        }
        if self.r.one_in(6) { s } else { s.replace("\n\n", "\n").trim_matches('\n').to_string() }
    }
    fn title(&mut self) -> String {
        if self.r.one_in(4) { self.words() } else { self.r.pick(&["t", "A title", "é", "x *y* z", "a\\b", "t ", " t", "[l](u)"]).into() }
    }
    fn list(&mut self) -> String {
        let n = 1 + self.r.below(6);
        let mut s = String::new();
        let mut lv: usize = 0;
        let mut kinds = [self.r.one_in(2); 48];
        for i in 0..n {
            if i > 0 {
                s += self.r.pick(&["\n", "\n", "\n", "\n", "\r\n"]);
                lv = match self.r.below(8) {
                    0 | 1 | 2 => lv + 1,
                    3 => lv.saturating_sub(1),
                    4 => self.r.below(lv + 2),
                    5 if self.r.one_in(3) => lv + 2,
                    _ => lv,
                };
                if self.r.one_in(5) {
                    kinds[lv.min(47)] ^= true;
                }
            }
            s += &" ".repeat(lv);
            s += if kinds[lv.min(47)] { "-" } else { "+" };
            s += if self.r.one_in(20) { self.r.pick(&["", "  "]) } else { " " };
            s += &self.item_text();
        }
        s
    }
    fn item_text(&mut self) -> String {
        if self.r.one_in(3) { self.inlines() } else { self.r.pick(&["a", "b", "foo bar", "x\ny", "", "_i_", "`c`", "a - b", "a\n-b", "*a\n- b*"]).into() }
    }
    fn code(&mut self) -> String {
        let lang = match self.r.below(6) {
            0 => "".to_string(),
            1 => self.title(),
            _ => "rust".to_string(),
        };
        let mut b = String::new();
        for _ in 0..self.r.below(5) {
            b += &match self.r.below(10) {
                0 => "\n".to_string(),
                1 => "%}".to_string(),
                2 => "```x".to_string(),
                3 => " ```".to_string(),
                4 => "\\```".to_string(),
                5 => self.words(),
                6 => "!!".to_string(),
                7 => "````".to_string(),
                8 => self.block(0),
                _ => "let x = 1;".to_string(),
            };
            b += self.r.pick(&["\n", "\n", "\n", ""]);
        }
        let z = if self.r.one_in(8) { self.r.pick(&["", "``", "```x", " ```", "``` "]) } else { "```" };
        if !b.is_empty() && !b.ends_with('\n') && !self.r.one_in(10) {
            b += "\n";
        }
        format!("```{lang}\n{b}{z}")
    }
    fn embed(&mut self) -> String {
        let a = self.simple();
        let b = if self.r.one_in(3) { self.words() } else { "abc".into() };
        match self.r.below(10) {
            0 => format!("{{{{{a}}}}}"),
            1 => format!("{{{{{a}|{b}"),
            2 => format!("{{{{{a}|{b}}}"),
            3 => format!("{{{{{a}|{b}}}}}x"),
            4 => format!("{{{{{a}|{b}|c}}}}"),
            _ => format!("{{{{{a}|{b}}}}}"),
        }
    }
    fn callout(&mut self) -> String {
        let mut s = String::from("!!");
        match self.r.below(5) {
            0 => s += "\n",
            1 => s += " \n",
            2 => s += "  t\n",
            _ => s += &format!(" {}\n", self.title()),
        }
        match self.r.below(6) {
            0 | 1 => s += &format!("! {}\n", self.title()),
            2 => s += self.r.pick(&["! \n", "!\n", "!x\n", "!  i\n", " ! i\n", "! i\n! j\n"]),
            _ => {}
        }
        for i in 0..self.r.below(4) {
            if i > 0 {
                s += self.r.pick(&["\n\n", "\n\n", "\n\n", "\n", "\n\n\n", "\r\n\r\n"]);
            }
            s += &match self.r.below(8) {
                0 => "".to_string(),
                1 => self.block(0),
                2 => "a !! b".to_string(),
                _ => self.inlines(),
            };
        }
        if self.r.one_in(8) { s + self.r.pick(&["", "\n!", "\n!!!", "!!", "\n !!", "\n!!x", "\n!! x"]) } else { s + self.r.pick(&["\n!!", "\n!!", "\n\n!!"]) }
    }
    fn collapsible(&mut self, d: usize) -> String {
        let mut s = String::from("{%");
        match self.r.below(8) {
            0 => s += "\n",
            1 => s += " \n",
            2 => s += "t\n",
            _ => s += &format!(" {}\n", self.title()),
        }
        for i in 0..self.r.below(4) {
            if i > 0 {
                s += self.joiner();
            }
            s += &self.block(d);
        }
        if self.r.one_in(8) { s + self.r.pick(&["", "%}", "\n %}", "\n%}x", "\n%"]) } else { s + self.r.pick(&["\n%}", "\n%}", "\n%}", "\n\n%}"]) }
    }
    fn joiner(&mut self) -> &'static str {
        self.r.pick(&["\n\n", "\n\n", "\n\n", "\n\n", "\n", "\n\n\n", "", "\r\n\r\n", "\n\n\n\n", "\n\r\n"])
    }
    fn heading(&mut self) -> String {
        let n = if self.r.one_in(8) { self.r.below(9) } else { 1 + self.r.below(6) };
        let m = "#".repeat(n);
        let sp = if self.r.one_in(8) { self.sp() } else { " ".into() };
        let b = match self.r.below(4) {
            0 => self.inlines(),
            1 => format!("a {} b", self.link()),
            2 => self.link(),
            _ => "h".into(),
        };
        format!("{m}{sp}{b}")
    }
    pub fn block(&mut self, d: usize) -> String {
        let k = if self.r.one_in(2) {
            match self.f {
                Focus::Line => [1, 4, 5][self.r.below(3)],
                Focus::Code => 3,
                Focus::List => 2,
                Focus::Callout => 7,
                Focus::Coll => 8,
                Focus::Link => 6,
                Focus::Inline => 0,
                _ => self.r.below(12),
            }
        } else {
            self.r.below(12)
        };
        match k {
            1 => self.heading(),
            2 => self.list(),
            3 => self.code(),
            4 => if self.r.one_in(4) { "-".repeat(self.r.below(8)) } else { "-----".into() },
            5 => self.embed(),
            6 => {
                let n = 1 + self.r.below(4);
                let mut s = String::new();
                for i in 0..n {
                    if i > 0 {
                        s += if self.r.one_in(10) { self.r.pick(&["", " ", " \n", "\n\n", "\r\n"]) } else { "\n" };
                    }
                    s += &if self.r.one_in(12) { self.inlines() } else { self.image() };
                }
                s
            }
            7 => self.callout(),
            8 if d > 0 => self.collapsible(d - 1),
            9 => self.word(),
            _ => self.inlines(),
        }
    }
    pub fn meta(&mut self) -> String {
        let mut b = String::new();
        for _ in 0..self.r.below(4) {
            b += &match self.r.below(9) {
                0 => "\n".to_string(),
                1 => "----".to_string(),
                2 => " ---".to_string(),
                3 => "\\---".to_string(),
                4 => self.words(),
                5 => "a---".to_string(),
                6 => "---a".to_string(),
                _ => "k: v".to_string(),
            };
            b += self.r.pick(&["\n", "\n", "\n", "", "\r\n"]);
        }
        let z = if self.r.one_in(8) { self.r.pick(&["", "----", "--", " ---"]) } else { "---" };
        format!("---{}{b}{z}", self.r.pick(&["\n", "\n", "\n", "", " ", "\n\n", "x"]))
    }
    pub fn doc(&mut self) -> String {
        let mut s = String::new();
        if self.r.one_in(if self.f == Focus::Meta { 2 } else { 8 }) {
            s += &self.meta();
            s += self.joiner();
        }
        let n = 1 + self.r.below(4);
        for i in 0..n {
            if i > 0 {
                s += self.joiner();
            }
            s += &self.block(2);
        }
        if self.r.one_in(8) {
            s += self.r.pick(&["\n", "\n\n", " ", "\\", "\r", "\r\n"]);
        }
        s
    }
    pub fn soup(&mut self, max: usize) -> String {
        let n = 1 + self.r.below(max);
        let k = 1 + self.r.below(POOL.len());
        // a sub-alphabet makes repetitions and matches likely
        let sub: Vec<&str> = (0..k.min(8)).map(|_| self.r.pick(POOL)).collect();
        (0..n).map(|_| if self.r.one_in(6) { self.r.pick(POOL) } else { sub[self.r.below(sub.len())] }).collect()
    }
    pub fn mutate(&mut self, s: &str) -> String {
        let mut c: Vec<char> = s.chars().collect();
        for _ in 0..1 + self.r.below(3) {
            let i = self.r.below(c.len() + 1);
            match self.r.below(11) {
                0 if i < c.len() => {
                    c.remove(i);
                }
                1 if i < c.len() => {
                    let x = c[i];
                    c.insert(i, x);
                }
                2 => c.insert(i, '\\'),
                3 => {
                    for (k, x) in self.r.pick(POOL).chars().enumerate() {
                        c.insert(i + k, x);
                    }
                }
                4 => {
                    for (k, x) in self.r.pick(UNI).chars().enumerate() {
                        c.insert(i + k, x);
                    }
                }
                5 => c.truncate(i),
                6 => {
                    c.drain(..i);
                }
                7 if i + 1 < c.len() => c.swap(i, i + 1),
                8 => {
                    let j = i + self.r.below(8).min(c.len() - i);
                    let part: Vec<char> = c[i..j].to_vec();
                    let k = self.r.below(c.len() + 1);
                    for (n, x) in part.into_iter().enumerate() {
                        c.insert((k + n).min(c.len()), x);
                    }
                }
                9 => {
                    let t: String = c.iter().collect();
                    c = if self.r.one_in(2) { t.replace("\r\n", "\n").replace('\n', "\r\n") } else { t.replacen('\n', "\r\n", 1) }.chars().collect();
                }
                _ => c.insert(i, self.r.pick(&["\n", " ", "\r", "a"]).chars().next().unwrap()),
            }
        }
        c.into_iter().collect()
    }
}

// ---- families ---------------------------------------------------------------

/// texts of up to `max` chunks, shortest first, wrapped in contexts
pub struct Exhaustive {
    pub name: &'static str,
    pub chunks: Vec<&'static str>,
    pub max: usize,
    pub ctx: Vec<(&'static str, &'static str)>,
}
impl Exhaustive {
    fn words(&self) -> u64 {
        let b = self.chunks.len() as u64;
        (0..=self.max as u32).map(|n| b.pow(n)).sum()
    }
    pub fn count(&self) -> u64 {
        self.words() * self.ctx.len() as u64
    }
    pub fn get(&self, i: u64) -> String {
        let w = self.words();
        let (pre, post) = self.ctx[(i / w) as usize];
        let mut k = i % w;
        let b = self.chunks.len() as u64;
        let mut n = 0u32;
        while k >= b.pow(n) {
            k -= b.pow(n);
            n += 1;
        }
        let mut s = String::from(pre);
        for _ in 0..n {
            s.push_str(self.chunks[(k % b) as usize]);
            k /= b;
        }
        s + post
    }
}

pub const PLAIN_CTX: &[(&str, &str)] = &[("", "")];
pub const BLOCK_CTX: &[(&str, &str)] = &[("", ""), ("a\n\n", "\n\nb"), ("{% t\n", "\n%}"), ("{% t\n{% u\n", "\n%}\nz\n%}")];
pub const INLINE_CTX: &[(&str, &str)] =
    &[("", ""), ("- ", ""), ("!! t\n! i\n", "\n!!"), ("{% t\n", "\n%}"), ("{% t\n+ a\n - ", "\n%}"), ("a ", "\n\n*_`~~**"), ("# ", ""), ("", "\n")];

pub fn alphabets(p: &str, deep: bool) -> Vec<Exhaustive> {
    let d = deep as usize;
    let mk = |name, chunks: &[&'static str], max, ctx: &[(&'static str, &'static str)]| Exhaustive { name, chunks: chunks.to_vec(), max, ctx: ctx.to_vec() };
    let mut v = match p {
        "C06" | "C07" | "C08" => vec![
            mk("runs", &["a", " ", "\n", "\r", "\\", "*", "{", "%", "}", "é"], 5 + d, PLAIN_CTX),
            mk("breaks", &["\n", "\r", "\\", "x", "\u{1F600}", "-"], 6 + d, PLAIN_CTX),
            mk("marks", &["~", "!", "`", "+", "#", ">", "_", "|", "[", "]", "(", ")", "-", " ", "b"], 4 + d, PLAIN_CTX),
        ],
        "C09" => vec![
            mk("escapes", &["\\", "a", "\n", "*", "_", "- ", "# ", "!!", "```", "é", "[", "](", ")"], 4 + d, PLAIN_CTX),
            mk("escaped blocks", &["\\", "\n", "{%", "%}", " ", "t", "---", "{{", "|", "}}", "\r"], 5, PLAIN_CTX),
            mk("escapes in context", &["\\", "a", "\n", "`", "*", "!", "-", " "], 4, INLINE_CTX),
        ],
        "C10" => vec![
            mk("inline", &["a", "_", "*", "**", "~~", "`", "\n", "\n\n", "\\"], 5, PLAIN_CTX),
            mk("inline in context", &["a", "_", "*", "**", "~~", "`", "\n"], 4, INLINE_CTX),
            mk("runs of marks", &["_", "*", "~", "`", "a", " ", "[", "](b)"], 5, PLAIN_CTX),
        ],
        "C11" => vec![
            mk("links", &["a", "[", "]", "(", ")", "!", "\n", "\\"], 5 + d, PLAIN_CTX),
            mk("targets", &["(", ")", "a", "\n", "\n\n", "]", "*"], 5, &[("[x](", ""), ("![x](", ""), ("# [x](", ")"), ("- [x](", "")]),
            mk("image blocks", &["![a](b)", "\n", "\n\n", "a", " ", "![", "!"], 4 + d, BLOCK_CTX),
        ],
        "C12" => vec![
            mk("line starts", &["#", " ", "-----", "-", "a", "\n", "\n\n", "{{", "|", "}}"], 4 + d, BLOCK_CTX),
            mk("embeds", &["{{", "|", "}}", "a", "\n", "\n\n", "\\", "}", "\r\n"], 5, &[("", ""), ("{{", "}}"), ("{% t\n", "\n%}")]),
            mk("headings", &["#", "# ", " ", "a", "\n", "[x](y)", "\n\n"], 5, PLAIN_CTX),
        ],
        "C13" => vec![
            mk("fences", &["```", "\n", "a", "\n\n", "`", " ", "%}", "\\"], 5 + d, PLAIN_CTX),
            mk("fences in context", &["```", "\n", "a", "\n\n", "%}", "\n```\n", "!!"], 4, &[("```\n", "\n```"), ("{% t\n", "\n%}"), ("{% t\n```r\n", "\n```\n%}"), ("x\n\n```", "")]),
        ],
        "C14" => vec![
            mk("lists", &["- ", "+ ", " ", "a", "\n", "\n\n"], 6, PLAIN_CTX),
            mk("items", &["\n- a", "\n + b", "\n - c", "\n+ d", "\n  - e", "\n  + f", "\nx", "\n\n", "\n   - g", " ", "_"], 4 + d, &[("- a", ""), ("+ a\n + b", ""), ("{% t\n- a", "\n%}")]),
        ],
        "C15" => vec![
            mk("callouts", &["!!", "\n", " ", "a", "! ", "\n\n", "!!\n"], 6, PLAIN_CTX),
            mk("callouts in context", &["!!", "\n", "a", "! i\n", "\n\n", "%}", "- b"], 4, &[("!! t\n", "\n!!"), ("!!\n", "\n!!"), ("{% t\n!! u\n", "\n!!\n%}"), ("x\n\n!!\n! ", "\n!!\n\ny")]),
        ],
        "C16" => vec![
            mk("collapsibles", &["{%", "%}", " ", "t", "\n", "\n\n"], 6, PLAIN_CTX),
            mk("nests", &["{% t\n", "\n%}", "a", "\n\n", "\n", "- b", "```", "!!\n", "\n```"], 4 + d, &[("", ""), ("{% t\n", "\n%}"), ("- a\n\n{% t\n", "")]),
        ],
        "C17" => vec![
            mk("metadata", &["---", "\n", "-", "a", " ", "\\", "\r\n"], 6, PLAIN_CTX),
            mk("metadata bodies", &["---", "\n---", "\n", "k: v", "\n\n", "# a", "\\"], 4 + d, &[("---\n", "\n---"), ("---\n", "\n---\n\na"), ("a\n\n---\n", "\n---"), ("---", "")]),
        ],
        "C30" => vec![
            mk("ordinary characters", &["a", "\t", "\u{a0}", "\u{1F600}", " ", "\n", "# ", "- ", "!!", "```"], 4 + d, &[("", ""), ("\u{b}", "\u{c}")]),
            mk("ordinary characters in line", &["a", "\t", "1", "\u{2028}", "_", "*", "**", "`", "[", "](", ")"], 4 + d, PLAIN_CTX),
            mk("ordinary characters in blocks", &["a", ".", "\n", "\n\n", "---", "{% t\n", "\n%}", "{{", "|", "}}", "! ", "+ "], 4, &[("", ""), ("---\n", "\n---"), ("!! ", "\n!!")]),
        ],
        "C32" => vec![
            mk("letters in line", &["a", "b", "_", "*", "**", "~~", "`", "[", "](", ")", "\\"], 4 + d, &[("", ""), ("- ", "")]),
            mk("letters in blocks", &["a", "b", "\n", "\n\n", "---", "{% t\n", "\n%}", "{{", "|", "}}", "! ", "+ ", "```"], 4, &[("", ""), ("---\nk", "\n---"), ("!! t", "\n!!")]),
            mk("letters and spaces", &["a", " ", "\n", "# ", "- ", "!!", "```", "é", "\\"], 4 + d, PLAIN_CTX),
        ],
        "C33" => vec![
            mk("both markers", &["-", "+", " ", "a", "\n", "\n\n"], 6, PLAIN_CTX),
            mk("items of both", &["\n- a", "\n + b", "\n - c", "\n+ d", "\n  - e", "\n  + f", "\nx", "\n\n", "\n   + g", " ", "\\"], 4 + d, &[("- a", ""), ("+ a\n - b", ""), ("{% t\n+ a", "\n%}")]),
            mk("markers in text", &["-", "--", "+", "++", "a", " ", "\n", "# ", "[", "](b)", "!!\n", "*"], 4, INLINE_CTX),
            mk("markers in blocks", &["- ", "+ ", "\n", "\n\n", "{% -\n", "\n%}", "```", "{{", "|", "}}", "a"], 4, PLAIN_CTX),
        ],
        "C29" => vec![
            mk("marks in a line", &["a", "_", "*", "**", "~~", "`", "[", "](b)", "\\", " "], 4 + d, &[("", ""), ("a", "a")]),
            mk("starts of lines", &["#", " ", "-", "+", "!", "`", "{", "|", "}", "%", "a", "("], 4 + d, PLAIN_CTX),
            mk("links in a line", &["[", "]", "(", ")", "a", "!", "\\"], 5 + d, PLAIN_CTX),
        ],
        _ => vec![
            mk("inline", &["a", "_", "*", "**", "~~", "`", "\n", "[", "](", ")", "\\"], 4, &[("", ""), ("- ", ""), ("!!\n", "\n!!"), ("{% t\n", "\n%}")]),
            mk("blocks", &["# ", "- ", " + ", "!!", "\n", "\n\n", "{% t\n", "%}", "```", "a", "\\", "---", "! ", "![b](c)"], 4, PLAIN_CTX),
            mk("line ends", &["\n", "\r\n", "\\", "a", "- ", "```\n", "!!\n", "---\n", "\r", " "], 4 + d, PLAIN_CTX),
        ],
    };
    v.push(Exhaustive { name: "every mark", chunks: POOL.to_vec(), max: if deep { 3 } else { 2 }, ctx: if deep { PLAIN_CTX.to_vec() } else { INLINE_CTX.to_vec() } });
    v
}

/// short texts of every kind, complete and incomplete
pub const SHORT: &[&str] = &[
    "", "a", "\\", "\\*", "a\\", "*", "*a*", "*a", "**a**", "**a", "**_a", "_a_", "_a", "~~a~~", "~~a", "`a`", "`a", "[a](b)", "[a](b", "[a]", "[a", "[a](b(c)", "![a](b)", "![a](b", "![a]", "![a](b)\n![c](d)", "![a](b)\nc",
    "# a", "#", "# [a](b)", "####### a", "-----", "----", "{{a|b}}", "{{a|b", "{{a|b}}c", "{{a}}", "- a", "- a\n - b", "- a\n - b\n  - c\n- d", "+ a\n- b", "- ", " - a", "```\na\n```", "```\na", "```a\nb\n```c", "```",
    "!!\na\n!!", "!!\na", "!! t\n! i\na\n\nb\n!!", "!!", "!! t", "!!\n! i", "{% t\na\n%}", "{% t\na", "{% t", "{%", "%}", "{% a\n{% b\nc\n%}\n%}", "{% a\n{% b\nc\n%}", "{% a\n!!\nb\n%}", "{% a\n```\nb\n%}", "{% a\n- b\n%}\nc", "---\na\n---", "---\na",
    "---", "---\n---\n\n# a", "a\n\nb", "a\r\n\r\nb", "\n\n\n", "\r", "\u{1F600} é",
];

const CORPUS: &[&str] = &[
    "---\ntitle: x\ntags:\n - a\n---\n\n# Heading [l](u)\n\n```rust\nlet x = 1;\n\n%}\n```\n\nText **b _i_ ~~s~~** and _i_ ~~s~~ *e* `c` [l](u(v)w) ![not](image)\n\n![a](b)\n\n![c](d)\n![e](f)\n\n- one\n - two\n  + three\n  + four\n- five\n\n!! Title\n! Icon\n\npara one\n\npara two\n!!\n\n-----\n\n{{youtube|abc|d}}\n\n{% title\n- x\n\n{% inner\n# h\n%}\n\nend\n%}\n\nlast",
    "{% one\n\n{% two\n{% three\nx\n%}\n\n```\n%}\n```\n\n%}\n\n!! t\ny\n\n%}\nz",
    "!! a\n! b\nc\n\n- d\n\n{% e\n!!\n\nf\r\ng\r\n\r\nh\\\n\\\ni",
    "- a\n + b **c\n + d** e\n- f ```\n  - g\n\n + h\n+ i",
    "**a _b ~~c** d_ e~~ *f `g* h` [i _j](k_) l",
    "{{a|b}}\n{{c|d}} e\n\n{{f|g\n}}\n\n{{h\n\n|i}}",
    "```a\nb\n````\n```c\n```\n\nd\n\n```\ne",
];

/// growing inputs: one thing repeated n times in a place
fn sized(i: u64) -> String {
    let n = SIZES[(i as usize) % SIZES.len()];
    let k = i as usize / SIZES.len();
    let rep = |s: &str| s.repeat(n);
    let pat: &[(&str, &str, &str)] = &[
        ("", "a", ""), ("", "é", " *b*"), ("", "😀", "\n# h"), ("a ", "\\*", " _b_"), ("", " ", "a"), ("a", " ", "\n- b"), ("", "\n", "a"), ("a\n", "b\n", "- c"),
        ("", "\r\n", "x"), ("", "*", "a"), ("", "-", " a"), ("", "#", " a"), ("", "`", "\na\n```"), ("", "!", "\na\n!!"), ("", "~", "a~~"), ("", "{", "a|b}}"), ("", "}", ""), ("{{a|b", "}", ""),
        ("", "_a_ ", ""), ("", "~~b~~", " c"), ("", "**c** ", "d"), ("", "[a](b) ", ""), ("[a](", "(", ")"), ("[a](", "(x)", ")"), ("[a]((((", ")", ""), ("[", "[", "](b)"), ("[a", "]", "(b)"),
        ("![", "a", "](b)"), ("![a](", "b", ")"), ("", "![a](b)\n", "![c](d)"), ("", "![a](b)\n", "x"), ("_", "a", "_"), ("`", "b ", "`"), ("~~", "c", "~~"), ("**", "d ", "** e"), ("**", "_e_ ", "**"), ("*", "f", "* g"),
        ("# ", "a", ""), ("# ", "[a](b) ", "c"), ("", "# a\n\n", "b"), ("", "-----\n\n", "a"), ("", "a\n\n", "# b"), ("", "- a\n", "- b"), ("- ", "a ", "\n- b"), ("+ ", "é", "\n + b"), ("- a\n", " - b\n", "- c"), ("- a\n + b", "\nc", "\n- d"),
        ("```\n", "a", "\n```"), ("```\n", "\n", "```"), ("```", "a", "\nb\n```"), ("```\n", "a\n", "```\nb"), ("", "```\na\n```\n", "b"), ("```\n", "`", "\n```"), ("```\n", "```x\n", "```"),
        ("!! ", "t", "\na\n!!"), ("!!\n! ", "i", "\na\n!!"), ("!!\n", "a\n\n", "b\n!!"), ("!!\n", "a\n", "!!\nc"), ("", "!!\na\n!!\n\n", "b"), ("", "!! a\n", "b"), ("!!\n", "\n", "!!"),
        ("{% ", "t", "\na\n%}"), ("{% t\n", "a\n\n", "b\n%}"), ("", "{% t\na\n%}\n\n", "b"), ("{% t\n", "\n", "%}"), ("", "{%\n", "a"), ("", "%}\n", "a"), ("{% t\n", "- a\n", "\n%}\n\n# b"),
        ("---\n", "a", "\n---\n\nb"), ("---\n", "a\n", "---\n\n# b"), ("---\n", "\n", "---"), ("---\n", "----\n", "---"), ("---", "\n", "a"), ("---\na", "\n", "---\n\nb"),
        ("{{", "a", "|b}}"), ("{{a|", "b", "}}"), ("{{a|", "b\n", "}}"), ("{{a|", "|", "}}"), ("", "{{a|b}}\n\n", "c"), ("", "\\\n", "a"), ("a", "\\", "*b*"), ("", "> ", "a"), ("a\n\n", "b *c* _d_ `e` ", "\n\n# f"),
    ];
    let (a, b, c) = pat[k % pat.len()];
    let body = rep(b);
    // long texts of long pieces are cut to keep one case cheap
    let body: String = body.chars().take(1400).collect();
    let s = format!("{a}{body}{c}");
    match k / pat.len() {
        0 => s,
        1 => format!("{{% t\n{s}\n%}}\n\n# after"),
        _ => format!("# before\n\n{s}\n\n- after"),
    }
}
const SIZED_PATS: u64 = 88;

fn deep(i: u64, g: &mut G) -> String {
    let n = 1 + (i as usize / 8) % 62;
    match i % 8 {
        0 => (0..n).map(|k| format!("{}- a", " ".repeat(k))).collect::<Vec<_>>().join("\n"),
        1 => (0..n).map(|k| format!("{}{} b", " ".repeat(k), if k % 2 == 0 { "+" } else { "-" })).collect::<Vec<_>>().join("\n") + "\n- c",
        2 => format!("{}a{}", "{% t\n".repeat(n), "\n%}".repeat(n)),
        3 => format!("{}a{}\n\n# b", "{% t\n".repeat(n.min(12)), "\n%}".repeat(g.r.below(n.min(12) + 1))),
        4 => {
            let up: Vec<String> = (0..n.min(20)).map(|k| format!("{}- u", " ".repeat(k))).collect();
            let down: Vec<String> = (0..n.min(20)).rev().map(|k| format!("{}- d", " ".repeat(k))).collect();
            format!("{}\n{}", up.join("\n"), down.join("\n"))
        }
        5 => format!("[a]({}u{})", "(".repeat(n), ")".repeat(n)),
        6 => {
            let k = n.min(8);
            format!("{}- a\n - b\n\n{}{}", "{% t\n".repeat(k), g.block(1), "\n%}\n\nq".repeat(k))
        }
        _ => {
            let mut s = String::new();
            for _ in 0..n.min(30) {
                s += &format!("{}{} {}\n", " ".repeat(g.r.below(5)), if g.r.one_in(2) { "-" } else { "+" }, g.r.pick(&["a", "b", "_c_", "d\ne"]));
            }
            s
        }
    }
}

pub enum Fam {
    Ex(Exhaustive),
    F(&'static str, u64, fn(&str, u64, u64) -> Case),
}
impl Fam {
    pub fn name(&self) -> String {
        match self {
            Fam::Ex(e) => format!("all sequences of up to {} of {} chunks ({}) in {} contexts", e.max, e.chunks.len(), e.name, e.ctx.len()),
            Fam::F(n, _, _) => n.to_string(),
        }
    }
    pub fn count(&self) -> u64 {
        match self {
            Fam::Ex(e) => e.count(),
            Fam::F(_, n, _) => *n,
        }
    }
    pub fn get(&self, p: &str, seed: u64, i: u64) -> Case {
        match self {
            Fam::Ex(e) => Case::Text(e.get(i)),
            Fam::F(_, _, f) => f(p, seed, i),
        }
    }
}

fn g(p: &str, seed: u64, i: u64, salt: u64) -> G {
    G { r: Rng::new(seed, i, salt), f: focus(p) }
}
fn strip_cr(p: &str, s: String) -> String {
    // the premise of C23 excludes carriage returns and escaped line ends
    if p == "C23" {
        s.replace('\r', "").replace("\\\n", "\n")
    } else if p == "C29" {
        line(&s)
    } else {
        s
    }
}
/// C29 is about single lines: the longest line of a text, or all of them in one
fn line(s: &str) -> String {
    let l = if s.len() % 3 == 0 { s.lines().max_by_key(|l| l.len()).unwrap_or("").replace('\r', "") } else { s.replace(['\n', '\r'], "") };
    let l = l.trim_start_matches([' ', '!', '%', '{']);
    let l = if s.len() % 3 == 1 { l.trim_start_matches(['#', '-', '+', ' ', '`', '!', '%', '{']) } else { l };
    l.trim_end_matches('\\').to_string()
}
fn f_soup(p: &str, seed: u64, i: u64) -> Case {
    Case::Text(strip_cr(p, g(p, seed, i, 11).soup(24)))
}
fn f_doc(p: &str, seed: u64, i: u64) -> Case {
    Case::Text(strip_cr(p, g(p, seed, i, 12).doc()))
}
fn f_mut(p: &str, seed: u64, i: u64) -> Case {
    let mut x = g(p, seed, i, 13);
    let d = x.doc();
    Case::Text(strip_cr(p, x.mutate(&d)))
}
fn f_block(p: &str, seed: u64, i: u64) -> Case {
    let mut x = g(p, seed, i, 14);
    let mut d = x.block(1);
    if x.r.one_in(3) {
        d = x.mutate(&d);
    }
    Case::Text(strip_cr(p, d))
}
fn f_uni(p: &str, seed: u64, i: u64) -> Case {
    let mut x = g(p, seed, i, 15);
    let d = x.doc();
    let k = 1 + x.r.below(3);
    let us: Vec<&str> = (0..k).map(|_| x.r.pick(UNI)).collect();
    let mut s = String::new();
    for c in d.chars() {
        if (c.is_alphanumeric() && x.r.one_in(2)) || x.r.one_in(25) {
            s.push_str(us[x.r.below(us.len())]);
        } else {
            s.push(c);
        }
    }
    Case::Text(strip_cr(p, s))
}
fn f_esc(p: &str, seed: u64, i: u64) -> Case {
    let mut x = g(p, seed, i, 16);
    let d = x.doc();
    let n = 2 + x.r.below(8);
    let mut s = String::new();
    for c in d.chars() {
        if x.r.one_in(n) {
            s.push('\\');
        }
        s.push(c);
    }
    Case::Text(strip_cr(p, s))
}
fn f_sized(p: &str, _seed: u64, i: u64) -> Case {
    Case::Text(strip_cr(p, sized(i)))
}
fn f_deep(p: &str, seed: u64, i: u64) -> Case {
    Case::Text(deep(i, &mut g(p, seed, i, 17)))
}
fn f_corpus(p: &str, _seed: u64, i: u64) -> Case {
    let mut k = i as usize;
    for c in CORPUS {
        let n = c.chars().count();
        if k <= 2 * n {
            let s: String = if k <= n { c.chars().take(k).collect() } else { c.chars().skip(k - n).collect() };
            return Case::Text(strip_cr(p, s));
        }
        k -= 2 * n + 1;
    }
    Case::Text(String::new())
}
fn corpus_count() -> u64 {
    CORPUS.iter().map(|c| 2 * c.chars().count() as u64 + 1).sum()
}


// ---- every character ----
/// every character of the basic plane, and in the others those whose low byte or low half is a mark
fn characters() -> &'static [char] {
    static C: std::sync::OnceLock<Vec<char>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<char> = (0..0x10000u32).filter_map(char::from_u32).collect();
        for plane in 1..=16u32 {
            v.extend((0..128u32).filter_map(|m| char::from_u32(plane << 16 | m)));
            v.extend((0..64u32).filter_map(|m| char::from_u32(plane << 16 | (m * 1021 + plane))));
            v.extend((0..16u32).filter_map(|m| char::from_u32(plane << 16 | (m << 12) | 0x2a)));
        }
        v
    })
}
/// what people write
const REAL: &[&str] = &[
    "rust", "python", "yaml", "toml", "json", "text", "txt", "plain", "none", "mermaid", "html", "xml", "sh", "bash", "console", "diff", "c", "cpp", "c++", "c#", "js", "javascript",
    "ts", "java", "go", "sql", "css", "markdown", "md", "yamd", "latex", "math", "tex", "no_run", "ignore", "http://a.b", "https://a.b/c", "ftp://a.b", "mailto:a@b.c",
    "javascript:alert(1)", "data:image/png;base64,AA==", "file:///a", "//a.b", "/a/b", "./a", "../a", "#a", "?a=b&c=d", "www.a.com", "a%20b", ".jpg", "a.svg", "https://a.b/c_(d)_e",
    "http://a.b/**c**?d_e=f~~g~~", "title: a", "date: 2024-01-01T00:00:00Z", "tags:", "- a", "key: \"v\"", "key: |", "key: >", "{a: b}", "[a, b]", "# comment", "...", "+++", "===",
    "null", "true", "false", "yes", "no", "Null", "0", "1", "01", "-1", "1.5", "1.", "2)", "10.", "a)", "(1)", "0x10", "1e9", "NaN", "Infinity", "255", "256", "65535", "4294967296",
    "&amp;", "&lt;", "&#42;", "&nbsp;", "<b>", "</b>", "<!-- a -->", "<br/>", "<a href=\"b\">", "<script>", "<details>", "TODO", "NOTE", "WARNING", "TIP", "IMPORTANT", "[!NOTE]",
    "info", "warn", "danger", "error", "youtube", "twitter", "cloudinary_gallery", "vimeo", "gist", "iframe", "image", "video", "audio", "quote", "code", "table", "toc", "spoiler",
    "poll", "\"a\"", "'a'", "«a»", "“a”", "…", "--", "——", "$a$", "$$", "^a^", "@a", ":smile:", ";", "=", "==a==", "%20", "{a}", "{#id}", "{.class}", "[x]", "[ ]", "[ ] a", "[^1]",
    "[a]: b", "|a|b|", "|---|", "> a", ">> a", "* a", "* * *", "***", "___", "_ _", ":-:", ":---:", "RUST", "Rust", "Hello", "C:\\a", "\\n", "\\t", "\\u{1}", "\\0", "nul",
    "constructor", "__proto__", "toString", "type", "value", "kind", "content", "Text", "Paragraph", "Span", "Materialized", "Start", "End", "Value", "metadata", "body", "level",
    "nested_list", "list_type", "a.b", "a,b", "a;b", "a:b", "a/b", "a=b", "a+b", "a-b", "a_b", "a*b", "a~b", "a`b", "a#b", "a!b", "a?b", "a'b", "a\"b", "a@b", "a$b", "a%b", "a^b",
    "a&b", "a<b", "a>b", "snake_case_word", "kebab-case-word", "2*3*4", "a**b**c", "~/a", "~a~", "1~2", "don't", "O'Neil", "AT&T", "R&D", "100%", "50%off", "#1", "C#", "F#", "C++",
    "g++", "i++", "--flag", "-f", "+1", "!important", "wow!", "what?", "e.g.", "i.e.",
];
/// a character in the places where marks have a meaning
const CHAR_PLACES: &[&str] = &[
    "@ a\n\n@a@ b\n\n@@a@@ b@\n@- c\n\n@@@\na\n@@@\n\n@@@@@\n\n@@ t\nb\n@@\n\n[a@(b@ [c](d@ e",
    "*@* _@_ \\@@ \\\\@\n@ @\n- @\n @ a\n\n# @ [@](@)\n\n!! @\n! @\n@\n!!\n\n{{@|@}}",
    "---\n@\n---@\n\n```@\n@\n```@\n\n{% @\n@\n%}@\n\n![@](@)\n@a",
    "a@b@@*c@*@\n@@\n@",
];
fn char_place(i: u64, k: &[usize]) -> String {
    let n = k.len() as u64;
    let c = characters()[(i / n) as usize];
    CHAR_PLACES[k[(i % n) as usize]].replace('@', &c.to_string())
}
fn char_places(p: &str) -> &'static [usize] {
    match p {
        "C06" | "C07" | "C08" | "C09" => &[3, 0],
        "C10" => &[0, 3],
        "C13" | "C16" | "C17" => &[2],
        "C20" => &[],
        "C11" | "C12" | "C14" | "C15" => &[0, 1],
        _ => &[0, 1, 2],
    }
}
fn f_char(p: &str, _seed: u64, i: u64) -> Case {
    Case::Text(strip_cr(p, char_place(i, char_places(p))))
}
/// a word where a character would be, and in places of its own
const REAL_PLACES: &[&str] = &[
    "@", "@ @", "a @ b", "- @\n + @ @\n\n@: a\n@", "# @\n\n## a [@](@ b) @", "```@\n@\n```\n\n```\n@\n@\n\n@\n```", "!! @\n! @\n@\n\n@ @\n!!", "{% @\n@\n\n@\n%}", "{{@|@}}\n\n![@](@)\n\n![@](@)\n![a](@)",
    "---\n@: a\na: @\n@\n---\n\n@", "**@** _@_ ~~@~~ *@* `@` [@](@)", "**@ _@_ ~~@~~ @**@", "_@\n@_ `@\n@` *@\n@*", "{{@|a|@}}\n\n{{a|@\n\n@}}", "@\n\n-----\n\n@\n",
];
fn real(i: u64) -> String {
    let n = (CHAR_PLACES.len() + REAL_PLACES.len()) as u64;
    let k = (i % n) as usize;
    let t = if k < CHAR_PLACES.len() { CHAR_PLACES[k] } else { REAL_PLACES[k - CHAR_PLACES.len()] };
    t.replace('@', REAL[(i / n) as usize % REAL.len()])
}
const REALS: u64 = (REAL.len() * (CHAR_PLACES.len() + REAL_PLACES.len())) as u64;
fn f_real(p: &str, _seed: u64, i: u64) -> Case {
    Case::Text(strip_cr(p, real(i)))
}
/// two of the words
fn f_real2(p: &str, seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed, i, 72);
    let k = r.below(CHAR_PLACES.len() + REAL_PLACES.len());
    let t = if k < CHAR_PLACES.len() { CHAR_PLACES[k] } else { REAL_PLACES[k - CHAR_PLACES.len()] };
    let mut s = String::new();
    for c in t.chars() {
        if c == '@' { s.push_str(r.pick(REAL)) } else { s.push(c) }
    }
    Case::Text(strip_cr(p, s))
}
fn f_real_tree(_p: &str, _seed: u64, i: u64) -> Case {
    let w = REAL[(i / 2) as usize];
    let s = if i % 2 == 0 { w.to_string() } else { format!("x{w}y {w}") };
    Case::Doc(V::record(&[("meta", V::opt(Some(q(&s)))), ("body", V::seq((0..PLACES - 1).filter(|p| p % 2 == i / 2 % 2).map(|p| in_place(p, s.clone()).block()).collect()))]))
}
fn f_real_pair(_p: &str, seed: u64, i: u64) -> Case {
    let n = Rng::new(seed, i, 73).below(REALS as usize) as u64;
    Case::Pair(real(i).trim_end_matches(['\n', '\\']).to_string(), real(n))
}
fn f_real_plain(_p: &str, _seed: u64, i: u64) -> Case {
    Case::Plain(REAL[i as usize].to_string())
}
fn f_char_plain(_p: &str, _seed: u64, i: u64) -> Case {
    let c = characters()[i as usize];
    Case::Plain(format!("{c}a{c}{c} {c}"))
}
fn f_char_pair(_p: &str, _seed: u64, i: u64) -> Case {
    let c = characters()[(i / 2) as usize];
    if i % 2 == 0 { Case::Pair(format!("a{c}\n- b{c}"), format!("{c}c")) } else { Case::Pair(format!("{c}"), format!("{c} {c}\n\n# {c}")) }
}
/// the character in every field of a document
fn f_char_tree(_p: &str, _seed: u64, i: u64) -> Case {
    let c = characters()[(i / 2) as usize];
    let s = if i % 2 == 0 { format!("{c}") } else { format!("x{c}{c}y") };
    // white space at an edge is outside the premise
    let s = if matches!(c, '\n' | '\r' | ' ' | '\t') { format!("x{c}y") } else { s };
    Case::Doc(V::record(&[("meta", V::opt(Some(q(&s)))), ("body", V::seq((0..PLACES - 1).filter(|p| p % 2 == i / 2 % 2).map(|p| in_place(p, s.clone()).block()).collect()))]))
}
impl Case {
    /// first block of a tree
    fn block(self) -> V {
        match self {
            Case::Doc(v) => v.get("body").items()[0].clone(),
            _ => panic!("a tree"),
        }
    }
}

// ---- very long inputs ----
const HUGE_N: &[usize] = &[65535, 65536, 65537];
const HUGE: &[(&str, &str, &str)] = &[
    ("", "a", " *b*"), ("", "é", " *b*"), ("", "\u{1F600}", "\n# h"), ("a ", "\\*", " _b_"), ("", " ", "a"), ("a", " ", "\n- b"), ("", "\n", "a"), ("a\n", "b\n", "- c"), ("", "\r\n", "x"), ("", "*", "a"), ("", "-", " a"), ("", "#", " a"),
    ("", "`", "\na\n```"), ("", "!", "\na\n!!"), ("", "~", "a~~"), ("", "{", "a|b}}"), ("", "}", ""), ("{{a|b", "}", ""), ("[a](", "b", ") c"), ("![", "a", "](b)"), ("_", "a", "_ *c*"), ("`", "b ", "` _c_"), ("~~", "c", "~~ _d_"),
    ("**", "d ", "** e"), ("# ", "a", "\n\nb"), ("- ", "a ", "\n- b"), ("```\n", "a", "\n```\n\nb"), ("```\n", "\n", "```\nb"), ("```", "a", "\nb\n```"), ("```\n", "a\n", "```\nb"), ("!! ", "t", "\na\n!!"), ("!!\n! ", "i", "\na\n!!"),
    ("!!\na", "b", "\n!!\nc"), ("{% ", "t", "\na\n%}"), ("{% t\n", "a", "\n%}\n\nb"), ("---\n", "a", "\n---\n\nb"), ("---\n", "a\n", "---\n\n# b"), ("{{", "a", "|b}}"), ("{{a|", "b", "}}\n\nc"), ("", "\\\n", "a"), ("a", "\\", "*b*"),
    ("a\n\n", "b ", "\n\n# f"),
];
/// many blocks, items or marks: fewer repetitions
const MANY_N: &[usize] = &[255, 256, 257, 4095, 4096, 4097];
const MANY: &[(&str, &str, &str)] = &[
    ("", "_a_ ", ""), ("", "~~b~~", " c"), ("", "**c** ", "d"), ("", "[a](b) ", ""), ("", "`a` ", "*b*"), ("", "![a](b)\n", "![c](d)"), ("**", "_e_ ", "** f"), ("# ", "[a](b) ", "c"), ("", "# a\n\n", "b"), ("", "-----\n\n", "a"),
    ("", "a\n\n", "# b"), ("", "- a\n", "- b"), ("- a\n", " - b\n", "- c"), ("", "```\na\n```\n", "b"), ("!!\n", "a\n\n", "b\n!!"), ("", "!!\na\n!!\n\n", "b"), ("{% t\n", "a\n\n", "b\n%}"), ("", "{% t\na\n%}\n\n", "b"),
    ("", "{{a|b}}\n\n", "c"), ("[a](", "(x)", ") b"), ("", "> ", "a"), ("- a\n + b", "\nc", "\n- d"), ("{% t\n", "- a\n", "\n%}\n\n# b"), ("", "+ a\n - b\n", ""), ("", "é\n\n", "\\*"),
];
/// the documents the repository measures itself with, if they are there
fn measured() -> &'static [String] {
    static M: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        let names = ["human_input", "random_token_high_density", "random_token_low_density", "small"];
        names.iter().filter_map(|n| std::fs::read_to_string(format!("/repo/benches/{n}.yamd")).ok()).collect()
    })
}
/// some neighbouring blocks of one of them
fn f_measured(p: &str, seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed, i, 71);
    let docs = measured();
    let d = &docs[r.below(docs.len())];
    let mut from = r.below(d.len());
    while !d.is_char_boundary(from) {
        from -= 1;
    }
    if !r.one_in(4) {
        from = d[from..].find("\n\n").map(|k| from + k + 2).unwrap_or(0);
    }
    let blocks = if r.one_in(200) { 400 } else { 1 + r.below(9) };
    let mut to = from;
    for _ in 0..blocks {
        to = d[to..].find("\n\n").map(|k| to + k + 2).unwrap_or(d.len());
    }
    Case::Text(strip_cr(p, d[from..to].trim_end_matches('\n').to_string()))
}
fn f_measured_whole(p: &str, _seed: u64, i: u64) -> Case {
    Case::Text(strip_cr(p, measured()[i as usize].clone()))
}
fn f_huge(p: &str, _seed: u64, i: u64) -> Case {
    let (n, (a, b, c)) = (HUGE_N[i as usize % 3], HUGE[i as usize / 3]);
    Case::Text(strip_cr(p, format!("{a}{}{c}", b.repeat(n))))
}
fn f_many(p: &str, _seed: u64, i: u64) -> Case {
    let (n, (a, b, c)) = (MANY_N[i as usize % MANY_N.len()], MANY[i as usize / MANY_N.len()]);
    Case::Text(strip_cr(p, format!("{a}{}{c}", b.repeat(n))))
}
/// every construct with a body of many tokens, an escape or a mark at its far end
const FAR: &[(&str, &str)] = &[
    ("", ""), ("_", "_"), ("~~", "~~"), ("*", "*"), ("`", "`"), ("**", "**"), ("**a _", "_**"), ("[", "](u)"), ("[l](", ")"), ("![", "](u)\n![a](b)"), ("![a](", ")"), ("# ", ""), ("# [", "](u)"), ("- ", "\n- b"), ("- a\n + ", "\n- b"),
    ("```\n", "\n```"), ("```", "\nb\n```"), ("{{", "|b}}"), ("{{a|", "}}"), ("!! ", "\na\n!!"), ("!!\n! ", "\na\n!!"), ("!!\n", "\n!!"), ("{% ", "\na\n%}"), ("{% t\n", "\n%}"), ("---\n", "\n---"), ("\n\n", ""), ("{% t\n!! t\n", "\n!!\n%}"),
];
const FAR_N: &[usize] = &[20, 50, 70, 110, 150, 270, 400, 520, 800, 1100, 2100, 4200, 8200, 17000, 33000];
const FAR_BODY: &[&str] = &["a-", "a\n", "\\*b", "> ", "é|"];
const FAR_END: &[&str] = &["", "c\\d", "\\_", "\n"];
const FARS: u64 = (27 * 15 * 5 * 4) as u64;
fn f_far(p: &str, _seed: u64, i: u64) -> Case {
    let i = i as usize;
    let (n, e, b) = (FAR_N[i % 15], FAR_END[i / 15 % 4], FAR_BODY[i / 60 % 5]);
    let (x, z) = FAR[i / 300];
    // one end is enough for the long ones
    if n > 2000 && (i / 15 + i / 300) % 4 != 0 {
        return Case::Text(String::new());
    }
    Case::Text(strip_cr(p, format!("{x}{}{e}{z} *y*\n\n# z", b.repeat(n))))
}
/// nesting deeper than a byte can count
fn f_abyss(p: &str, _seed: u64, i: u64) -> Case {
    let n = [254, 255, 256, 257, 258, 300, 511, 513, 1023, 1025, 2049][i as usize % 11];
    // deep collapsibles and lists cost the square of the depth
    let n = if n > 600 && [0, 1, 5].contains(&(i / 11)) { n / 2 } else { n };
    Case::Text(strip_cr(
        p,
        match i / 11 {
            0 => (0..n).map(|k| format!("{}- a", " ".repeat(k))).collect::<Vec<_>>().join("\n"),
            1 => (0..n).map(|k| format!("{}{} b", " ".repeat(k), if k % 2 == 0 { "+" } else { "-" })).collect::<Vec<_>>().join("\n") + "\n- c",
            2 => format!("{}a{}\n\nb", "{% t\n".repeat(n), "\n%}".repeat(n)),
            3 => format!("[a]({}u{}) b", "(".repeat(n), ")".repeat(n)),
            4 => format!("[a]({}u{}) b", "(".repeat(n), ")".repeat(n - 1)),
            _ => format!("{}\n- d", (0..n).map(|k| format!("{}- a", " ".repeat(k))).chain((0..n).rev().step_by(50).map(|k| format!("{}- u", " ".repeat(k)))).collect::<Vec<_>>().join("\n")),
        },
    ))
}
const ABYSS: u64 = 66;

// ---- fully escaped texts ----
fn f_plain(p: &str, seed: u64, i: u64) -> Case {
    let mut x = g(p, seed, i, 21);
    let s = match i % 4 {
        0 => x.soup(12),
        1 => x.doc(),
        2 => (0..1 + x.r.below(6)).map(|_| x.r.pick(UNI)).collect(),
        _ => x.piece(2),
    };
    Case::Plain(s)
}

// ---- pairs ----
fn complete_text(x: &mut G) -> String {
    let mut s = String::new();
    let n = 1 + x.r.below(2);
    for i in 0..n {
        if i > 0 {
            s += "\n\n";
        }
        s += &x.block(1);
    }
    if !x.r.one_in(10) {
        s = s.trim_end_matches(['\n', '\r', '\\']).to_string();
    }
    s
}
fn f_pair(p: &str, seed: u64, i: u64) -> Case {
    let mut x = g(p, seed, i, 31);
    let mut a = complete_text(&mut x);
    if x.r.one_in(12) {
        a = format!("---\nk: v\n---\n\n{a}");
    }
    let mut b = complete_text(&mut x);
    if x.r.one_in(4) {
        b = x.mutate(&b);
    }
    if x.r.one_in(6) {
        a = x.mutate(&a);
    }
    Case::Pair(a, b)
}
/// two short texts over whole constructs and loose ends
const PARTS: &[&str] = &[
    "a", "# h", "- i", "+ i\n - j", "!!\nc\n!!", "!! t\n! i\nc\n!!", "```\nx\n```", "```r\n\n%}\n```", "{{a|b}}", "-----", "![a](b)", "![a](b)\n![c](d)", "{% t\nx\n%}", "{% t\n{% u\ny\n%}\n%}",
    "_a", "*b", "**c", "~~d", "`e", "[f", "[f](g", "![h", "{{i", "{{i|j", "!!", "! k", "---", "--", "#", "-", "+ ", "!!x", "``", "%", "{", "|", ")", "](", "}}", "_", "*", "**", "~~", "`", "a\nb", " - i", "\\", "x\\\ny", "[a](b)", "**b**", "", "\n", " ",
];
fn f_pair_ex(_p: &str, _seed: u64, i: u64) -> Case {
    let n = PARTS.len() as u64;
    Case::Pair(PARTS[(i % n) as usize].into(), PARTS[(i / n % n) as usize].into())
}
fn f_pair_ex3(_p: &str, _seed: u64, i: u64) -> Case {
    let n = PARTS.len() as u64;
    let (a, b, c) = (PARTS[(i % n) as usize], PARTS[(i / n % n) as usize], PARTS[(i / n / n % n) as usize]);
    if i / n / n / n % 2 == 0 { Case::Pair(format!("{a}\n\n{b}"), c.into()) } else { Case::Pair(a.into(), format!("{b}\n\n{c}")) }
}

/// a long first or second text
fn f_pair_sized(_p: &str, _seed: u64, i: u64) -> Case {
    const SECOND: &[&str] = &["a", "# h\n\n- i", "*b*", "```\nx\n```", "![a](b)", "!!\nc\n!!", " - j", "{{a|b}}"];
    let s = sized(i / 2 * 7 % (SIZED_PATS * SIZES.len() as u64));
    let t = SECOND[(i / 2) as usize % SECOND.len()].to_string();
    if i % 2 == 0 { Case::Pair(s, t) } else { Case::Pair(t, s) }
}

/// a text as long as two bytes count, or of thousands of pieces, before or after another
fn f_pair_huge(_p: &str, _seed: u64, i: u64) -> Case {
    const OTHER: &[&str] = &["a\\* b", "# h\n\n- i\n - [a](b)\n\n!! t\n! i\n_c_\n!!", "```x\ny\n```\n\n{% t\n*d*\n%}", "![a](b)\n\n![a](b)\n![c](d)\n\n{{e|f}}\n\n-----"];
    let n = HUGE.len() + MANY.len();
    let k = (i / 2) as usize % n;
    let s = if k < HUGE.len() {
        let (a, b, c) = HUGE[k];
        format!("{a}{}{c}", b.repeat(HUGE_N[k % 3]))
    } else {
        let (a, b, c) = MANY[k - HUGE.len()];
        format!("{a}{}{c}", b.repeat(MANY_N[3 + k % 3]))
    };
    let t = OTHER[(i / 2) as usize % OTHER.len()].to_string();
    if i % 2 == 0 { Case::Pair(s, t) } else { Case::Pair(t, s) }
}

// ---- event streams ----
pub const NODES: &[&str] = &[
    "Document", "Metadata", "Paragraph", "Heading", "Bold", "Italic", "Strikethrough", "CodeSpan", "Emphasis", "Anchor", "Title", "Destination", "Image", "Images", "Code", "Modifier", "UnorderedList",
    "OrderedList", "ListItem", "Highlight", "Icon", "ThematicBreak", "Embed", "Collapsible",
];
const OPSRC: &str = "# a\n\n- bé *c* 😀\n\n!!\nd\n!!\n\r\ne\n";
fn content(r: &mut Rng) -> OpSpec {
    let m = r.one_in(2);
    if m {
        let w = match r.below(6) {
            0 => "".to_string(),
            1 => "\n".to_string(),
            2 => "## ".to_string(),
            3 => format!("{}\n", r.pick(&["x", "y\r", "\n"])),
            4 => r.pick(POOL).to_string(),
            _ => "t".to_string(),
        };
        OpSpec { o: 'V', n: String::new(), m: true, s: 0, e: 0, w }
    } else {
        let ix: Vec<usize> = OPSRC.char_indices().map(|x| x.0).chain([OPSRC.len()]).collect();
        let a = r.below(ix.len());
        let b = a + r.below((ix.len() - a).min(6));
        OpSpec { o: 'V', n: String::new(), m: false, s: ix[a], e: ix[b], w: String::new() }
    }
}
fn ev(r: &mut Rng, o: char, n: &str) -> OpSpec {
    let mut c = content(r);
    c.o = o;
    c.n = n.to_string();
    if o != 'V' && r.one_in(2) {
        c.m = false;
        c.s = 0;
        c.e = 0;
        c.w.clear();
    }
    c
}
fn gnode(r: &mut Rng, n: &str, d: usize, out: &mut Vec<OpSpec>) {
    let start = out.len();
    let s = ev(r, 'S', n);
    out.push(s);
    if n == "Heading" {
        let k = 1 + r.below(6);
        out[start].m = true;
        out[start].w = "#".repeat(k) + " ";
    }
    let many = |r: &mut Rng| r.below(4);
    match n {
        "Title" | "Destination" | "Italic" | "Strikethrough" | "CodeSpan" | "Emphasis" | "Metadata" | "ThematicBreak" | "Modifier" | "Icon" => {
            let v = content(r);
            out.push(v);
        }
        "Anchor" | "Image" => {
            gnode(r, "Title", d, out);
            gnode(r, "Destination", d, out);
        }
        "ListItem" => {
            gnode(r, "Paragraph", d, out);
            if d > 0 && r.one_in(3) {
                let k = r.pick(&["UnorderedList", "OrderedList"]);
                gnode(r, k, d - 1, out);
            }
        }
        "Code" => {
            if r.one_in(2) {
                gnode(r, "Modifier", d, out);
            }
            let v = content(r);
            out.push(v);
        }
        "Embed" => {
            for _ in 0..3 {
                let v = content(r);
                out.push(v);
            }
        }
        "Collapsible" => {
            if r.one_in(2) {
                gnode(r, "Modifier", d, out);
            }
            gnode(r, "Document", d.saturating_sub(1), out);
        }
        "Highlight" => {
            if r.one_in(2) {
                gnode(r, "Modifier", d, out);
            }
            if r.one_in(2) {
                gnode(r, "Icon", d, out);
            }
            for _ in 0..many(r) {
                if r.one_in(3) {
                    let v = content(r);
                    out.push(v);
                }
                gnode(r, "Paragraph", d, out);
            }
        }
        "Images" => {
            for _ in 0..2 + r.below(2) {
                gnode(r, "Image", d, out);
            }
        }
        "UnorderedList" | "OrderedList" => {
            for _ in 0..1 + r.below(3) {
                gnode(r, "ListItem", d, out);
            }
        }
        _ => {
            let ms: &[&str] = match n {
                "Document" if d == 0 => &["Paragraph", "Heading", "Image", "ThematicBreak"],
                "Document" => &["Paragraph", "Heading", "Image", "Images", "Code", "UnorderedList", "OrderedList", "Highlight", "ThematicBreak", "Embed", "Collapsible"],
                "Paragraph" => &["Anchor", "Bold", "Italic", "Strikethrough", "CodeSpan", "Emphasis"],
                "Bold" => &["Italic", "Strikethrough"],
                _ => &["Anchor"],
            };
            for _ in 0..many(r) {
                if r.one_in(2) {
                    let v = content(r);
                    out.push(v);
                } else {
                    let k = r.pick(ms);
                    gnode(r, k, d.saturating_sub(if n == "Document" { 1 } else { 0 }), out);
                }
            }
        }
    }
    let e = ev(r, 'E', n);
    out.push(e);
}
fn gstream(r: &mut Rng) -> Vec<OpSpec> {
    let mut v = vec![];
    if r.one_in(4) {
        gnode(r, "Metadata", 0, &mut v);
    }
    let d = 1 + r.below(3);
    gnode(r, "Document", d, &mut v);
    v
}
fn f_ops_good(_p: &str, seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed, i, 41);
    Case::Ops(OPSRC.into(), gstream(&mut r))
}
fn f_ops_mut(_p: &str, seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed, i, 42);
    let mut v = gstream(&mut r);
    for _ in 0..1 + r.below(3) {
        if v.is_empty() {
            break;
        }
        let k = r.below(v.len());
        match r.below(7) {
            0 => {
                v.remove(k);
            }
            1 => {
                let x = v[k].clone();
                v.insert(k, x);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(k, j);
            }
            3 => {
                let n = r.pick(NODES);
                if v[k].o != 'V' {
                    v[k].n = n.into();
                }
            }
            4 => {
                let n = r.pick(NODES);
                let x = if r.one_in(2) { ev(&mut r, 'S', n) } else { ev(&mut r, 'E', n) };
                v.insert(k, x);
            }
            5 => v.truncate(k),
            _ => {
                // rename one start and its end
                let n = r.pick(NODES).to_string();
                if v[k].o == 'S' {
                    let mut d = 0;
                    for j in k..v.len() {
                        match v[j].o {
                            'S' => d += 1,
                            'E' => {
                                d -= 1;
                                if d == 0 {
                                    v[j].n = n.clone();
                                    break;
                                }
                            }
                            _ => {}
                        }
                    }
                    v[k].n = n;
                }
            }
        }
    }
    Case::Ops(OPSRC.into(), v)
}
/// the events of a text, as they are or with one of them changed
fn of_text(s: String, r: &mut Rng, change: bool) -> Case {
    let name = |n: &yamd::op::Node| format!("{n:?}");
    let ops = std::panic::catch_unwind(|| yamd::parse(&s)).unwrap_or_default();
    let mut v: Vec<OpSpec> = ops
        .iter()
        .map(|x| {
            let (o, n) = match &x.kind {
                yamd::op::OpKind::Start(n) => ('S', name(n)),
                yamd::op::OpKind::End(n) => ('E', name(n)),
                _ => ('V', String::new()),
            };
            match &x.content {
                yamd::op::Content::Span(t) => OpSpec { o, n, m: false, s: t.start, e: t.end, w: String::new() },
                yamd::op::Content::Materialized(w) => OpSpec { o, n, m: true, s: 0, e: 0, w: w.clone() },
            }
        })
        .collect();
    if change && !v.is_empty() {
        let k = r.below(v.len());
        match r.below(4) {
            0 => {
                v.remove(k);
            }
            1 => {
                let x = v[k].clone();
                v.insert(k, x);
            }
            2 => {
                let j = r.below(v.len());
                v.swap(k, j);
            }
            _ => {
                if v[k].o != 'V' {
                    v[k].n = r.pick(NODES).into();
                }
            }
        }
    }
    Case::Ops(s, v)
}
fn f_ops_text(p: &str, seed: u64, i: u64) -> Case {
    let mut x = g(p, seed, i, 45);
    let s = x.doc();
    of_text(s, &mut x.r, i % 2 == 1)
}
fn f_ops_sized(_p: &str, seed: u64, i: u64) -> Case {
    of_text(sized(i / 2), &mut Rng::new(seed, i, 46), i % 2 == 1)
}
fn f_ops_abyss(p: &str, seed: u64, i: u64) -> Case {
    let Case::Text(s) = f_abyss(p, seed, i / 2) else { unreachable!() };
    of_text(s, &mut Rng::new(seed, i, 47), i % 2 == 1)
}
/// one node in itself many times over, balanced or nearly so
fn f_ops_nested(_p: &str, _seed: u64, i: u64) -> Case {
    let i = i as usize;
    let n = [40, 100, 130, 260, 520, 1001, 1030, 2050, 4100, 5000, 9000][i / 96 % 11];
    let x = NODES[i % 24];
    let y = NODES[(i + 1 + i / 96) % 24];
    let op = |o: char, n: &str| OpSpec { o, n: n.into(), m: false, s: 0, e: 0, w: String::new() };
    let two = i / 24 % 4 == 3;
    let name = |k: usize| if two && k % 2 == 1 { y } else { x };
    let mut v: Vec<OpSpec> = (0..n).map(|k| op('S', name(k))).chain((0..n).rev().map(|k| op('E', name(k)))).collect();
    match i / 24 % 4 {
        1 => {
            v.pop();
        }
        2 => v[n + n / 3].n = y.into(),
        _ => {}
    }
    Case::Ops(String::new(), v)
}
/// balanced streams of arbitrary nodes, and nearly balanced ones
fn f_ops_any(_p: &str, seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed, i, 43);
    let mut v = vec![];
    let mut open: Vec<&str> = vec![];
    let n = 1 + r.below(if i % 50 == 0 { 300 } else { 14 });
    for _ in 0..n {
        match r.below(3) {
            0 => {
                let k = r.pick(NODES);
                open.push(k);
                v.push(ev(&mut r, 'S', k));
            }
            1 => {
                if let Some(k) = open.pop() {
                    v.push(ev(&mut r, 'E', k));
                }
            }
            _ => v.push(content(&mut r)),
        }
    }
    while let Some(k) = open.pop() {
        if r.one_in(12) {
            continue;
        }
        let k = if r.one_in(30) { r.pick(NODES) } else { k };
        v.push(ev(&mut r, 'E', k));
    }
    Case::Ops(OPSRC.into(), v)
}
/// all streams of up to three events; all (parent, child) pairs in every closing order
fn f_ops_ex(_p: &str, _seed: u64, i: u64) -> Case {
    let k = NODES.len() as u64 * 2 + 1;
    let mut r = Rng::new(i, 0, 44);
    let mut mk = |c: u64| {
        if c == 0 {
            return OpSpec { o: 'V', n: String::new(), m: true, s: 0, e: 0, w: "v".into() };
        }
        let n = NODES[((c - 1) / 2) as usize];
        let mut e = ev(&mut r, if c % 2 == 1 { 'S' } else { 'E' }, n);
        e.m = true;
        e.w = "#".into();
        e
    };
    let mut j = i;
    let mut n = 0;
    let mut span = 1;
    while j >= span {
        j -= span;
        span *= k;
        n += 1;
    }
    let mut v = vec![];
    for _ in 0..n {
        v.push(mk(j % k));
        j /= k;
    }
    Case::Ops(OPSRC.into(), v)
}
fn f_ops_pairs(_p: &str, _seed: u64, i: u64) -> Case {
    let n = NODES.len() as u64;
    let (a, b, c, z) = (NODES[(i % n) as usize], NODES[(i / n % n) as usize], NODES[(i / n / n % n) as usize], i / n / n / n);
    let e = |o: char, n: &str| OpSpec { o, n: n.into(), m: true, s: 0, e: 0, w: if o == 'S' { "## ".into() } else { "\n".into() } };
    let t = || OpSpec { o: 'V', n: String::new(), m: true, s: 0, e: 0, w: "w\n".into() };
    let v = match z {
        0 => vec![e('S', a), e('S', b), t(), e('E', b), e('E', c)],
        1 => vec![e('S', a), e('S', b), t(), e('E', c), e('E', a)],
        2 => vec![e('S', a), e('S', b), e('S', c), t(), e('E', c), e('E', b), e('E', a)],
        _ => vec![e('S', a), t(), e('S', b), t(), e('E', b), e('S', c), t(), e('E', c), t(), e('E', a)],
    };
    Case::Ops(OPSRC.into(), v)
}

// ---- trees ----
fn q(s: &str) -> V {
    V::text(s)
}
fn leaf(t: &str, s: &str) -> V {
    V::record(&[("t", V::s(t)), ("s", q(s))])
}
struct T<'a> {
    r: &'a mut Rng,
    multi: bool,
    /// one text in so many may be anything, 0: none
    wild: usize,
}
impl T<'_> {
    /// a text that neither begins nor ends with white space and has no blank line
    fn text(&mut self, multi: bool) -> String {
        let n = 1 + self.r.below(4);
        let mut s = String::new();
        for _ in 0..n {
            match self.r.below(6) {
                0 => s += "a",
                1 => s += self.r.pick(UNI),
                2 => s += "foo bar",
                _ => s += self.r.pick(&[
                    "*", "**", "_", "~", "~~", "`", "```", "[", "]", "(", ")", "!", "!!", "! ", "#", "# ", "-", "- ", "+ ", "---", "-----", "{", "{{", "}", "}}", "|", "%", "{%", "{% ", "%}", "\\", "\\\\", ">", " ", "\n", "\n- ", "\n + ", "\n!!",
                    "\n%}", "\n```", "\n---", "\r", "\r\n", "\n# ", "](", "a", "![", "\n{{", "\n  - ", "\t", "x",
                ]),
            }
        }
        if !multi {
            s = s.replace(['\n', '\r'], "");
        }
        loop {
            let t = s.replace("\r\n", "\n");
            if t.contains("\n\n") {
                s = s.replace("\r\n\r\n", "\n").replace("\n\r\n", "\n").replace("\r\n\n", "\n").replace("\n\n", "\n");
            } else {
                break;
            }
        }
        let w: &[char] = &['\n', '\r', ' ', '\t'];
        let t = s.trim_matches(w).to_string();
        if t.is_empty() { "a".into() } else { t }
    }
    fn txt(&mut self) -> String {
        let m = self.multi;
        if self.wild > 0 && self.r.one_in(self.wild) {
            return self.r.pick(&["", " ", "\n", "a ", " a", "a\n\nb", "\\", "a\n", "\na", "\n\n", "a\r", "\r\n", "- ", "! ", "!!", "\n- ", "a\n\n", "\n\na\n", "---", "\n---\n", "a\n```"]).into();
        }
        self.text(m)
    }
    fn line(&mut self) -> String {
        if self.wild > 0 && self.wild < 6 && self.r.one_in(self.wild) {
            return self.txt();
        }
        self.text(false)
    }
    fn anchor(&mut self) -> V {
        V::record(&[("t", V::s("Anchor")), ("text", q(&self.txt())), ("url", q(&self.txt()))])
    }
    fn inline(&mut self, prev_text: bool) -> V {
        loop {
            return match self.r.below(8) {
                0 | 1 if !prev_text => leaf("Text", &self.txt()),
                2 => self.anchor(),
                3 => {
                    let mut b = vec![];
                    let mut pt = false;
                    for _ in 0..1 + self.r.below(3) {
                        let k = self.r.below(3);
                        if k == 0 && pt {
                            continue;
                        }
                        pt = k == 0;
                        b.push(leaf(["Text", "Italic", "Strikethrough"][k], &self.txt()));
                    }
                    V::record(&[("t", V::s("Bold")), ("body", V::seq(b))])
                }
                4 => leaf("Italic", &self.txt()),
                5 => leaf("Strikethrough", &self.txt()),
                6 => leaf("CodeSpan", &self.txt()),
                7 => leaf("Emphasis", &self.txt()),
                _ => continue,
            };
        }
    }
    fn inlines(&mut self) -> V {
        let mut b: Vec<V> = vec![];
        for _ in 0..1 + self.r.below(4) {
            let pt = b.last().is_some_and(|x| x.get("t") == &V::s("Text"));
            let x = self.inline(pt);
            b.push(x);
        }
        V::seq(b)
    }
    fn image(&mut self) -> V {
        V::record(&[("t", V::s("Image")), ("alt", q(&self.txt())), ("src", q(&self.txt()))])
    }
    fn list(&mut self, lv: i64, d: usize) -> V {
        let k = self.r.pick(&["UnorderedList", "OrderedList"]);
        let n = 1 + self.r.below(3);
        let mut b = vec![];
        for _ in 0..n {
            let t = self.inlines();
            let nest = if d > 0 && self.r.one_in(2) { Some(self.list(lv + 1, d - 1)) } else { None };
            b.push(V::record(&[("text", t), ("nested", V::opt(nest))]));
        }
        V::record(&[("t", V::s("List")), ("kind", V::s(k)), ("level", V::I(lv)), ("body", V::seq(b))])
    }
    fn opt(&mut self) -> V {
        if self.r.one_in(2) { V::opt(None) } else { V::opt(Some(q(&self.line()))) }
    }
    fn block(&mut self, d: usize) -> V {
        match self.r.below(if d > 0 { 12 } else { 10 }) {
            0 | 1 => V::record(&[("t", V::s("Paragraph")), ("body", self.inlines())]),
            2 => {
                let l = 1 + self.r.below(6) as i64;
                let mut b: Vec<V> = vec![];
                for _ in 0..1 + self.r.below(3) {
                    if self.r.one_in(2) && !b.last().is_some_and(|x: &V| x.get("t") == &V::s("Text")) {
                        b.push(leaf("Text", &self.txt()));
                    } else {
                        b.push(self.anchor());
                    }
                }
                V::record(&[("t", V::s("Heading")), ("level", V::I(l)), ("body", V::seq(b))])
            }
            3 => self.image(),
            4 => {
                let b = (0..2 + self.r.below(3)).map(|_| self.image()).collect();
                V::record(&[("t", V::s("Images")), ("body", V::seq(b))])
            }
            5 => V::record(&[("t", V::s("Code")), ("lang", q(&self.line())), ("code", q(&self.txt()))]),
            6 => {
                let d = self.r.below(4);
                self.list(0, d)
            }
            7 => {
                let (t, i) = (self.opt(), self.opt());
                let b = (0..1 + self.r.below(3)).map(|_| V::record(&[("t", V::s("Paragraph")), ("body", self.inlines())])).collect();
                V::record(&[("t", V::s("Highlight")), ("title", t), ("icon", i), ("body", V::seq(b))])
            }
            8 => V::record(&[("t", V::s("ThematicBreak"))]),
            9 => V::record(&[("t", V::s("Embed")), ("kind", q(&self.txt())), ("args", q(&self.txt()))]),
            _ => {
                let t = self.line();
                let b = (0..1 + self.r.below(3)).map(|_| self.block(d - 1)).collect();
                V::record(&[("t", V::s("Collapsible")), ("title", q(&t)), ("body", V::seq(b))])
            }
        }
    }
    fn doc(&mut self) -> V {
        let meta = if self.r.one_in(5) { V::opt(Some(q(&if self.wild > 0 { self.txt() } else { self.text(true) }))) } else { V::opt(None) };
        let n = 1 + self.r.below(4);
        let b = (0..n).map(|_| self.block(2)).collect();
        V::record(&[("meta", meta), ("body", V::seq(b))])
    }
}
fn f_tree(p: &str, seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed, i, 51);
    let multi = !r.one_in(3);
    let wild = match p {
        "C20" if r.one_in(2) => 12,
        "C26" => [0, 12, 4, 2][r.below(4)],
        _ => 0,
    };
    Case::Doc(T { r: &mut r, multi, wild }.doc())
}
const MARKS: &[&str] = &[
    "a", "*", "**", "_", "~", "~~", "`", "```", "[", "]", "(", ")", "!", "!!", "#", "-", "- ", "+ ", "---", "{", "{{", "}}", "|", "{%", "%}", "\\", ">", " ", "\n", "\r",
];
const PLACES: u64 = 27;
/// every text of up to three marks in every field of every kind of node
fn f_tree_ex(_p: &str, _seed: u64, i: u64) -> Case {
    let n = MARKS.len() as u64;
    let mut j = i / PLACES;
    let mut s = String::new();
    // one, two, three marks
    let mut k = 1;
    let mut span = n;
    while j >= span {
        j -= span;
        span *= n;
        k += 1;
    }
    for _ in 0..k {
        s += MARKS[(j % n) as usize];
        j /= n;
    }
    in_place(i % PLACES, s)
}
const FIELD_SIZES: &[usize] = &[3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20, 32, 33, 50, 64, 65, 100, 128, 129, 255, 256, 257];
/// one mark many times in every field of every kind of node
fn f_tree_sized(_p: &str, _seed: u64, i: u64) -> Case {
    let j = i / PLACES;
    let m = MARKS[(j % MARKS.len() as u64) as usize];
    let j = j / MARKS.len() as u64;
    let n = FIELD_SIZES[(j % FIELD_SIZES.len() as u64) as usize];
    let s = match j / FIELD_SIZES.len() as u64 {
        0 => format!("b{}c", m.repeat(n)),
        1 => format!("b{}c", format!("{m}x").repeat(n)),
        _ => format!("b{}c", format!("{m} y\n").repeat(n)),
    };
    in_place(i % PLACES, s.trim().to_string())
}
const TREE_SIZED: u64 = PLACES * 30 * 24 * 3;
/// many children of one kind, and deep trees
fn f_tree_many(_p: &str, _seed: u64, i: u64) -> Case {
    let n = [7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 400][i as usize % 24];
    let k = i / 24;
    let s = |j: usize| ["a", "b *", "_c", "d\n- e", "f"][j % 5].to_string();
    let rec = |t: &str, f: &[(&str, V)]| {
        let mut v = vec![("t", V::s(t))];
        v.extend_from_slice(f);
        V::record(&v)
    };
    let t = |j: usize| leaf("Text", &s(j));
    let body = |f: &dyn Fn(usize) -> V| V::seq((0..n).map(f).collect());
    let para = |j: usize| rec("Paragraph", &[("body", V::seq(vec![t(j)]))]);
    let kinds = ["Italic", "Strikethrough", "CodeSpan", "Emphasis", "Text"];
    let mixed = |j: usize| if j % 2 == 0 { leaf("Text", "x") } else { leaf(kinds[j / 2 % 4], &s(j)) };
    let item = |j: usize, x: Option<V>| V::record(&[("text", V::seq(vec![t(j)])), ("nested", V::opt(x))]);
    let list = |kd: &str, lv: i64, b: V| rec("List", &[("kind", V::s(kd)), ("level", V::I(lv)), ("body", b)]);
    let anchor = |j: usize| rec("Anchor", &[("text", q(&s(j))), ("url", q(&s(j + 1)))]);
    let image = |j: usize| rec("Image", &[("alt", q(&s(j))), ("src", q(&s(j + 1)))]);
    let deep = |a: &str, b: &str| {
        let mut l: Option<V> = None;
        for lv in (0..n.min(130)).rev() {
            l = Some(list(if lv % 2 == 0 { a } else { b }, lv as i64, V::seq(vec![item(lv, l), item(lv + 1, None)])));
        }
        l.unwrap()
    };
    let b: Vec<V> = match k {
        0 => (0..n).map(para).collect(),
        1 => vec![rec("Paragraph", &[("body", body(&mixed))])],
        2 => vec![rec("Paragraph", &[("body", V::seq(vec![rec("Bold", &[("body", body(&|j| if j % 2 == 0 { leaf("Text", "x") } else { leaf(kinds[j / 2 % 2], &s(j)) }))])]))])],
        3 => vec![rec("Heading", &[("level", V::I(1 + n as i64 % 6)), ("body", body(&|j| if j % 2 == 0 { t(j) } else { anchor(j) }))])],
        4 => vec![rec("Heading", &[("level", V::I(1 + n as i64 % 6)), ("body", body(&anchor))])],
        5 => vec![rec("Images", &[("body", body(&image))])],
        6 => vec![list("UnorderedList", 0, body(&|j| item(j, None)))],
        7 => vec![list("OrderedList", 0, body(&|j| item(j, if j % 3 == 0 { Some(list("UnorderedList", 1, V::seq(vec![item(j, None)]))) } else { None })))],
        8 => vec![rec("Highlight", &[("title", V::opt(Some(q("t")))), ("icon", V::opt(None)), ("body", body(&para))])],
        9 => vec![rec("Collapsible", &[("title", q("t")), ("body", body(&para))])],
        10 => (0..n).map(|j| rec("Collapsible", &[("title", q("t")), ("body", V::seq(vec![para(j)]))])).collect(),
        11 => vec![deep("UnorderedList", "UnorderedList")],
        12 => vec![deep("UnorderedList", "OrderedList")],
        13 => {
            let mut c = para(0);
            for _ in 0..n.min(60) {
                c = rec("Collapsible", &[("title", q("t")), ("body", V::seq(vec![c, para(1)]))]);
            }
            vec![c]
        }
        14 => (0..n).map(|j| if j % 2 == 0 { rec("ThematicBreak", &[]) } else { rec("Embed", &[("kind", q(&s(j))), ("args", q(&s(j)))]) }).collect(),
        15 => (0..n).map(|j| rec("Code", &[("lang", q("l")), ("code", q(&s(j)))])).collect(),
        _ => (0..n).map(|j| if j % 2 == 0 { image(j) } else { rec("Heading", &[("level", V::I(1 + j as i64 % 6)), ("body", V::seq(vec![t(j)]))]) }).collect(),
    };
    Case::Doc(V::record(&[("meta", V::opt(None)), ("body", V::seq(b))]))
}
const TREE_MANY: u64 = 24 * 17;
/// trees whose numbers are not those of a parsed tree
fn f_tree_odd(_p: &str, _seed: u64, i: u64) -> Case {
    let n = i as i64;
    let t = |s: &str| leaf("Text", s);
    let l = [0, 1, 2, 3, 7, 17, 127, 128, 255, 256, 300, 65535, 65536, 1 << 20, (1 << 31) - 1][(i % 15) as usize];
    let rec = |t: &str, f: &[(&str, V)]| {
        let mut v = vec![("t", V::s(t))];
        v.extend_from_slice(f);
        V::record(&v)
    };
    let list = |lv: i64, x: Option<V>| rec("List", &[("kind", V::s(if lv % 2 == 0 { "OrderedList" } else { "UnorderedList" })), ("level", V::I(lv)), ("body", V::seq(vec![V::record(&[("text", V::seq(vec![t("a")])), ("nested", V::opt(x))])]))]);
    let h = rec("Heading", &[("level", V::I(n % 256)), ("body", V::seq(vec![t("h")]))]);
    Case::Doc(V::record(&[("meta", V::opt(None)), ("body", V::seq(vec![h, list(l, Some(list(n % 5, None)))]))]))
}
fn in_place(place: u64, s: String) -> Case {
    let t = q(&s);
    let x = |s: &str| q(s);
    let para = |b: Vec<V>| V::record(&[("t", V::s("Paragraph")), ("body", V::seq(b))]);
    let rec = |t: &str, f: &[(&str, V)]| {
        let mut v = vec![("t", V::s(t))];
        v.extend_from_slice(f);
        V::record(&v)
    };
    let l = |n: &str| leaf(n, &s);
    let item = |b: Vec<V>, n: Option<V>| V::record(&[("text", V::seq(b)), ("nested", V::opt(n))]);
    let list = |lv: i64, b: Vec<V>| rec("List", &[("kind", V::s("UnorderedList")), ("level", V::I(lv)), ("body", V::seq(b))]);
    let high = |t: V, i: V, b: Vec<V>| rec("Highlight", &[("title", t), ("icon", i), ("body", V::seq(b))]);
    let a = || leaf("Text", "a");
    let mut meta = V::opt(None);
    let b = match place {
        0 => para(vec![l("Text")]),
        1 => para(vec![l("Italic")]),
        2 => para(vec![l("Strikethrough")]),
        3 => para(vec![l("CodeSpan")]),
        4 => para(vec![l("Emphasis")]),
        5 => para(vec![rec("Bold", &[("body", V::seq(vec![l("Text")]))])]),
        6 => para(vec![rec("Bold", &[("body", V::seq(vec![a(), l("Italic")]))]), a()]),
        7 => para(vec![rec("Bold", &[("body", V::seq(vec![l("Strikethrough"), a()]))])]),
        8 => para(vec![rec("Anchor", &[("text", t.clone()), ("url", x("u"))])]),
        9 => para(vec![rec("Anchor", &[("text", x("l")), ("url", t.clone())]), a()]),
        10 => rec("Heading", &[("level", V::I(2)), ("body", V::seq(vec![l("Text")]))]),
        11 => rec("Heading", &[("level", V::I(1)), ("body", V::seq(vec![rec("Anchor", &[("text", t.clone()), ("url", t.clone())]), l("Text")]))]),
        12 => rec("Image", &[("alt", t.clone()), ("src", x("u"))]),
        13 => rec("Images", &[("body", V::seq(vec![rec("Image", &[("alt", x("u")), ("src", t.clone())]), rec("Image", &[("alt", t.clone()), ("src", x("v"))])]))]),
        14 => rec("Code", &[("lang", t.clone()), ("code", x("c"))]),
        15 => rec("Code", &[("lang", x("l")), ("code", t.clone())]),
        16 => rec("Embed", &[("kind", t.clone()), ("args", x("b"))]),
        17 => rec("Embed", &[("kind", x("k")), ("args", t.clone())]),
        18 => list(0, vec![item(vec![l("Text")], None), item(vec![a()], None)]),
        19 => list(0, vec![item(vec![a()], Some(list(1, vec![item(vec![l("Text")], None)])))]),
        20 => list(0, vec![item(vec![l("Text")], Some(list(1, vec![item(vec![a()], None), item(vec![l("Text")], None)])))]),
        21 => high(V::opt(Some(t.clone())), V::opt(None), vec![para(vec![a()])]),
        22 => high(V::opt(None), V::opt(Some(t.clone())), vec![para(vec![a()])]),
        23 => high(V::opt(None), V::opt(None), vec![para(vec![l("Text")]), para(vec![l("Text")])]),
        24 => rec("Collapsible", &[("title", t.clone()), ("body", V::seq(vec![para(vec![a()])]))]),
        25 => rec("Collapsible", &[("title", x("t")), ("body", V::seq(vec![para(vec![l("Text")]), list(0, vec![item(vec![l("Emphasis")], None)])]))]),
        _ => {
            meta = V::opt(Some(t.clone()));
            para(vec![a()])
        }
    };
    Case::Doc(V::record(&[("meta", meta), ("body", V::seq(vec![b, para(vec![a()])]))]))
}

/// the families of a property: (family, number of cases)
/// headings of every level there is, lists of other levels than their place has
fn f_tree_levels(_p: &str, _seed: u64, i: u64) -> Case {
    let (k, n) = (i / 256, (i % 256) as i64);
    let p = |s: &str| V::seq(vec![leaf("Text", s)]);
    let item = |s: &str, l: Option<V>| V::record(&[("text", p(s)), ("nested", V::opt(l))]);
    let list = |n: i64, k: &str, b: Vec<V>| V::record(&[("t", V::s("List")), ("kind", V::s(k)), ("level", V::I(n)), ("body", V::seq(b))]);
    let heading = |b: V| V::record(&[("t", V::s("Heading")), ("level", V::I(n)), ("body", b)]);
    let body = match k {
        0 => vec![heading(p("a"))],
        1 => vec![heading(V::seq(vec![])), heading(p(" #"))],
        2 => vec![list(n, "OrderedList", vec![item("a", None), item("b", None)])],
        3 => vec![list(0, "UnorderedList", vec![item("a", Some(list(n, "OrderedList", vec![item("b", Some(list(n + 1, "UnorderedList", vec![item("c", None)])))])))])],
        _ => vec![list(n, "UnorderedList", vec![]), V::record(&[("t", V::s("Collapsible")), ("title", q("")), ("body", V::seq(vec![heading(p("a\n")), list(n, "OrderedList", vec![item("- ", None)])]))])],
    };
    Case::Doc(V::record(&[("meta", V::opt(None)), ("body", V::seq(body))]))
}

// ---- contents of tokens ----
fn picks_alphabet() -> Exhaustive {
    Exhaustive { name: "", chunks: vec!["a", "\\", "*", " ", "\n", "é", "\\*", "**"], max: 4, ctx: PLAIN_CTX.to_vec() }
}
/// every sequence of up to three of the first four tokens of every short text
fn f_picks_ex(_p: &str, _seed: u64, i: u64) -> Case {
    let mut k = i % 85;
    let mut v = vec![];
    let mut n = 0;
    let mut span = 1;
    while k >= span {
        k -= span;
        span *= 4;
        n += 1;
    }
    for _ in 0..n {
        v.push((k % 4) as usize);
        k /= 4;
    }
    Case::Picks(picks_alphabet().get(i / 85), v)
}
/// n stands for more tokens than there are
fn some_picks(r: &mut Rng, n: usize) -> Vec<usize> {
    let a = r.below(n);
    let b = a + r.below(n - a) + 1;
    match r.below(8) {
        0 => (0..n).collect(),
        1 | 2 => (a..b).collect(),
        3 => (a..b).filter(|_| !r.one_in(6)).collect(),
        4 => {
            let k = a + r.below(b - a);
            (a..b).filter(|i| *i != k).collect()
        }
        5 => (a..b).rev().collect(),
        6 => {
            let c = r.below(n);
            (a..b).chain(c..(c + 3).min(n)).collect()
        }
        _ => (0..1 + r.below(6)).map(|_| r.below(n)).collect(),
    }
}
fn f_picks(p: &str, seed: u64, i: u64) -> Case {
    let mut r = Rng::new(seed, i, 81);
    let fs = [f_soup, f_block, f_doc, f_uni, f_esc, f_esc];
    let s = match fs[r.below(fs.len())](p, seed, i) {
        Case::Text(s) => s,
        _ => String::new(),
    };
    let n = yamd::lexer::Lexer::new(&s).count().max(1);
    let v = some_picks(&mut r, n);
    Case::Picks(s, v)
}
const PICK_SIZED: u64 = 6 * (59 + 8) * 12;
/// runs of many tokens: without a gap, and with gaps in places near both ends and in the middle
fn f_picks_sized(_p: &str, _seed: u64, i: u64) -> Case {
    let pat = ["*-", "a\\b", "é ", "\n", "\\**", "a*"][(i % 6) as usize];
    let j = (i / 6) as usize;
    let (k, j) = (j % 12, j / 12);
    let n = if j < SIZES.len() { SIZES[j] } else { [2047, 2048, 2049, 4096, 8192, 16385, 33000, 65537][(j - SIZES.len()) % 8] };
    let s = pat.repeat(n / 2 + 4);
    let m = yamd::lexer::Lexer::new(&s).count().max(1);
    let n = n.min(m);
    let v: Vec<usize> = match k {
        0 => (0..n).collect(),
        1 => (m - n..m).collect(),
        2 => (0..n).filter(|x| *x != 1).collect(),
        3 => (0..n).filter(|x| *x + 2 != n).collect(),
        4 => (0..n).filter(|x| *x != n / 2).collect(),
        5 => (0..n).map(|x| if x + 1 == n { 0 } else { x }).collect(),
        6 => (0..n).map(|x| if x == 0 { m - 1 } else { x }).collect(),
        7 => (0..n).rev().collect(),
        8 => vec![n - 1; n.min(300)],
        9 => (0..n).step_by(2).collect(),
        10 => (0..n.min(4)).chain(m - n.min(4)..m).collect(),
        _ => (0..n).filter(|x| x % 64 != 63).collect(),
    };
    Case::Picks(s, v)
}
fn f_picks_char(p: &str, seed: u64, i: u64) -> Case {
    let c = characters()[(i % characters().len() as u64) as usize];
    let mut r = Rng::new(seed, i, 82);
    let _ = p;
    let s = format!("{c}*\\{c}{c}- {c}\n\n{c}");
    let n = yamd::lexer::Lexer::new(&s).count().max(1);
    let v = some_picks(&mut r, n);
    Case::Picks(s, v)
}

pub fn families(p: &str, tier: &str) -> Vec<Fam> {
    let deep_tier = tier == "thorough";
    // how many cases fit a run depends on what one costs
    let unit = match p {
        "C16" | "C20" | "C21" => 1,
        "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C17" => 2,
        "C09" | "C27" | "C28" | "C30" | "C33" => 3,
        _ => 6,
    };
    let k: u64 = unit * if deep_tier { 20 } else { 1 };
    let mut v: Vec<Fam> = vec![];
    match p {
        "C05" => {
            let n = 2 * NODES.len() as u64 + 1;
            v.push(Fam::F("every event stream of up to three events", 1 + n + n * n + n * n * n, f_ops_ex));
            v.push(Fam::F("every nesting and mis-nesting of three nodes", 4 * 24 * 24 * 24, f_ops_pairs));
            v.push(Fam::F("streams of the containment grammar", 20000 * k, f_ops_good));
            v.push(Fam::F("streams of the containment grammar, changed", 40000 * k, f_ops_mut));
            v.push(Fam::F("random streams", 60000 * k, f_ops_any));
            v.push(Fam::F("one node in itself", 96 * 11, f_ops_nested));
            v.push(Fam::F("events of texts, changed", 20000 * k, f_ops_text));
            v.push(Fam::F("events of one piece repeated, changed", 2 * SIZED_PATS * SIZES.len() as u64, f_ops_sized));
            v.push(Fam::F("events of deeply nested texts, changed", 2 * ABYSS, f_ops_abyss));
            return v;
        }
        "C19" => {
            v.push(Fam::F("every text of up to three marks in every field of every node", (30 + 900 + if deep_tier { 27000 } else { 3000 }) * 27, f_tree_ex));
            v.push(Fam::F("one mark repeated in every field of every node", TREE_SIZED, f_tree_sized));
            v.push(Fam::F("many children, deep trees", TREE_MANY, f_tree_many));
            v.push(Fam::F("every character in every field", 2 * characters().len() as u64, f_char_tree));
            v.push(Fam::F("words people write in every field", 2 * REAL.len() as u64, f_real_tree));
            v.push(Fam::F("random trees", 60000 * k, f_tree));
            return v;
        }
        "C25" => {
            v.push(Fam::F("every sequence of up to three of the first four tokens of every short text", picks_alphabet().count() * 85, f_picks_ex));
            v.push(Fam::F("random tokens of random texts", 120000 * k, f_picks));
            v.push(Fam::F("many tokens", PICK_SIZED, f_picks_sized));
            v.push(Fam::F("every character", characters().len() as u64, f_picks_char));
            return v;
        }
        "C22" | "C28" => {
            let n = PARTS.len() as u64;
            v.push(Fam::F("every pair of short blocks", n * n, f_pair_ex));
            v.push(Fam::F("every triple of short blocks, split both ways", 2 * n * n * n / if deep_tier { 1 } else { 4 }, f_pair_ex3));
            v.push(Fam::F("random pairs of texts", 60000 * k, f_pair));
            v.push(Fam::F("pairs with a long text", 2 * SIZED_PATS * SIZES.len() as u64, f_pair_sized));
            v.push(Fam::F("every character", 2 * characters().len() as u64, f_char_pair));
            v.push(Fam::F("pairs with words people write", REALS, f_real_pair));
            v.push(Fam::F("pairs with a text as long as two bytes count or of thousands of pieces", 2 * (HUGE.len() + MANY.len()) as u64, f_pair_huge));
            return v;
        }
        "C04" => {
            v.push(Fam::F("hand-built streams of the containment grammar", 30000 * k, f_ops_good));
            v.push(Fam::F("events of texts, changed", 10000 * k, f_ops_text));
        }
        "C09" => {
            v.push(Fam::F("fully escaped texts", 20000 * k, f_plain));
            v.push(Fam::F("every character, escaped", characters().len() as u64, f_char_plain));
            v.push(Fam::F("words people write, escaped", REAL.len() as u64, f_real_plain));
        }
        "C26" => {
            v.push(Fam::F("every text of up to three marks in every field of every node", (30 + 900 + if deep_tier { 27000 } else { 1500 }) * 27, f_tree_ex));
            v.push(Fam::F("one mark repeated in every field of every node", TREE_SIZED, f_tree_sized));
            v.push(Fam::F("many children, deep trees", TREE_MANY, f_tree_many));
            v.push(Fam::F("every level of headings and lists", 5 * 256, f_tree_levels));
            v.push(Fam::F("every character in every field", 2 * characters().len() as u64, f_char_tree));
            v.push(Fam::F("words people write in every field", 2 * REAL.len() as u64, f_real_tree));
            v.push(Fam::F("random trees", 40000 * k, f_tree));
        }
        "C20" => {
            v.push(Fam::F("random trees", 15000 * k, f_tree));
            v.push(Fam::F("many children, deep trees", TREE_MANY, f_tree_many));
            v.push(Fam::F("trees with other numbers", 15 * 256, f_tree_odd));
            v.push(Fam::F("every character in every field", 2 * characters().len() as u64, f_char_tree));
            v.push(Fam::F("words people write in every field", 2 * REAL.len() as u64, f_real_tree));
        }
        _ => {}
    }
    for e in alphabets(p, deep_tier) {
        v.push(Fam::Ex(e));
    }
    v.push(Fam::F("every prefix and suffix of the corpus", corpus_count(), f_corpus));
    v.push(Fam::F("random sequences of chunks", 25000 * k, f_soup));
    v.push(Fam::F("random blocks", 25000 * k, f_block));
    v.push(Fam::F("random documents", 15000 * k, f_doc));
    if !measured().is_empty() {
        v.push(Fam::F("pieces of the documents in benches", 5000 * k, f_measured));
        v.push(Fam::F("the whole documents in benches", measured().len() as u64, f_measured_whole));
    }
    v.push(Fam::F("random documents, changed", 15000 * k, f_mut));
    v.push(Fam::F("random documents with other characters", 8000 * k, f_uni));
    v.push(Fam::F("random documents with random escapes", 8000 * k, f_esc));
    v.push(Fam::F("one piece repeated", SIZED_PATS * SIZES.len() as u64 * if deep_tier { 3 } else { 1 }, f_sized));
    v.push(Fam::F("deep nesting", 8 * 62, f_deep));
    v.push(Fam::F("words people write, in every kind of place", REALS, f_real));
    v.push(Fam::F("several words people write", 3000 * k, f_real2));
    v.push(Fam::F("every character in every kind of place", characters().len() as u64 * char_places(p).len() as u64, f_char));
    v.push(Fam::F("nesting deeper than a byte counts", ABYSS, f_abyss));
    v.push(Fam::F("constructs of many tokens", FARS, f_far));
    v.push(Fam::F("thousands of pieces", (MANY.len() * MANY_N.len()) as u64, f_many));
    v.push(Fam::F("pieces repeated as often as two bytes count", HUGE.len() as u64 * 3, f_huge));
    v
}
