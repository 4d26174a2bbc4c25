//! Lexemes of a generated document and their layout (white space, comments) with exact positions.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TK {
    Name,
    Label,
    Num,
    Hex,
    Str,
    Ref,
    Dir,
    Slash,
    Punct,
    Expr,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: TK,
    pub s: String,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Pos {
    pub line: u32,
    pub col: u32,
}

impl Pos {
    pub fn new(line: u32, col: u32) -> Pos {
        Pos { line, col }
    }
}

impl std::fmt::Display for Pos {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}:{}", self.line, self.col)
    }
}

/// The LSP position (line, UTF-16 column) after `text` when `text` starts at `pos`.
pub fn advance(pos: Pos, text: &str) -> Pos {
    let mut p = pos;
    for ch in text.chars() {
        if ch == '\n' {
            p.line += 1;
            p.col = 0;
        } else {
            p.col += ch.len_utf16() as u32;
        }
    }
    p
}

#[derive(Clone, Debug, Default)]
pub struct Laid {
    pub text: String,
    /// byte range of every token
    pub b: Vec<(usize, usize)>,
    /// position range of every token
    pub p: Vec<(Pos, Pos)>,
    pub end: Option<Pos>,
    pub comments: usize,
    pub nonascii: bool,
}

impl Laid {
    pub fn start(&self, t: usize) -> Pos {
        self.p[t].0
    }
    pub fn end(&self, t: usize) -> Pos {
        self.p[t].1
    }
    pub fn eof(&self) -> Pos {
        self.end.unwrap()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Shape {
    Compact,
    Pretty,
    Wild,
}

#[derive(Clone, Debug)]
pub struct Style {
    pub shape: Shape,
    pub crlf: bool,
    pub comments: usize,
    pub nonascii: bool,
    pub tabs: bool,
    /// carriage returns on their own
    pub cr: bool,
    /// one gap is larger than 2^16
    pub huge: bool,
}

impl Style {
    pub fn random(r: &mut Rng) -> Style {
        let shape = *r.pick(&[Shape::Compact, Shape::Pretty, Shape::Pretty, Shape::Wild]);
        Style {
            shape,
            crlf: r.chance(20),
            comments: *r.pick(&[0, 3, 10, 30]),
            nonascii: r.chance(50),
            tabs: r.chance(50),
            cr: false,
            huge: r.below(400) == 0,
        }
    }
    pub fn plain() -> Style {
        Style {
            shape: Shape::Pretty,
            crlf: false,
            comments: 0,
            nonascii: false,
            tabs: true,
            cr: false,
            huge: false,
        }
    }
}

fn is_word(c: char) -> bool {
    c.is_ascii_alphanumeric() || ",._+?#-@:".contains(c)
}

/// May the two tokens follow each other without anything in between?
pub fn glue_ok(a: &Tok, b: &Tok) -> bool {
    let first = b.s.chars().next().unwrap_or(' ');
    match a.k {
        TK::Name | TK::Num | TK::Hex | TK::Ref => !is_word(first) && !(a.s == "&" && first == '{'),
        TK::Slash => first == '{',
        TK::Label | TK::Str | TK::Dir | TK::Punct | TK::Expr => true,
    }
}

pub const WILD_CHARS: &[&str] = &[
    "é", "ß", "漢字", "😀", "𝄞", "—", "ü", "ñ", "🚀", "Ω", "\u{7f}", "\u{a0}", "\u{2028}", "a\u{301}",
    // the borders of the planes
    "\u{80}", "\u{7ff}", "\u{800}", "\u{d7ff}", "\u{e000}", "\u{fffd}", "\u{10000}", "\u{1ffff}", "\u{20000}", "\u{e0001}",
    "\u{f0000}", "\u{100000}", "\u{10fffd}",
];

pub fn comment_body(r: &mut Rng, block: bool, st: &Style, nl: &str) -> String {
    let pieces: &[&'static str] = &[
        " ", "text", "/dts-v1/;", "\"", "'", "{", "}", ";", "*", "**", "//", "/*", "&ref", "\\", "\t", "<1 2>", "#",
        "/", "=", "a: b", "/include/ \"x\"", "&{", "(", "[",
    ];
    let mut s = String::new();
    for _ in 0..r.below(6) {
        if st.cr && r.chance(20) {
            s.push('\r');
        } else if st.nonascii && r.chance(30) {
            s.push_str(r.pick_str(WILD_CHARS));
        } else if block && r.chance(15) {
            s.push_str(nl);
        } else {
            s.push_str(r.pick_str(pieces));
        }
    }
    if block {
        while s.contains("*/") {
            s = s.replace("*/", "* /");
        }
    }
    s
}

/// White space and comments. `tight`: the previous token is a single slash.
fn trivia(r: &mut Rng, st: &Style, must: bool, tight: bool, last: bool, comments: &mut usize) -> String {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let mut s = String::new();
    let n = match st.shape {
        Shape::Compact => 0,
        Shape::Pretty => r.below(2),
        Shape::Wild => r.below(4),
    };
    let blank = |r: &mut Rng| -> String {
        match r.below(10) {
            0..=4 => " ".to_string(),
            5 => "\t".to_string(),
            6 => "  ".to_string(),
            7 => "\x0c".to_string(),
            8 if st.cr => "\r".to_string(),
            _ => nl.to_string(),
        }
    };
    if st.shape == Shape::Wild {
        for _ in 0..n {
            s.push_str(&blank(r));
        }
    }
    let mut k = 0;
    while k < 3 && r.chance(st.comments) {
        k += 1;
        *comments += 1;
        if s.is_empty() && tight {
            s.push(' ');
        }
        if r.chance(50) {
            s.push_str("/*");
            s.push_str(&comment_body(r, true, st, nl));
            s.push_str("*/");
        } else {
            s.push_str("//");
            s.push_str(&comment_body(r, false, st, nl));
            if last && r.chance(30) {
                return s;
            }
            s.push_str(nl);
        }
        if r.chance(50) {
            s.push_str(&blank(r));
        }
    }
    if s.is_empty() && must {
        s.push_str(&if st.shape == Shape::Wild {
            blank(r)
        } else {
            " ".to_string()
        });
    }
    s
}

/// White space or a comment of more than 2^16 lines or columns
fn huge_gap(r: &mut Rng, st: &Style) -> String {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let n = r.range(65_530, 66_000);
    match r.below(5) {
        0 => nl.repeat(n),
        1 => " ".repeat(n),
        2 => format!(" /*{}*/", nl.repeat(n)),
        3 => format!(" /*{}*/", r.pick_str(&["-", "*", "/ ", "é", "😀"]).repeat(n)),
        _ => format!(" //{}{nl}", r.pick_str(&["-", "*", "/", "é", "😀"]).repeat(n)),
    }
}

/// Lays out the tokens. `no_gap`: after these token indices nothing is inserted.
pub fn layout(toks: &[Tok], st: &Style, r: &mut Rng) -> Laid {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let mut out = Laid::default();
    let mut pos = Pos::new(0, 0);
    let mut indent = 0usize;
    let push = |out: &mut Laid, pos: &mut Pos, s: &str| {
        out.text.push_str(s);
        *pos = advance(*pos, s);
    };
    let mut comments = 0;
    let lead = trivia(r, st, false, false, false, &mut comments);
    let huge = st.huge.then(|| r.below(toks.len().max(1)));
    push(&mut out, &mut pos, &lead);
    for (i, t) in toks.iter().enumerate() {
        let b0 = out.text.len();
        let p0 = pos;
        push(&mut out, &mut pos, &t.s);
        out.b.push((b0, out.text.len()));
        out.p.push((p0, pos));
        let Some(next) = toks.get(i + 1) else {
            break;
        };
        let tight = t.k == TK::Slash;
        let mut gap = String::new();
        if st.shape == Shape::Pretty {
            if t.s == "{" {
                indent += 1;
            }
            if next.s == "}" {
                indent = indent.saturating_sub(1);
            }
            let unit = if st.tabs { "\t" } else { "    " };
            if t.s == "{" || t.s == ";" || (next.s == "}" && t.s != "}") {
                if st.comments > 0 && r.chance(st.comments) {
                    comments += 1;
                    gap.push_str(" //");
                    gap.push_str(&comment_body(r, false, st, nl));
                }
                gap.push_str(nl);
                if r.chance(10) {
                    gap.push_str(nl);
                }
                gap.push_str(&unit.repeat(indent));
            } else if next.s == ";" || next.s == "," || t.s == "<" || next.s == ">" || t.s == "[" || next.s == "]" {
                if !glue_ok(t, next) {
                    gap.push(' ');
                }
            } else {
                gap.push(' ');
            }
            if st.comments > 0 && r.chance(st.comments) && r.chance(30) {
                let mut extra = trivia(r, st, false, tight && gap.is_empty(), false, &mut comments);
                std::mem::swap(&mut gap, &mut extra);
                gap.push_str(&extra);
                if tight && gap.starts_with('/') {
                    gap.insert(0, ' ');
                }
            }
        } else {
            gap = trivia(r, st, !glue_ok(t, next), tight, false, &mut comments);
        }
        if gap.is_empty() && !glue_ok(t, next) {
            gap.push(' ');
        }
        if huge == Some(i) {
            gap.push_str(&huge_gap(r, st));
        }
        push(&mut out, &mut pos, &gap);
    }
    let mut tail = trivia(r, st, false, true, true, &mut comments);
    if st.shape == Shape::Pretty || r.chance(50) {
        tail = if tail.starts_with("//") && !tail.contains('\n') {
            tail
        } else {
            format!("{nl}{tail}")
        };
    }
    push(&mut out, &mut pos, &tail);
    out.end = Some(pos);
    out.comments = comments;
    out.nonascii = !out.text.is_ascii();
    out
}
