//! The model of a document: what the text that is generated means.
use crate::toks::{Laid, Pos, Tok};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ft {
    Dts,
    Dtsi,
    Dtso,
    Overlay,
    Other,
}

impl Ft {
    pub fn ext(self) -> &'static str {
        match self {
            Ft::Dts => "dts",
            Ft::Dtsi => "dtsi",
            Ft::Dtso => "dtso",
            Ft::Overlay => "overlay",
            Ft::Other => "txt",
        }
    }

    /// A file name with an ending of this type
    pub fn named(self, stem: &str, n: usize) -> String {
        let ext = match self {
            // Only the exact endings are known
            Ft::Other => match ["txt", "DTS", "Dts", "dts2", "DTSI", "dtb", "", "OVERLAY", "dts~", "DTSO", "txt", "d", "dts.bak"][n % 13] {
                "" => return stem.to_string(),
                e => e,
            },
            _ => self.ext(),
        };
        format!("{stem}.{ext}")
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Decl {
    pub file: usize,
    pub tok: usize,
    pub base: String,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum RefM {
    Label(String),
    Path(Vec<String>),
}

impl RefM {
    pub fn text(&self) -> String {
        match self {
            RefM::Label(l) => format!("&{l}"),
            RefM::Path(els) if els.is_empty() => "&{/}".to_string(),
            RefM::Path(els) => format!("&{{/{}}}", els.join("/")),
        }
    }
}

#[derive(Clone, Debug)]
pub struct RefUse {
    pub tok: usize,
    pub r: RefM,
    pub targets: Vec<Decl>,
}

#[derive(Clone, Debug)]
pub struct LabelM {
    pub text: String,
    pub tok: usize,
}

#[derive(Clone, Debug)]
pub enum CellM {
    Num(u64, usize),
    Ref(usize),
    Expr,
}

#[derive(Clone, Debug)]
pub enum ValM {
    Str { s: String, tok: usize, exact: bool },
    Cells { open: usize, cells: Vec<CellM>, close: usize },
    Ref(usize),
    Bytes { open: usize, groups: Vec<(Vec<u8>, usize)>, close: usize },
}

#[derive(Clone, Debug)]
pub struct PropM {
    pub label: Option<LabelM>,
    pub name: String,
    pub name_tok: usize,
    pub vals: Vec<ValM>,
    /// semicolon
    pub end: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct BodyM {
    pub items: Vec<ItemM>,
    pub open: usize,
    pub close: usize,
    pub end: Option<usize>,
}

impl BodyM {
    pub fn last(&self) -> usize {
        self.end.unwrap_or(self.close)
    }
}

#[derive(Clone, Debug)]
pub struct NodeM {
    pub omit: Option<usize>,
    pub label: Option<LabelM>,
    pub base: String,
    pub unit: Option<String>,
    pub name_tok: usize,
    pub body: BodyM,
}

#[derive(Clone, Debug)]
pub enum ItemM {
    Prop(PropM),
    Node(NodeM),
    DelNode { kw: usize, name: String, tok: usize },
    DelProp { kw: usize, name: String, tok: usize },
}

#[derive(Clone, Debug)]
pub enum TopM {
    Header { tok: usize },
    Plugin { tok: usize },
    Memreserve { addr: u64, len: u64 },
    Include { kw: usize, tok: usize, file: String },
    Del { kw: usize, r: usize },
    Omit { kw: usize, r: usize },
    Root(NodeM),
    RefNode { r: usize, body: BodyM },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum At {
    /// from the start of the first to the end of the second token
    Toks(usize, usize),
    /// the character at a byte offset within a token
    Char(usize, usize),
    /// right after a token
    After(usize),
    /// start of the file
    Origin,
}

#[derive(Clone, Debug)]
pub struct Expect {
    pub code: &'static str,
    pub at: At,
    pub msg: Option<String>,
}

pub fn is_warning(code: &str) -> bool {
    matches!(code, "name_too_long" | "non_string_in_compatible" | "duplicate_directive")
}

#[derive(Clone, Debug, Default)]
pub struct Scope {
    pub labels: BTreeMap<String, (Option<Vec<String>>, Decl)>,
    pub paths: BTreeMap<Vec<String>, BTreeSet<Decl>>,
    /// labels of properties
    pub props: BTreeSet<String>,
}

impl Scope {
    pub fn merge(&mut self, other: &Scope) {
        for (k, v) in &other.labels {
            self.labels.insert(k.clone(), v.clone());
        }
        self.props.extend(other.props.iter().cloned());
        for (k, v) in &other.paths {
            self.paths.entry(k.clone()).or_default().extend(v.iter().cloned());
        }
    }
}

#[derive(Clone, Debug)]
pub struct IncUse {
    pub kw: usize,
    pub tok: usize,
    pub target: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct FileM {
    pub ft: Ft,
    pub tops: Vec<TopM>,
    pub toks: Vec<Tok>,
    pub refs: Vec<RefUse>,
    pub expects: Vec<Expect>,
    pub includes: Vec<IncUse>,
    pub scope: Scope,
    pub laid: Laid,
    pub stats: BTreeMap<&'static str, u64>,
}

impl FileM {
    pub fn at(&self, at: At) -> (Pos, Pos) {
        match at {
            At::Toks(a, b) => (self.laid.start(a), self.laid.end(b)),
            At::Char(t, off) => {
                let s = &self.toks[t].s;
                let p = crate::toks::advance(self.laid.start(t), &s[..off]);
                let ch = s[off..].chars().next().unwrap_or(' ');
                (p, Pos::new(p.line, p.col + ch.len_utf16() as u32))
            }
            At::After(t) => (self.laid.end(t), self.laid.end(t)),
            At::Origin => (Pos::new(0, 0), Pos::new(0, 0)),
        }
    }

    pub fn span_ok(&self, at: At, got: (Pos, Pos)) -> bool {
        let want = self.at(at);
        match at {
            At::Toks(..) => want == got,
            At::Char(..) => {
                want.0 == got.0 && got.1 > got.0 && got.1.line == got.0.line && got.1 <= Pos::new(want.1.line, want.1.col)
            }
            At::After(..) | At::Origin => {
                want.0 == got.0 && got.1.line == got.0.line && got.1.col >= got.0.col && got.1.col <= got.0.col + 1
            }
        }
    }

    pub fn has_error(&self) -> bool {
        self.expects.iter().any(|e| !is_warning(e.code))
    }

    pub fn ref_span(&self, r: usize) -> (Pos, Pos) {
        let t = self.refs[r].tok;
        (self.laid.start(t), self.laid.end(t))
    }
}
