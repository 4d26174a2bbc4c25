//! Generator of device trees together with their meaning.
use crate::model::*;
use crate::rng::Rng;
use crate::toks::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_tops: usize,
    pub max_items: usize,
    pub max_depth: usize,
    /// one of this many documents is nested much deeper
    pub spines: usize,
    /// nothing more is nested after that many lexemes
    pub budget: usize,
    /// only names that start with a letter and no labels at the start of items
    pub tame: bool,
    /// percentage of reference values that cannot be resolved
    pub unresolved: usize,
    pub header: bool,
    pub plugin: bool,
    pub refs: bool,
    pub multiline_strings: bool,
    /// only changes what is not known here
    pub fragment: bool,
    // percentages for injected faults
    pub f_name: usize,
    pub f_num: usize,
    pub f_sem: usize,
    pub f_semi: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            max_tops: 6,
            max_items: 5,
            max_depth: 4,
            spines: 150,
            budget: 400,
            tame: false,
            unresolved: 0,
            header: true,
            plugin: false,
            refs: true,
            multiline_strings: true,
            fragment: false,
            f_name: 0,
            f_num: 0,
            f_sem: 0,
            f_semi: 0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct IncSpec {
    /// as written in the file
    pub spelling: String,
    pub target: Option<usize>,
    pub exports: Scope,
}

const LETTERS: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const NODE_CHARS: &str = "abcxyzABCXYZ0189,._+-";
const PROP_CHARS: &str = "abcxyzABCXYZ0189,._+?#-";
const LABEL_CHARS: &str = "abcxyzABCXYZ0189_";
const COMMON_NODES: &[&str] = &[
    "cpus", "cpu", "memory", "soc", "uart", "serial", "i2c", "spi", "gpio", "aliases", "chosen", "interrupt-controller",
    "timer", "clk", "l2-cache", "dma", "partition", "port", "endpoint", "node", "a", "b",
];
const COMMON_PROPS: &[&str] = &[
    "reg", "status", "compatible", "model", "#address-cells", "#size-cells", "ranges", "interrupts", "clocks", "phandle",
    "linux,phandle", "device_type", "interrupt-parent", "dma-coherent", "x", "gpio-controller", "#clock-cells",
    "regulator-min-microvolt",
];

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub cfg: Cfg,
    pub file: usize,
    pub ft: Ft,
    toks: Vec<Tok>,
    refs: Vec<RefUse>,
    /// references whose target is chosen at the end of the file
    pending: Vec<usize>,
    expects: Vec<Expect>,
    includes: Vec<IncUse>,
    scope: Scope,
    used_labels: &'a mut BTreeSet<String>,
    /// paths of nodes that may be deleted, and of nodes that do not exist
    avoid: BTreeSet<Vec<String>>,
    /// victims that can be deleted: reference
    deletable: Vec<(RefM, Decl)>,
    /// A semicolon after a property value is missing
    dangling: bool,
    /// nodes are nested that deep (0: as they come)
    spine: usize,
    uniq: usize,
    stats: BTreeMap<&'static str, u64>,
}

pub fn number(v: u64, r: &mut Rng) -> String {
    match r.below(8) {
        0..=2 => format!("{v}"),
        3 => format!("0x{v:x}"),
        4 => format!("0x{v:X}"),
        5 => format!("0X{v:x}"),
        6 => format!("0x{}{v:x}", "0".repeat(r.below(4))),
        _ => format!("0{}{v:o}", "0".repeat(r.below(2))),
    }
}

pub fn rand_bits(bits: u32, r: &mut Rng) -> u64 {
    let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    match r.below(10) {
        0 => 0,
        1 => max,
        2 => max - 1,
        3 => max / 2 + 1,
        // around a power of two
        8 | 9 => {
            let p = 1u64 << r.below(bits as usize);
            match r.below(4) {
                0 => p,
                1 => p - 1,
                2 => (p + 1) & max,
                _ => p.wrapping_add(r.next() & 0xff) & max,
            }
        }
        4 => r.next() & 7,
        5 => r.next() & 0xff & max,
        _ => r.next() & max,
    }
}

/// A number literal that cannot be represented with that many bits.
pub fn bad_number(bits: u32, r: &mut Rng) -> String {
    let over: u128 = 1u128 << bits;
    let v = match r.below(8) {
        0 => over << r.below(128 - bits as usize),
        1 => over * r.range(2, 20) as u128 + (r.next() % 3) as u128,
        2 => u128::MAX - (r.next() % 2) as u128,
        _ => over + (r.next() % 300) as u128 * r.below(2) as u128,
    };
    match r.below(10) {
        0 => format!("{v}"),
        1 => format!("0x{v:x}"),
        2 => format!("0{v:o}"),
        3 => "0x".to_string(),
        4 => format!("0x{}g{}", r.below(9), r.below(9)),
        5 => format!("0{}8", r.below(8)),
        6 => format!("{}z{}", r.range(1, 9), r.below(9)),
        7 => format!("0{}", r.range(8, 9)),
        8 => {
            // more than any integer of the machine, in all bases
            let n = r.range(40, 90);
            let (prefix, digits) = *r.pick(&[("", "123456789"), ("0x", "123456789abcdef"), ("01", "01234567")]);
            let mut s = prefix.to_string();
            s.push(r.pick_char(&digits[..digits.len().min(7)].replace('0', "1")));
            while s.len() < n {
                s.push(r.pick_char(digits));
            }
            s
        }
        _ => format!("{}a", r.range(1, 12)),
    }
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, cfg: Cfg, file: usize, ft: Ft, used_labels: &'a mut BTreeSet<String>) -> Gen<'a> {
        Gen {
            r,
            cfg,
            file,
            ft,
            toks: vec![],
            refs: vec![],
            pending: vec![],
            expects: vec![],
            includes: vec![],
            scope: Scope::default(),
            used_labels,
            avoid: BTreeSet::new(),
            deletable: vec![],
            dangling: false,
            spine: 0,
            uniq: 0,
            stats: BTreeMap::new(),
        }
    }

    fn stat(&mut self, what: &'static str) {
        *self.stats.entry(what).or_default() += 1;
    }

    fn tok(&mut self, k: TK, s: impl Into<String>) -> usize {
        let s = s.into();
        if matches!(s.as_str(), ";" | "{") && k == TK::Punct {
            self.dangling = false;
        }
        self.toks.push(Tok { k, s });
        self.toks.len() - 1
    }

    fn punct(&mut self, s: &str) -> usize {
        self.tok(TK::Punct, s)
    }

    fn expect(&mut self, code: &'static str, at: At) {
        self.expects.push(Expect { code, at, msg: None });
    }

    fn semi(&mut self, after_value: bool) -> Option<usize> {
        if self.r.chance(self.cfg.f_semi) {
            let last = self.toks.len() - 1;
            self.expects.push(Expect {
                code: "expected",
                at: At::After(last),
                msg: Some("Expected ';'".to_string()),
            });
            if after_value {
                self.dangling = true;
            }
            self.stat("missing semicolon");
            None
        } else {
            Some(self.punct(";"))
        }
    }

    // --- names ---

    fn rand_name(&mut self, first: &str, chars: &str, max: usize) -> String {
        let n = match self.r.below(12) {
            0 => max,
            1 => max - 1,
            2 => 1,
            _ => self.r.range(1, 9),
        };
        let mut s = String::new();
        s.push(self.r.pick_char(first));
        while s.len() < n {
            s.push(self.r.pick_char(chars));
        }
        s
    }

    /// A name that is hardly different
    fn similar(&mut self, name: &str) -> String {
        let mut s: Vec<char> = name.chars().collect();
        let i = self.r.below(s.len());
        match self.r.below(5) {
            0 if s.len() < 31 => s.push(self.r.pick_char("0aA_")),
            1 if s.len() > 1 => {
                s.pop();
            }
            2 if s.len() < 31 => s.insert(i, s[i]),
            3 => s.iter_mut().for_each(|c| *c = c.to_ascii_lowercase()),
            _ => {
                let c = s[i];
                s[i] = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
            }
        }
        s.into_iter().collect()
    }

    pub fn fresh_label(&mut self) -> String {
        loop {
            let l = if self.r.chance(15) && !self.used_labels.is_empty() {
                let i = self.r.below(self.used_labels.len());
                let known = self.used_labels.iter().nth(i).unwrap().clone();
                // Illegal ones are used, too
                let legal = known.len() <= 31
                    && known.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
                    && known.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
                if !legal {
                    continue;
                }
                self.similar(&known)
            } else {
                self.rand_name("abcdefgXYZ_", LABEL_CHARS, 31)
            };
            if self.used_labels.insert(l.clone()) {
                return l;
            }
        }
    }

    fn node_name(&mut self) -> (String, Option<String>) {
        let base = if self.r.chance(50) {
            self.r.pick_str(COMMON_NODES).to_string()
        } else if self.r.chance(3) {
            return ("__symbols__".to_string(), None);
        } else {
            self.rand_name(LETTERS, NODE_CHARS, 31)
        };
        let unit = if self.r.chance(40) {
            Some(if self.r.chance(60) {
                format!("{:x}", self.r.next() & 0xffff_ffff >> (self.r.below(8) * 4))
            } else {
                self.rand_name(NODE_CHARS, NODE_CHARS, 31)
            })
        } else {
            None
        };
        (base, unit)
    }

    fn prop_name(&mut self) -> String {
        loop {
            let name = if self.r.chance(50) {
                self.r.pick_str(COMMON_PROPS).to_string()
            } else if self.cfg.tame && self.dangling {
                self.rand_name(LETTERS, PROP_CHARS, 31)
            } else {
                self.rand_name("abcxyzABCXYZ,._+-#?", PROP_CHARS, 31)
            };
            if self.cfg.tame && self.dangling && !name.starts_with(|c: char| c.is_ascii_alphabetic()) {
                continue;
            }
            // properties of that name may only contain strings
            return name;
        }
    }

    /// A length that is not allowed
    fn too_long(&mut self) -> usize {
        if self.r.chance(70) {
            self.r.range(32, 40)
        } else {
            *self.r.pick(&[62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 260, 287, 288, 512, 520])
        }
    }

    /// Makes the name illegal. Returns the text and what is expected (byte offset of the character).
    fn spoil(&mut self, good: &str, illegal: &str, may_start: bool) -> (String, &'static str, Option<usize>) {
        if self.r.chance(35) {
            let mut s = good.to_string();
            let n = self.too_long();
            while s.len() < n {
                s.push(self.r.pick_char("abz09_"));
            }
            (s, "name_too_long", None)
        } else {
            let mut s = good.to_string();
            let n = s.len();
            let at = if may_start { self.r.range(0, n) } else { self.r.range(1, n) };
            s.insert(at, self.r.pick_char(illegal));
            if self.r.chance(25) {
                let end = s.len();
                s.insert(end, self.r.pick_char(illegal));
            }
            // Names that are illegal in multiple ways
            if self.r.chance(20) {
                while s.len() < 34 {
                    s.push('q');
                }
            }
            (s, "illegal_char", Some(at))
        }
    }

    fn emit_name_expect(&mut self, tok: usize, off: usize, code: &'static str, ch: Option<usize>) {
        self.stat(match code {
            "illegal_char" => "illegal char",
            "name_too_long" => "name too long",
            "illegal_start" => "illegal start",
            _ => "empty name",
        });
        let at = match ch {
            Some(c) => At::Char(tok, off + c),
            None => At::Toks(tok, tok),
        };
        self.expect(code, at);
    }

    fn label_decl(&mut self, text: String) -> LabelM {
        if !self.cfg.tame && self.r.chance(self.cfg.f_name) {
            let (bad, code, ch) = self.spoil(&text, ",.+?#-", true);
            let tok = self.tok(TK::Label, format!("{bad}:"));
            self.emit_name_expect(tok, 0, code, ch);
            self.used_labels.insert(bad.clone());
            return LabelM { text: bad, tok };
        }
        let tok = self.tok(TK::Label, format!("{text}:"));
        LabelM { text, tok }
    }

    /// Emits the token of a node name
    fn node_name_tok(&mut self, base: String, unit: Option<String>) -> (String, Option<String>, usize) {
        let (mut base, mut unit) = (base, unit);
        let mut pending: Vec<(usize, &'static str, Option<usize>)> = vec![];
        if self.r.chance(self.cfg.f_name) {
            if self.r.chance(25) && !self.cfg.tame {
                if self.r.chance(25) {
                    // Nearly the only name that may start with an underscore
                    base = self
                        .r
                        .pick_str(&["__overlay__", "__symbols", "__symbols__x", "_symbols__", "__SYMBOLS__", "__", "_", "___symbols__", "__fixups__"])
                        .to_string();
                } else {
                    let ch = self.r.pick_char(",._+-");
                    base = format!("{ch}{base}");
                    base.truncate(31);
                }
                pending.push((0, "illegal_start", None));
            } else {
                let (b, code, ch) = self.spoil(&base, "?#", !self.cfg.tame);
                base = b;
                pending.push((0, code, ch));
            }
        }
        if unit.is_some() && self.r.chance(self.cfg.f_name) {
            let off = base.len() + 1;
            if self.r.chance(20) {
                unit = Some(String::new());
                pending.push((off, "expected_name", None));
            } else {
                let (u, code, ch) = self.spoil(unit.as_ref().unwrap(), "?#", true);
                unit = Some(u);
                pending.push((off, code, ch));
            }
        }
        let text = match &unit {
            Some(u) => format!("{base}@{u}"),
            None => base.clone(),
        };
        let tok = self.tok(TK::Name, text);
        for (off, code, ch) in pending {
            self.emit_name_expect(tok, off, code, ch);
        }
        (base, unit, tok)
    }

    fn prop_name_tok(&mut self, name: String) -> (String, usize) {
        if name != "compatible" && self.r.chance(self.cfg.f_name) {
            let (bad, code, ch) = if self.r.chance(60) {
                // There is only one '@', which is not the first character
                let mut s = name.clone();
                let at = self.r.range(1, s.len());
                s.insert(at, '@');
                (s, "illegal_char", Some(at))
            } else {
                let mut s = name.clone();
                let n = self.too_long();
                while s.len() < n {
                    s.push(self.r.pick_char("abz09_#?,"));
                }
                (s, "name_too_long", None)
            };
            let tok = self.tok(TK::Name, bad.clone());
            self.emit_name_expect(tok, 0, code, ch);
            (bad, tok)
        } else {
            let tok = self.tok(TK::Name, name.clone());
            (name, tok)
        }
    }

    // --- references ---

    fn declare(&mut self, path: Option<&Vec<String>>, label: Option<&String>, tok: usize, base: &str, victim: bool) {
        let decl = Decl {
            file: self.file,
            tok,
            base: base.to_string(),
        };
        if let (true, Some(p)) = (victim, path) {
            self.avoid.insert(p.clone());
        }
        if let Some(l) = label {
            if victim {
                self.deletable.push((RefM::Label(l.clone()), decl.clone()));
            } else {
                self.scope.labels.insert(l.clone(), (path.cloned(), decl.clone()));
            }
        }
        if let Some(p) = path {
            if victim && label.is_none() {
                self.deletable.push((RefM::Path(p.clone()), decl.clone()));
            }
            if !victim {
                self.scope.paths.entry(p.clone()).or_default().insert(decl);
            }
        }
    }

    /// A reference that can be resolved at this position.
    fn known_ref(&mut self) -> Option<(RefM, Vec<Decl>, Option<Vec<String>>)> {
        let nl = self.scope.labels.len();
        let np = self.scope.paths.len();
        if nl + np == 0 {
            return None;
        }
        if nl > 0 && (np == 0 || self.r.chance(60)) {
            let i = self.r.below(nl);
            let (l, (p, d)) = self.scope.labels.iter().nth(i).unwrap();
            Some((RefM::Label(l.clone()), vec![d.clone()], p.clone()))
        } else {
            let i = self.r.below(np);
            let (p, ds) = self.scope.paths.iter().nth(i).unwrap();
            Some((RefM::Path(p.clone()), ds.iter().cloned().collect(), Some(p.clone())))
        }
    }

    /// Everything that can be referenced at this position
    fn known_texts(&self) -> Vec<String> {
        (self.scope.labels.keys().map(|l| RefM::Label(l.clone()).text()))
            .chain(self.scope.paths.keys().map(|p| RefM::Path(p.clone()).text()))
            .collect()
    }

    fn unknown_ref(&mut self) -> RefM {
        if self.r.chance(50) || self.scope.paths.is_empty() {
            RefM::Label(self.fresh_label())
        } else {
            loop {
                let i = self.r.below(self.scope.paths.len());
                let mut p = self.scope.paths.keys().nth(i).unwrap().clone();
                match self.r.below(4) {
                    0 => p.push("missing".to_string()),
                    1 if !p.is_empty() && p.last().unwrap() != "__symbols__" => {
                        let last = p.pop().unwrap();
                        let (b, u) = match last.split_once('@') {
                            Some((b, u)) => (b.to_string(), Some(u.to_string())),
                            None => (last, None),
                        };
                        p.push(match u {
                            // Not the same address, even if it is the same number
                            Some(u) if self.r.chance(15) => format!("{b}@0{u}"),
                            Some(u) if self.r.chance(15) && u.trim_start_matches('0') != "" => {
                                format!("{b}@{}", u.trim_start_matches('0'))
                            }
                            Some(u) if self.r.chance(50) => format!("{b}@{}", self.similar(&u)),
                            Some(u) => format!("{}@{u}", self.similar(&b)),
                            None => self.similar(&b),
                        });
                    }
                    2 if !p.is_empty() && p.last().unwrap() != "__symbols__" => {
                        let last = p.pop().unwrap();
                        p.push(if let Some((b, _)) = last.split_once('@') {
                            b.to_string()
                        } else {
                            format!("{last}@0")
                        });
                    }
                    _ => {
                        self.uniq += 1;
                        p = vec!["none".to_string(), format!("x{}", self.uniq)]
                    }
                }
                if !self.scope.paths.contains_key(&p) && !self.avoid.contains(&p) && !p.iter().any(|e| e.len() > 31) {
                    self.avoid.insert(p.clone());
                    return RefM::Path(p);
                }
            }
        }
    }

    fn use_ref(&mut self, r: RefM, targets: Vec<Decl>) -> usize {
        let tok = self.tok(TK::Ref, r.text());
        self.refs.push(RefUse { tok, r, targets });
        self.refs.len() - 1
    }

    /// A reference to anything in the file (chosen later)
    fn later_ref(&mut self) -> usize {
        let id = self.use_ref(RefM::Path(vec![]), vec![]);
        self.pending.push(id);
        id
    }

    fn prop_label(&mut self) -> Option<String> {
        let n = self.scope.props.len();
        if n == 0 {
            return None;
        }
        let i = self.r.below(n);
        self.scope.props.iter().nth(i).cloned()
    }

    fn must_resolve(&self) -> bool {
        self.ft == Ft::Dts && !self.cfg.plugin
    }

    /// Reference with an illegal name
    fn bad_ref(&mut self) -> usize {
        match self.r.below(4) {
            0 => {
                let mut l = self.fresh_label();
                let n = self.too_long();
                while l.len() < n {
                    l.push(self.r.pick_char("abz09_"));
                }
                let id = self.use_ref(RefM::Label(l), vec![]);
                let tok = self.refs[id].tok;
                self.emit_name_expect(tok, 1, "name_too_long", None);
                id
            }
            1 => {
                // "&" on its own
                let tok = self.tok(TK::Ref, "&");
                self.refs.push(RefUse {
                    tok,
                    r: RefM::Label(String::new()),
                    targets: vec![],
                });
                self.emit_name_expect(tok, 1, "expected_name", None);
                self.refs.len() - 1
            }
            2 => {
                // empty path
                let tok = self.tok(TK::Ref, "&{}");
                self.refs.push(RefUse {
                    tok,
                    r: RefM::Path(vec![]),
                    targets: vec![Decl {
                        file: usize::MAX,
                        tok: 0,
                        base: String::new(),
                    }],
                });
                self.expect("path_cannot_be_empty", At::Toks(tok, tok));
                self.stat("empty path");
                self.refs.len() - 1
            }
            _ => {
                let n = self.r.range(1, 4);
                let mut els = vec![];
                let mut text = "&{".to_string();
                let mut exps = vec![];
                for _ in 0..n {
                    text.push('/');
                    let off = text.len();
                    let (mut base, mut unit) = self.node_name();
                    match self.r.below(6) {
                        0 => {
                            let (b, c, ch) = self.spoil(&base, "?#!$%*\"' é漢😀()\\\n", true);
                            base = b;
                            exps.push((off, c, ch));
                        }
                        1 if base != "__symbols__" || unit.is_some() => {
                            let ch = self.r.pick_char("0123456789_,.+-");
                            base = format!("{ch}{base}");
                            base.truncate(31);
                            exps.push((off, "illegal_start", None));
                        }
                        _ => {}
                    }
                    match self.r.below(6) {
                        0 if unit.is_some() => {
                            let (u, c, ch) = self.spoil(unit.as_ref().unwrap(), "?#!$@*é😀", true);
                            exps.push((off + base.len() + 1, c, ch));
                            unit = Some(u);
                        }
                        1 if unit.is_some() => {
                            unit = Some(String::new());
                            exps.push((off + base.len() + 1, "expected_name", None));
                        }
                        _ => {}
                    }
                    let el = match unit {
                        Some(u) => format!("{base}@{u}"),
                        None => base,
                    };
                    text.push_str(&el);
                    els.push(el);
                }
                text.push('}');
                let tok = self.tok(TK::Ref, text);
                self.refs.push(RefUse {
                    tok,
                    r: RefM::Path(els),
                    targets: vec![Decl {
                        file: usize::MAX,
                        tok: 0,
                        base: String::new(),
                    }],
                });
                for (off, c, ch) in exps {
                    self.emit_name_expect(tok, off, c, ch);
                }
                self.refs.len() - 1
            }
        }
    }

    fn value_ref(&mut self) -> usize {
        if self.r.chance(self.cfg.f_name) && !self.must_resolve() {
            return self.bad_ref();
        }
        if self.r.chance(self.cfg.unresolved) {
            self.uniq += 1;
            let r = self.unknown_ref();
            let id = self.use_ref(r, vec![]);
            // resolved at the end of the file
            self.stat("unresolved reference");
            return id;
        }
        self.later_ref()
    }

    // --- values ---

    pub fn string_tok(&mut self) -> (String, String) {
        let mut val = String::new();
        let mut text = "\"".to_string();
        let n = match self.large() {
            true if self.r.chance(10) => self.r.range(10_000, 30_000),
            true => self.r.range(60, 700),
            false => self.r.below(8),
        };
        for _ in 0..n {
            match self.r.below(14) {
                0 => {
                    val.push('"');
                    text.push_str("\\\"");
                }
                1 => {
                    val.push('\\');
                    text.push_str("\\\\");
                }
                2 => {
                    let s = self.r.pick_str(WILD_CHARS);
                    val.push_str(s);
                    text.push_str(s);
                }
                3 if self.cfg.multiline_strings => {
                    val.push('\n');
                    text.push('\n');
                }
                4 => {
                    let s = self.r.pick_str(&["//", "/*", "*/", "{", "};", "<", "&x", "\t", "'", "/dts-v1/;", "\r\n"]);
                    if s != "\r\n" || self.cfg.multiline_strings {
                        val.push_str(s);
                        text.push_str(s);
                    }
                }
                5 | 6 => {
                    val.push(' ');
                    text.push(' ');
                }
                _ => {
                    let s = self.r.pick_str(&["a", "okay", "fsl,imx", "0", "uart", "-", "x1", ",", "ns16550"]);
                    val.push_str(s);
                    text.push_str(s);
                }
            }
        }
        text.push('"');
        (val, text)
    }

    fn expr_text(&mut self, depth: usize) -> String {
        let mut s = "(".to_string();
        let n = self.r.range(1, 4);
        for i in 0..n {
            if i > 0 {
                let op = self.r.pick_str(&[
                    "+", "-", "*", "%", "<<", ">>", "&", "|", "^", "==", "!=", "<=", ">=", "<", ">", "&&", "||",
                ]);
                s.push(' ');
                s.push_str(op);
                s.push(' ');
            }
            if self.r.chance(15) {
                s.push_str(self.r.pick_str(&["~", "!", "-"]));
            }
            if depth < 3 && self.r.chance(30) {
                let inner = self.expr_text(depth + 1);
                s.push_str(&inner);
            } else {
                let v = self.r.next() & 0xffff;
                s.push_str(&number(v, self.r));
            }
            if self.r.chance(5) {
                s.push_str(" /* ) */");
            }
            if self.r.chance(5) {
                s.push_str(" // (\n ");
            }
        }
        if self.r.chance(10) {
            s.push_str(" ? 1 : 2");
        }
        s.push(')');
        s
    }

    /// Now and then, something is much larger than usual
    fn large(&mut self) -> bool {
        self.toks.len() <= self.cfg.budget && self.r.below(150) == 0
    }

    fn maybe_inner_label(&mut self) {
        if self.r.chance(4) {
            let l = self.fresh_label();
            self.stat("label within value");
            if !self.cfg.tame && self.r.chance(self.cfg.f_name) {
                let (bad, code, ch) = self.spoil(&l, ",.+?#-", false);
                let tok = self.tok(TK::Label, format!("{bad}:"));
                self.emit_name_expect(tok, 0, code, ch);
                self.used_labels.insert(bad);
                return;
            }
            self.tok(TK::Label, format!("{l}:"));
        }
    }

    fn cells(&mut self) -> ValM {
        let mut known = true;
        let bits: u32 = if self.r.chance(25) {
            let b = *self.r.pick(&[8u32, 16, 32, 64]);
            self.tok(TK::Dir, "/bits/");
            self.stat("/bits/");
            if self.r.chance(self.cfg.f_num) {
                let text = bad_number(64, self.r);
                let t = self.tok(TK::Num, text);
                self.expect("int_error", At::Toks(t, t));
                self.stat("bad width");
                known = false;
                8
            } else {
                let text = if self.r.chance(50) { format!("{b}") } else { number(b as u64, self.r) };
                self.tok(TK::Num, text);
                b
            }
        } else {
            32
        };
        let open = self.punct("<");
        let mut cells = vec![];
        let mut n = *self.r.pick(&[0, 1, 1, 1, 2, 2, 3, 4, 7]);
        if self.large() {
            n = if self.r.chance(10) { self.r.range(1000, 5000) } else { self.r.range(60, 300) };
        }
        for _ in 0..n {
            self.maybe_inner_label();
            match self.r.below(10) {
                0 | 1 if self.cfg.refs && bits == 32 => {
                    let r = self.value_ref();
                    cells.push(CellM::Ref(r));
                }
                2 => {
                    let text = self.expr_text(0);
                    self.tok(TK::Expr, text);
                    self.stat("expression");
                    cells.push(CellM::Expr);
                }
                _ => {
                    if known && self.r.chance(self.cfg.f_num) {
                        let text = bad_number(bits, self.r);
                        let t = self.tok(TK::Num, text);
                        self.expect("int_error", At::Toks(t, t));
                        self.stat("bad number");
                        cells.push(CellM::Num(0, t));
                    } else {
                        let v = rand_bits(bits, self.r);
                        let t = number(v, self.r);
                        let t = self.tok(TK::Num, t);
                        self.stat("number");
                        cells.push(CellM::Num(v, t));
                    }
                }
            }
        }
        self.maybe_inner_label();
        let close = self.punct(">");
        ValM::Cells { open, cells, close }
    }

    fn bytes(&mut self) -> ValM {
        let open = self.punct("[");
        let mut groups = vec![];
        let groups_n = if self.large() { self.r.range(20, 150) } else { self.r.below(5) };
        for _ in 0..groups_n {
            self.maybe_inner_label();
            let mut n = *self.r.pick(&[1, 1, 1, 2, 3, 6]);
            if self.large() {
                n = *self.r.pick(&[15, 16, 17, 31, 32, 33, 64, 128, 300]);
            }
            let bytes: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
            let mut text = String::new();
            for b in &bytes {
                for d in [b >> 4, b & 15] {
                    let c = char::from_digit(d as u32, 16).unwrap();
                    text.push(if self.r.chance(40) { c.to_ascii_uppercase() } else { c });
                }
            }
            if self.r.chance(self.cfg.f_num) {
                let code = if self.r.chance(50) {
                    if self.r.chance(30) {
                        text.clear();
                    }
                    text.push(self.r.pick_char("0123456789abcdefABCDEF"));
                    "odd_number_of_bytestring_elements"
                } else {
                    let i = self.r.below(text.len());
                    text.replace_range(i..i + 1, &self.r.pick_char("ghxXyzGZ").to_string());
                    "int_error"
                };
                let t = self.tok(TK::Hex, text);
                self.expect(code, At::Toks(t, t));
                self.stat("bad bytes");
                groups.push((vec![], t));
            } else {
                let t = self.tok(TK::Hex, text);
                self.stat("byte group");
                groups.push((bytes, t));
            }
        }
        self.maybe_inner_label();
        let close = self.punct("]");
        ValM::Bytes { open, groups, close }
    }

    fn value(&mut self, string_only: bool) -> ValM {
        let k = if string_only { 0 } else { self.r.below(10) };
        match k {
            0..=2 => {
                let (s, text) = self.string_tok();
                let tok = self.tok(TK::Str, text);
                self.stat("string");
                ValM::Str { s, tok, exact: true }
            }
            3..=6 => self.cells(),
            7 if self.cfg.refs => ValM::Ref(self.value_ref()),
            _ => self.bytes(),
        }
    }

    fn prop(&mut self, label: Option<LabelM>, name: String, after_node: bool, omit: Option<usize>) -> PropM {
        let first_tok = label.as_ref().map(|l| l.tok);
        let (name, name_tok) = self.prop_name_tok(name);
        let first_tok = first_tok.unwrap_or(name_tok);
        let mut vals = vec![];
        let end;
        if self.r.chance(15) && self.cfg.f_semi == 0 {
            end = Some(self.punct(";"));
        } else {
            self.punct("=");
            let mut n = *self.r.pick(&[1, 1, 1, 1, 2, 3]);
            if self.large() {
                n = self.r.range(6, 25);
            }
            for i in 0..n {
                if i > 0 {
                    self.punct(",");
                }
                self.maybe_inner_label();
                let string_only = name == "compatible" && !self.r.chance(self.cfg.f_sem);
                let v = self.value(string_only);
                if name == "compatible" && !matches!(v, ValM::Str { .. }) {
                    let (a, b) = match &v {
                        ValM::Cells { open, close, .. } | ValM::Bytes { open, close, .. } => (*open, *close),
                        ValM::Ref(r) => (self.refs[*r].tok, self.refs[*r].tok),
                        ValM::Str { tok, .. } => (*tok, *tok),
                    };
                    self.expect("non_string_in_compatible", At::Toks(a, b));
                    self.stat("non string in compatible");
                }
                vals.push(v);
                self.maybe_inner_label();
            }
            end = self.semi(true);
        }
        if let Some(o) = omit {
            self.expect("incorrect_directive", At::Toks(o, o));
            self.stat("omit on property");
        }
        if after_node {
            if let Some(e) = end {
                self.expect("property_after_node", At::Toks(first_tok, e));
                self.stat("property after node");
            }
        }
        PropM {
            label,
            name,
            name_tok,
            vals,
            end,
        }
    }

    /// `path`: None, if the parent cannot be known
    fn body(&mut self, path: Option<&Vec<String>>, depth: usize, victim: bool) -> BodyM {
        let open = self.punct("{");
        let mut items = vec![];
        let n = if self.toks.len() > self.cfg.budget {
            self.r.below(2)
        } else if !victim && self.large() {
            self.stat("node with many items");
            self.r.range(50, 400)
        } else {
            self.r.below(self.cfg.max_items + 1)
        };
        let spine = self.spine > depth && !victim && self.cfg.max_depth > 0;
        let n = if spine { n.clamp(1, 3) } else { n };
        let mut nodes_seen = false;
        let want_nodes = spine || depth < self.cfg.max_depth && !victim && self.toks.len() <= self.cfg.budget;
        let n_props = match want_nodes {
            _ if spine => n - 1,
            true => self.r.below(n + 1),
            false => n,
        };
        for i in 0..n {
            let kind = if self.r.chance(8) && !victim {
                if self.r.chance(50) {
                    let kw = self.tok(TK::Dir, "/delete-node/");
                    self.uniq += 1;
                    let (b, u) = (format!("del{}", self.uniq), self.r.chance(50).then(|| "0".to_string()));
                    let (b, u, tok) = self.node_name_tok(b, u);
                    self.semi(false);
                    self.stat("delete-node");
                    let name = match u {
                        Some(u) => format!("{b}@{u}"),
                        None => b,
                    };
                    items.push(ItemM::DelNode { kw, name, tok });
                } else {
                    let kw = self.tok(TK::Dir, "/delete-property/");
                    self.uniq += 1;
                    let known = items.iter().enumerate().rev().find_map(|(i, item)| match item {
                        ItemM::Prop(p) => Some((i, p.name.clone())),
                        _ => None,
                    });
                    let name = match known {
                        Some((i, name)) if self.cfg.f_name == 0 && (!self.dangling || !self.cfg.tame || name.starts_with(|c: char| c.is_ascii_alphabetic())) && self.r.chance(40) => {
                            // It is not there any more
                            for it in &items[..=i] {
                                if let ItemM::Prop(PropM { label: Some(l), .. }) = it {
                                    self.scope.props.remove(&l.text);
                                }
                            }
                            name
                        }
                        _ => format!("{}del{}", if self.cfg.tame && self.dangling { "" } else { self.r.pick_str(&["", "#", ","]) }, self.uniq),
                    };
                    let (name, tok) = self.prop_name_tok(name);
                    self.semi(false);
                    self.stat("delete-property");
                    items.push(ItemM::DelProp { kw, name, tok });
                }
                continue;
            } else if i < n_props {
                0
            } else if want_nodes && !(nodes_seen && self.r.chance(self.cfg.f_sem)) {
                1
            } else if !nodes_seen || self.cfg.f_sem > 0 {
                0
            } else {
                continue;
            };
            let may_label = !self.dangling && (!self.cfg.tame || !self.dangling);
            if kind == 0 {
                let omit = if self.r.chance(self.cfg.f_sem) {
                    Some(self.tok(TK::Dir, "/omit-if-no-ref/"))
                } else {
                    None
                };
                let often = if self.cfg.fragment { 60 } else { 8 };
                let label = if may_label && self.r.chance(often) {
                    let l = self.fresh_label();
                    let label = self.label_decl(l.clone());
                    if label.text == l && !victim && omit.is_none() {
                        self.scope.props.insert(l);
                    }
                    Some(label)
                } else {
                    None
                };
                let name = self.prop_name();
                let p = self.prop(label, name, nodes_seen, omit);
                self.stat("property");
                items.push(ItemM::Prop(p));
            } else {
                nodes_seen = true;
                if self.spine == depth + 1 {
                    self.spine = 0;
                    self.stat("deep nesting");
                }
                let node = self.node(path, depth + 1);
                let (victim, base, unit) = (node.name_tok, node.base.clone(), node.unit.clone());
                items.push(ItemM::Node(node));
                let there = self.deletable.iter().position(|d| d.1.tok == victim && d.1.file == self.file);
                if let (Some(i), true) = (there, self.r.chance(40)) {
                    // Nothing refers to this node
                    self.deletable.remove(i);
                    let kw = self.tok(TK::Dir, "/delete-node/");
                    let name = match unit {
                        Some(u) => format!("{base}@{u}"),
                        None => base,
                    };
                    let tok = self.tok(TK::Name, name.clone());
                    self.semi(false);
                    self.stat("deleted again");
                    items.push(ItemM::DelNode { kw, name, tok });
                }
            }
        }
        let close = self.punct("}");
        let end = self.semi(false);
        BodyM {
            items,
            open,
            close,
            end,
        }
    }

    fn node(&mut self, parent: Option<&Vec<String>>, depth: usize) -> NodeM {
        self.stat("node");
        let omit = if self.r.chance(6) {
            self.stat("omit-if-no-ref");
            Some(self.tok(TK::Dir, "/omit-if-no-ref/"))
        } else {
            None
        };
        let victim = parent.is_some() && self.cfg.f_name == 0 && self.r.chance(6);
        let label_text = if !self.dangling && self.r.chance(45) {
            Some(self.fresh_label())
        } else {
            None
        };
        let label = label_text.clone().map(|l| self.label_decl(l));
        let (base, unit) = loop {
            let (mut b, u) = self.node_name();
            if self.r.chance(5) && !self.scope.paths.is_empty() {
                let i = self.r.below(self.scope.paths.len());
                let known = self.scope.paths.keys().nth(i).and_then(|p| p.last()).cloned().unwrap_or_default();
                let known = known.split('@').next().unwrap();
                if !known.is_empty() && known.len() <= 31 && known.starts_with(|c: char| c.is_ascii_alphabetic()) {
                    b = self.similar(known);
                }
            }
            if parent.is_none() || victim {
                self.uniq += 1;
                b = format!("orphan{}-{}", self.file, self.uniq);
            }
            if let Some(p) = parent {
                let mut p = p.clone();
                p.push(match &u {
                    Some(u) => format!("{b}@{u}"),
                    None => b.clone(),
                });
                if self.avoid.contains(&p) || (victim && self.scope.paths.contains_key(&p)) {
                    continue;
                }
                if self.scope.paths.contains_key(&p) && self.r.chance(60) {
                    continue;
                }
            }
            break (b, u);
        };
        let (base0, unit0) = (base.clone(), unit.clone());
        let (base, unit, name_tok) = self.node_name_tok(base, unit);
        let full = match &unit {
            Some(u) => format!("{base}@{u}"),
            None => base.clone(),
        };
        // Nothing refers to names that are illegal
        let legal = base == base0 && unit == unit0;
        let legal_label = label.as_ref().filter(|l| Some(&l.text) == label_text.as_ref());
        let path = parent.filter(|_| legal).map(|p| {
            let mut p = p.clone();
            p.push(full);
            p
        });
        self.declare(path.as_ref(), legal_label.map(|l| &l.text), name_tok, &base, victim);
        let body = self.body(path.as_ref(), depth, victim);
        NodeM {
            omit,
            label,
            base,
            unit,
            name_tok,
            body,
        }
    }

    fn root(&mut self) -> TopM {
        let tok = self.tok(TK::Slash, "/");
        let path = vec![];
        self.declare(Some(&path), None, tok, "/", false);
        let body = self.body(Some(&path), 0, false);
        self.stat("root node");
        TopM::Root(NodeM {
            omit: None,
            label: None,
            base: "/".to_string(),
            unit: None,
            name_tok: tok,
            body,
        })
    }

    fn include(&mut self, inc: &IncSpec) -> TopM {
        let kw = self.tok(TK::Dir, "/include/");
        let tok = self.tok(TK::Str, format!("\"{}\"", inc.spelling));
        self.includes.push(IncUse {
            kw,
            tok,
            target: inc.target,
        });
        self.scope.merge(&inc.exports);
        self.stat("include");
        if self.r.chance(self.cfg.f_sem) {
            let t = self.punct(";");
            self.expect("parser_error", At::Toks(t, t));
            self.stat("include with semicolon");
        }
        TopM::Include {
            kw,
            tok,
            file: inc.spelling.clone(),
        }
    }

    fn number_u64(&mut self) -> u64 {
        if self.r.chance(self.cfg.f_num) {
            let text = bad_number(64, self.r);
            let t = self.tok(TK::Num, text);
            self.expect("int_error", At::Toks(t, t));
            self.stat("bad number");
            0
        } else {
            let v = rand_bits(64, self.r);
            let t = number(v, self.r);
            self.tok(TK::Num, t);
            self.stat("number");
            v
        }
    }

    fn memreserve(&mut self) -> TopM {
        self.tok(TK::Dir, "/memreserve/");
        let addr = self.number_u64();
        let len = self.number_u64();
        self.semi(false);
        self.stat("memreserve");
        TopM::Memreserve { addr, len }
    }

    fn ref_node(&mut self) -> Option<TopM> {
        if self.r.chance(self.cfg.unresolved) {
            self.uniq += 1;
            let r = self.unknown_ref();
            // A path that cannot be resolved is still a path
            let path = match &r {
                RefM::Label(_) => None,
                RefM::Path(p) => Some(p.clone()),
            };
            let id = self.use_ref(r, vec![]);
            self.refs[id].targets = vec![];
            if self.must_resolve() {
                let t = self.refs[id].tok;
                self.expect("unresolved_reference", At::Toks(t, t));
            }
            self.stat("unresolved reference");
            let body = self.body(path.as_ref(), 0, false);
            return Some(TopM::RefNode { r: id, body });
        }
        if self.r.chance(self.cfg.f_name) && !self.must_resolve() {
            let id = self.bad_ref();
            let save = self.cfg.max_depth;
            self.cfg.max_depth = 0;
            let body = self.body(None, 1, false);
            self.cfg.max_depth = save;
            return Some(TopM::RefNode { r: id, body });
        }
        let (r, targets, path) = self.known_ref()?;
        let id = self.use_ref(r, targets);
        self.stat("referenced node");
        let body = self.body(path.as_ref(), 0, false);
        Some(TopM::RefNode { r: id, body })
    }

    pub fn file(mut self, incs: &[IncSpec], style: &Style) -> FileM {
        if self.cfg.max_depth > 2 && self.r.below(self.cfg.spines) == 0 {
            self.spine = self.r.range(10, 120);
        }
        let mut tops: Vec<TopM> = vec![];
        let mut incs: Vec<&IncSpec> = incs.iter().collect();
        let mut headers = 0;
        let mut non_include = false;
        let n_headers = if self.r.chance(self.cfg.f_sem) {
            self.r.below(4)
        } else if self.cfg.header {
            1
        } else {
            0
        };
        // A plan: which elements, in which order
        #[derive(Clone, Copy, PartialEq)]
        enum K {
            Header,
            Plugin,
            Mem,
            Inc,
            Other,
            /// /omit-if-no-ref/ or /delete-node/ of something that is not known (yet)
            Early,
            /// a reference to something that is only declared further down
            Forward,
        }
        let mut plan = vec![];
        let lead = if incs.is_empty() || !self.r.chance(15) { 0 } else { self.r.range(1, incs.len()) };
        plan.extend(std::iter::repeat_n(K::Inc, lead));
        plan.extend(std::iter::repeat_n(K::Header, n_headers));
        if self.cfg.plugin {
            plan.push(K::Plugin);
        }
        for _ in 0..*self.r.pick(&[0, 0, 0, 1, 2]) {
            plan.push(K::Mem);
        }
        let mut rest = vec![K::Other; self.r.range(1, self.cfg.max_tops)];
        rest.extend(std::iter::repeat_n(K::Inc, incs.len() - lead));
        self.r.shuffle(&mut rest);
        plan.extend(rest);
        if self.cfg.plugin && self.r.chance(30) {
            // Anywhere before something is referenced
            let p = plan.iter().position(|k| *k == K::Plugin).unwrap();
            let last = (p + 1..plan.len()).find(|i| plan[*i] == K::Other).unwrap_or(plan.len());
            plan.remove(p);
            let at = self.r.range(p, last - 1);
            plan.insert(at, K::Plugin);
        }
        if self.r.chance(self.cfg.f_sem) {
            // something is at an unexpected place
            if let Some(i) = plan.iter().position(|k| *k == K::Header) {
                let j = self.r.below(plan.len());
                plan.swap(i, j);
                // A plugin is known as one before anything is referenced
                if let Some(p) = plan.iter().position(|k| *k == K::Plugin) {
                    let k = plan.remove(p);
                    plan.insert(0, k);
                }
            }
        }
        if self.cfg.refs && self.r.chance(10) {
            // Behind what has to be on top, unless that is the fault
            let early = self.r.chance(self.cfg.f_sem);
            let least = plan
                .iter()
                .rposition(|k| *k == K::Plugin || (*k == K::Header && !early))
                .map_or(0, |i| i + 1);
            let i = self.r.range(least, (least + 3).min(plan.len()));
            plan.insert(i, K::Early);
        }
        if self.cfg.refs && self.r.chance(self.cfg.unresolved) {
            let least = plan.iter().rposition(|k| matches!(k, K::Plugin | K::Header)).map_or(0, |i| i + 1);
            let i = self.r.range(least, plan.len());
            plan.insert(i, K::Forward);
        }
        // References to what is declared further down, and what was known there
        let mut forward: Vec<(usize, BTreeSet<String>)> = vec![];
        for k in plan {
            match k {
                K::Header => {
                    let tok = self.tok(TK::Dir, "/dts-v1/");
                    self.semi(false);
                    if headers > 0 {
                        self.expect("duplicate_directive", At::Toks(tok, tok));
                        self.stat("duplicate header");
                    } else if non_include {
                        self.expect("misplaced_dts_header", At::Toks(tok, tok));
                        self.stat("misplaced header");
                    }
                    headers += 1;
                    tops.push(TopM::Header { tok });
                }
                K::Plugin => {
                    let tok = self.tok(TK::Dir, "/plugin/");
                    self.semi(false);
                    non_include = true;
                    self.stat("plugin");
                    tops.push(TopM::Plugin { tok });
                }
                K::Mem => {
                    let m = self.memreserve();
                    tops.push(m);
                    non_include = true;
                }
                K::Early => {
                    non_include = true;
                    if self.must_resolve() || self.r.chance(50) {
                        let kw = self.tok(TK::Dir, "/omit-if-no-ref/");
                        let r = if self.must_resolve() {
                            self.later_ref()
                        } else {
                            let r = self.unknown_ref();
                            self.use_ref(r, vec![])
                        };
                        self.semi(false);
                        self.stat("early omit");
                        tops.push(TopM::Omit { kw, r });
                    } else {
                        let kw = self.tok(TK::Dir, "/delete-node/");
                        let r = self.unknown_ref();
                        let r = self.use_ref(r, vec![]);
                        self.semi(false);
                        self.stat("early delete");
                        tops.push(TopM::Del { kw, r });
                    }
                }
                K::Forward => {
                    non_include = true;
                    let before: BTreeSet<String> = self.known_texts().into_iter().collect();
                    let delete = self.r.chance(40);
                    let kw = if delete { Some(self.tok(TK::Dir, "/delete-node/")) } else { None };
                    let r = self.use_ref(RefM::Label(String::new()), vec![]);
                    forward.push((r, before));
                    if self.must_resolve() {
                        let t = self.refs[r].tok;
                        self.expect("unresolved_reference", At::Toks(t, t));
                    }
                    tops.push(match kw {
                        Some(kw) => {
                            self.semi(false);
                            TopM::Del { kw, r }
                        }
                        None => {
                            let save = std::mem::replace(&mut self.cfg.max_depth, 0);
                            let body = self.body(None, 1, false);
                            self.cfg.max_depth = save;
                            TopM::RefNode { r, body }
                        }
                    });
                }
                K::Inc => {
                    let inc = incs.remove(0);
                    let t = self.include(inc);
                    tops.push(t);
                }
                K::Other if self.cfg.fragment => {
                    non_include = true;
                    let r = RefM::Label(self.fresh_label());
                    let r = self.use_ref(r, vec![]);
                    let save = std::mem::replace(&mut self.cfg.max_depth, 0);
                    let body = self.body(None, 1, false);
                    self.cfg.max_depth = save;
                    self.stat("fragment");
                    tops.push(TopM::RefNode { r, body });
                }
                K::Other => {
                    non_include = true;
                    let t = match self.r.below(10) {
                        0 => self.memreserve(),
                        1 if self.r.chance(self.cfg.unresolved) => {
                            let kw = self.tok(TK::Dir, "/delete-node/");
                            let r = self.unknown_ref();
                            let r = self.use_ref(r, vec![]);
                            if self.must_resolve() {
                                let t = self.refs[r].tok;
                                self.expect("unresolved_reference", At::Toks(t, t));
                            }
                            self.semi(false);
                            self.stat("unresolved delete");
                            TopM::Del { kw, r }
                        }
                        1 if !self.deletable.is_empty() => {
                            let i = self.r.below(self.deletable.len());
                            let (r, d) = self.deletable.remove(i);
                            let kw = self.tok(TK::Dir, "/delete-node/");
                            let r = self.use_ref(r, vec![d]);
                            self.semi(false);
                            self.stat("top-level delete");
                            TopM::Del { kw, r }
                        }
                        2 if self.cfg.refs => match self.known_ref() {
                            Some((r, t, _)) => {
                                let kw = self.tok(TK::Dir, "/omit-if-no-ref/");
                                let r = self.use_ref(r, t);
                                self.semi(false);
                                self.stat("top-level omit");
                                TopM::Omit { kw, r }
                            }
                            None => self.root(),
                        },
                        3..=5 if self.cfg.refs => match self.ref_node() {
                            Some(t) => t,
                            None => self.root(),
                        },
                        _ => self.root(),
                    };
                    tops.push(t);
                }
            }
        }
        if headers == 0 && self.ft == Ft::Dts {
            self.expect("non_dts_v1", At::Origin);
            self.stat("missing header");
        }
        for (id, before) in forward {
            let later: Vec<RefM> = (self.scope.labels.keys().map(|l| RefM::Label(l.clone())))
                .chain(self.scope.paths.keys().map(|p| RefM::Path(p.clone())))
                .filter(|r| !before.contains(&r.text()) && *r != RefM::Path(vec![]))
                .collect();
            let r = if later.is_empty() {
                RefM::Label(self.fresh_label())
            } else {
                self.stat("reference to what is declared further down");
                self.r.pick(&later).clone()
            };
            self.toks[self.refs[id].tok].s = r.text();
            self.refs[id].r = r;
        }
        let value_refs: BTreeSet<usize> = value_refs(&tops);
        // Choose the targets of references
        for id in std::mem::take(&mut self.pending) {
            if value_refs.contains(&id) && self.r.chance(6) {
                // It is known; where it leads is not specified
                if let Some(l) = self.prop_label() {
                    let r = RefM::Label(l);
                    self.toks[self.refs[id].tok].s = r.text();
                    self.refs[id].r = r;
                    self.refs[id].targets = vec![Decl {
                        file: usize::MAX,
                        tok: 1,
                        base: String::new(),
                    }];
                    self.stat("reference to a property");
                    continue;
                }
            }
            let (r, t) = match self.known_ref() {
                Some((r, t, _)) => (r, t),
                None => (RefM::Label(self.fresh_label()), vec![]),
            };
            self.toks[self.refs[id].tok].s = r.text();
            self.refs[id].r = r;
            self.refs[id].targets = t;
            self.stat("reference");
        }
        // References resolve to everything that is known at the end of the file
        for id in 0..self.refs.len() {
            let r = self.refs[id].r.clone();
            let bogus = self.refs[id].targets.iter().any(|d| d.file == usize::MAX);
            if bogus && self.refs[id].targets[0].tok == 1 {
                continue;
            }
            if bogus {
                self.refs[id].targets = match &r {
                    RefM::Path(p) => self.scope.paths.get(p).map(|s| s.iter().cloned().collect()).unwrap_or_default(),
                    _ => vec![],
                };
                continue;
            }
            let now: Vec<Decl> = match &r {
                RefM::Label(l) => self.scope.labels.get(l).map(|x| vec![x.1.clone()]).unwrap_or_default(),
                RefM::Path(p) => self.scope.paths.get(p).map(|s| s.iter().cloned().collect()).unwrap_or_default(),
            };
            if !now.is_empty() {
                self.refs[id].targets = now;
            }
            if value_refs.contains(&id) && self.must_resolve() && self.refs[id].targets.is_empty() {
                let t = self.refs[id].tok;
                self.expect("unresolved_reference", At::Toks(t, t));
            }
        }
        let laid = layout(&self.toks, style, self.r);
        FileM {
            ft: self.ft,
            tops,
            toks: self.toks,
            refs: self.refs,
            expects: self.expects,
            includes: self.includes,
            scope: self.scope,
            laid,
            stats: self.stats,
        }
    }
}

fn value_refs_body(b: &BodyM, out: &mut BTreeSet<usize>) {
    for it in &b.items {
        match it {
            ItemM::Prop(p) => {
                for v in &p.vals {
                    match v {
                        ValM::Ref(r) => {
                            out.insert(*r);
                        }
                        ValM::Cells { cells, .. } => {
                            for c in cells {
                                if let CellM::Ref(r) = c {
                                    out.insert(*r);
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            ItemM::Node(n) => value_refs_body(&n.body, out),
            _ => {}
        }
    }
}

/// References that are used as values
pub fn value_refs(tops: &[TopM]) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    for t in tops {
        match t {
            TopM::Root(n) => value_refs_body(&n.body, &mut out),
            TopM::RefNode { body, .. } => value_refs_body(body, &mut out),
            _ => {}
        }
    }
    out
}

/// A document whose includes cannot be found
pub fn alone(r: &mut Rng, cfg: Cfg, ft: Ft, style: &Style) -> FileM {
    let mut used = BTreeSet::new();
    let incs: Vec<IncSpec> = (0..r.range(1, 3))
        .map(|i| IncSpec {
            spelling: format!("{}missing{i}.dtsi", r.pick_str(&["", "./", "sub/", "/nowhere/"])),
            target: None,
            exports: Scope::default(),
        })
        .collect();
    let mut m = Gen::new(r, cfg, 0, ft, &mut used).file(&incs, style);
    for inc in m.includes.clone() {
        m.expects.push(Expect {
            code: "io_error",
            at: At::Toks(inc.kw, inc.tok),
            msg: None,
        });
    }
    m
}

/// A single, self-contained document
pub fn single(r: &mut Rng, cfg: Cfg, ft: Ft, style: &Style) -> FileM {
    let mut used = BTreeSet::new();
    Gen::new(r, cfg, 0, ft, &mut used).file(&[], style)
}
