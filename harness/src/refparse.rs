//! An independent recogniser of the device tree source language, written from the language and not
//! from the parser: scannerless, context dependent, without recovery.
//! Everything that is not specified (or not supported by design) yields `Unspec`.

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Well,
    Bad(usize, &'static str),
    Unspec(&'static str),
}

use Verdict::*;
type P<T> = Result<T, Verdict>;

struct S<'a> {
    t: &'a [u8],
    i: usize,
    depth: usize,
    good: usize,
}

pub fn recognise(text: &str) -> Verdict {
    recognise_prefix(text).0
}

/// Also returns up to where the text consists of complete, well-formed statements.
pub fn recognise_prefix(text: &str) -> (Verdict, usize) {
    if let Some(v) = unsupported(text) {
        return (v, 0);
    }
    let mut s = S { t: text.as_bytes(), i: 0, depth: 0, good: 0 };
    let v = match s.file() {
        Ok(()) => Well,
        Err(v) => v,
    };
    (v, s.good)
}

fn unsupported(text: &str) -> Option<Verdict> {
    if text.contains('\u{feff}') {
        return Some(Unspec("byte order mark"));
    }
    if text.contains('\u{b}') {
        return Some(Unspec("vertical tab"));
    }
    let b = text.as_bytes();
    for (i, c) in b.iter().enumerate() {
        if *c == b'\r' && b.get(i + 1) != Some(&b'\n') {
            return Some(Unspec("lone carriage return"));
        }
    }
    None
}

fn word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b",._+?#-".contains(&c)
}

fn label_ok(s: &[u8]) -> bool {
    !s.is_empty()
        && !s[0].is_ascii_digit()
        && s.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

impl<'a> S<'a> {
    fn bad<T>(&self, m: &'static str) -> P<T> {
        Err(Bad(self.i, m))
    }

    fn unspec<T>(&self, m: &'static str) -> P<T> {
        Err(Unspec(m))
    }

    fn c(&self) -> Option<u8> {
        self.t.get(self.i).copied()
    }

    fn starts(&self, s: &str) -> bool {
        self.t[self.i..].starts_with(s.as_bytes())
    }

    fn ws(&mut self) -> P<()> {
        loop {
            match self.c() {
                Some(b' ' | b'\t' | b'\n' | b'\r' | 0x0c) => self.i += 1,
                Some(b'/') if self.starts("//") => {
                    while self.c().is_some_and(|c| c != b'\n') {
                        self.i += 1;
                    }
                }
                Some(b'/') if self.starts("/*") => {
                    let Some(n) = self.t[self.i + 2..].windows(2).position(|w| w == b"*/") else {
                        return self.bad("comment without end");
                    };
                    self.i += 2 + n + 2;
                }
                _ => return Ok(()),
            }
        }
    }

    fn lit(&mut self, ch: u8, m: &'static str) -> P<()> {
        self.ws()?;
        if self.c() == Some(ch) {
            self.i += 1;
            Ok(())
        } else {
            self.bad(m)
        }
    }

    fn run(&mut self) -> &'a [u8] {
        let a = self.i;
        while self.c().is_some_and(word) {
            self.i += 1;
        }
        &self.t[a..self.i]
    }

    fn file(&mut self) -> P<()> {
        loop {
            self.good = self.i;
            self.ws()?;
            let Some(c) = self.c() else { return Ok(()) };
            match c {
                b'/' => {
                    if self.dir("/dts-v1/") || self.dir("/plugin/") {
                        self.semi()?;
                    } else if self.dir("/memreserve/") {
                        self.number(64)?;
                        self.number(64)?;
                        self.semi()?;
                    } else if self.dir("/include/") {
                        self.ws()?;
                        self.string()?;
                        self.ws()?;
                        if self.c() == Some(b';') {
                            return self.bad("semicolon after include");
                        }
                    } else if self.dir("/delete-node/") || self.dir("/omit-if-no-ref/") {
                        self.ws()?;
                        self.label_unspec()?;
                        self.reference()?;
                        self.semi()?;
                    } else {
                        self.i += 1;
                        if self.c().is_some_and(|c| c.is_ascii_alphabetic()) {
                            return self.bad("unknown directive");
                        }
                        self.body()?;
                    }
                }
                b'&' => {
                    self.reference()?;
                    self.body()?;
                }
                b'#' => return self.unspec("preprocessor"),
                _ => {
                    self.label_unspec()?;
                    return self.bad("no top-level element");
                }
            }
        }
    }

    /// labels at places where labels are not supported
    fn label_unspec(&mut self) -> P<()> {
        let save = self.i;
        let run = self.run();
        if !run.is_empty() && self.c() == Some(b':') {
            return self.unspec("label at that place");
        }
        self.i = save;
        Ok(())
    }

    fn dir(&mut self, d: &str) -> bool {
        if self.starts(d) {
            self.i += d.len();
            true
        } else {
            false
        }
    }

    fn semi(&mut self) -> P<()> {
        self.lit(b';', "semicolon expected")
    }

    fn body(&mut self) -> P<()> {
        self.ws()?;
        self.label_unspec()?;
        self.lit(b'{', "brace expected")?;
        self.depth += 1;
        if self.depth > 100 {
            return self.unspec("too deep");
        }
        let mut node_seen = false;
        loop {
            self.good = self.i;
            self.ws()?;
            if self.c() == Some(b'}') {
                self.i += 1;
                break;
            }
            if self.starts("/include/") {
                return self.unspec("include within a node");
            }
            if self.dir("/delete-node/") {
                self.ws()?;
                let start = self.i;
                self.name()?;
                self.node_name(start)?;
                self.semi()?;
                continue;
            }
            if self.dir("/delete-property/") {
                self.ws()?;
                let start = self.i;
                self.name()?;
                self.prop_name(start)?;
                self.semi()?;
                continue;
            }
            let omit = self.dir("/omit-if-no-ref/");
            if omit {
                self.ws()?;
                if self.c() == Some(b'/') {
                    return self.unspec("directive after directive");
                }
            }
            let mut start = self.i;
            let run = self.run();
            if self.c() == Some(b':') {
                if run.is_empty() {
                    return self.bad("empty label");
                }
                if run[0].is_ascii_digit() {
                    return self.unspec("label starting with a digit");
                }
                if !label_ok(run) {
                    if run.len() > 31 && run.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                        return self.unspec("long label");
                    }
                    return self.bad("illegal label");
                }
                self.i += 1;
                self.ws()?;
                if self.c() == Some(b'/') {
                    return self.unspec("label before a directive");
                }
                self.label_unspec()?;
                start = self.i;
            } else {
                self.i = start;
            }
            self.name()?;
            let end = self.i;
            self.ws()?;
            match self.c() {
                Some(b'{') => {
                    let here = self.i;
                    self.i = end;
                    self.node_name(start)?;
                    self.i = here;
                    node_seen = true;
                    self.body()?;
                }
                Some(b';') | Some(b'=') => {
                    let eq = self.c() == Some(b'=');
                    let here = self.i;
                    self.i = end;
                    self.prop_name(start)?;
                    self.i = here + 1;
                    if eq {
                        self.values()?;
                        self.semi()?;
                    }
                    if omit {
                        return self.bad("omit-if-no-ref on a property");
                    }
                    if node_seen {
                        return self.bad("property after node");
                    }
                }
                _ => return self.bad("neither node nor property"),
            }
        }
        self.depth -= 1;
        self.semi()
    }

    /// Scans the characters of a name: run ['@' run]
    fn name(&mut self) -> P<()> {
        let run = self.run();
        if run.is_empty() {
            return self.bad("name expected");
        }
        if run[0].is_ascii_digit() {
            return self.unspec("name starting with a digit");
        }
        if self.c() == Some(b'@') {
            self.i += 1;
            self.run();
        }
        if matches!(self.c(), Some(b':') | Some(b'@')) {
            return self.bad("illegal name");
        }
        Ok(())
    }

    fn node_name(&mut self, start: usize) -> P<()> {
        let s = &self.t[start..self.i];
        self.check_node_name(s)
    }

    fn check_node_name(&mut self, s: &[u8]) -> P<()> {
        if s == b"__symbols__" {
            return Ok(());
        }
        let legal = |c: &u8| c.is_ascii_alphanumeric() || b",._+-".contains(c);
        let (base, unit) = match s.iter().position(|c| *c == b'@') {
            Some(p) => (&s[..p], Some(&s[p + 1..])),
            None => (s, None),
        };
        if !base.iter().all(legal) || !unit.unwrap_or(&[]).iter().all(legal) {
            return self.bad("illegal character in a node name");
        }
        if base.is_empty() || unit.is_some_and(|u| u.is_empty()) {
            return self.bad("empty name");
        }
        if base[0].is_ascii_digit() {
            return self.unspec("name starting with a digit");
        }
        if !base[0].is_ascii_alphabetic() {
            if base.len() > 31 {
                return self.unspec("long name");
            }
            return self.bad("illegal start of a node name");
        }
        Ok(())
    }

    fn prop_name(&mut self, start: usize) -> P<()> {
        if self.t[start..self.i].contains(&b'@') {
            return self.bad("illegal character in a property name");
        }
        Ok(())
    }

    fn reference(&mut self) -> P<()> {
        self.ws()?;
        if self.c() != Some(b'&') {
            return self.bad("reference expected");
        }
        self.i += 1;
        match self.c() {
            Some(b'{') => {
                let Some(n) = self.t[self.i..].iter().position(|c| *c == b'}') else {
                    return self.bad("path without end");
                };
                let path = &self.t[self.i + 1..self.i + n];
                self.i += n + 1;
                if path.is_empty() {
                    return self.bad("empty path");
                }
                if path == b"/" {
                    return Ok(());
                }
                if path[0] != b'/' {
                    return self.unspec("relative path");
                }
                let els: Vec<&[u8]> = path[1..].split(|c| *c == b'/').collect();
                if els.iter().any(|e| e.is_empty()) {
                    return self.unspec("empty path element");
                }
                let mut first: Option<Verdict> = None;
                for e in els {
                    match self.check_node_name(e) {
                        Err(Bad(i, m)) => return Err(Bad(i, m)),
                        Err(v) => first = Some(v),
                        Ok(()) => {}
                    }
                }
                match first {
                    Some(v) => Err(v),
                    None => Ok(()),
                }
            }
            Some(c) if c.is_ascii_alphabetic() || c == b'_' => {
                while self.c().is_some_and(|c| c.is_ascii_alphanumeric() || c == b'_') {
                    self.i += 1;
                }
                Ok(())
            }
            _ => self.bad("reference without target"),
        }
    }

    fn number(&mut self, bits: u32) -> P<u128> {
        self.ws()?;
        let a = self.i;
        if !self.c().is_some_and(|c| c.is_ascii_digit()) {
            self.label_unspec()?;
            return self.bad("number expected");
        }
        while self.c().is_some_and(|c| c.is_ascii_alphanumeric()) {
            self.i += 1;
        }
        if matches!(self.c(), Some(b'_' | b':' | b'\'')) {
            return self.unspec("number glued to something else");
        }
        let s = std::str::from_utf8(&self.t[a..self.i]).unwrap();
        let last = s.chars().last().unwrap();
        if "uUlL".contains(last) {
            return self.unspec("suffix");
        }
        let (digits, radix) = if let Some(d) = s.strip_prefix("0x").or(s.strip_prefix("0X")) {
            (d, 16)
        } else if s.len() > 1 && s.starts_with('0') {
            (&s[1..], 8)
        } else {
            (s, 10)
        };
        let mut v: u128 = 0;
        if digits.is_empty() {
            return self.bad("number without digits");
        }
        for c in digits.chars() {
            let Some(d) = c.to_digit(radix) else {
                return self.bad("illegal digit");
            };
            v = v * radix as u128 + d as u128;
            if v >= 1u128 << bits {
                return self.bad("number too large");
            }
        }
        Ok(v)
    }

    fn string(&mut self) -> P<()> {
        if self.c() != Some(b'"') {
            return self.bad("string expected");
        }
        self.i += 1;
        loop {
            match self.c() {
                None => return self.bad("string without end"),
                Some(b'"') => {
                    self.i += 1;
                    return Ok(());
                }
                Some(b'\\') => self.i += 2,
                Some(_) => self.i += 1,
            }
            if self.i > self.t.len() {
                self.i = self.t.len();
            }
        }
    }

    fn value_label(&mut self) -> P<()> {
        self.ws()?;
        for n in 0..2 {
            let save = self.i;
            if !self.c().is_some_and(|c| c.is_ascii_alphabetic() || c == b'_') {
                return Ok(());
            }
            let run = self.run();
            if self.c() == Some(b':') {
                if n == 1 {
                    return self.unspec("several labels");
                }
                if !label_ok(run) {
                    return self.bad("illegal label");
                }
                self.i += 1;
                self.ws()?;
            } else {
                self.i = save;
                return Ok(());
            }
        }
        Ok(())
    }

    fn values(&mut self) -> P<()> {
        loop {
            self.value_label()?;
            self.value()?;
            self.value_label()?;
            self.ws()?;
            if self.c() == Some(b',') {
                self.i += 1;
            } else {
                return Ok(());
            }
        }
    }

    fn value(&mut self) -> P<()> {
        self.ws()?;
        let mut bits = 32;
        let mut with_bits = false;
        if self.starts("/incbin/") || self.starts("/include/") {
            return self.unspec("incbin");
        }
        if self.dir("/bits/") {
            with_bits = true;
            self.ws()?;
            if self.c().is_some_and(|c| c.is_ascii_digit()) {
                bits = match self.number(64)? {
                    b @ (8 | 16 | 32 | 64) => b as u32,
                    _ => return self.unspec("width"),
                };
            } else {
                self.label_unspec()?;
                return self.bad("width expected");
            }
            self.ws()?;
            if matches!(self.c(), Some(b'"' | b'[' | b'&')) {
                return self.unspec("width of something that is not an array");
            }
            self.label_unspec()?;
        }
        match self.c() {
            Some(b'"') => self.string(),
            Some(b'&') => self.reference(),
            Some(b'<') => {
                self.i += 1;
                loop {
                    self.value_label()?;
                    match self.c() {
                        Some(b'>') => {
                            self.i += 1;
                            return Ok(());
                        }
                        Some(b'&') => {
                            if with_bits && bits != 32 {
                                return self.unspec("reference with a width");
                            }
                            self.reference()?;
                        }
                        Some(b'(') => self.expression()?,
                        Some(b'\'') => return self.unspec("character"),
                        _ => {
                            self.number(bits)?;
                        }
                    }
                }
            }
            Some(b'[') => {
                self.i += 1;
                loop {
                    self.value_label()?;
                    match self.c() {
                        Some(b']') => {
                            self.i += 1;
                            return Ok(());
                        }
                        Some(c) if word(c) => {
                            let digit = c.is_ascii_digit();
                            let run = self.run();
                            if digit && matches!(self.c(), Some(b':')) {
                                return self.unspec("byte glued to a label");
                            }
                            if digit && run.iter().any(|c| !c.is_ascii_hexdigit()) {
                                // Ends with a label?
                                let n = run.iter().take_while(|c| c.is_ascii_hexdigit()).count();
                                if run[n] == b'_' {
                                    return self.unspec("byte glued to something else");
                                }
                            }
                            if run.len() % 2 != 0 || !run.iter().all(|c| c.is_ascii_hexdigit()) {
                                return self.bad("no bytes");
                            }
                        }
                        _ => return self.bad("bytes expected"),
                    }
                }
            }
            _ => self.bad("value expected"),
        }
    }

    /// The content of expressions is only checked for balanced parentheses.
    fn expression(&mut self) -> P<()> {
        let start = self.i;
        let mut e = S { t: self.t, i: start, depth: 0, good: 0 };
        match e.expr_paren() {
            Ok(()) => {
                self.i = e.i;
                return Ok(());
            }
            Err(Unspec(m)) => return Err(Unspec(m)),
            Err(_) => {}
        }
        // Is there a matching parenthesis at all?
        let mut depth = 0;
        loop {
            self.ws()?;
            match self.c() {
                None => return self.bad("unbalanced parentheses"),
                Some(b'(') => {
                    depth += 1;
                    self.i += 1;
                }
                Some(b')') => {
                    depth -= 1;
                    self.i += 1;
                    if depth == 0 {
                        return self.unspec("content of an expression");
                    }
                }
                Some(b'"') => self.string()?,
                Some(b'\'') => return self.unspec("character"),
                Some(b'&') if self.starts("&{") => {
                    let Some(n) = self.t[self.i..].iter().position(|c| *c == b'}') else {
                        return self.bad("path without end");
                    };
                    self.i += n + 1;
                }
                Some(b'/') if self.t.get(self.i + 1).is_some_and(|c| c.is_ascii_alphabetic()) => {
                    let rest = &self.t[self.i + 1..];
                    let n = rest.iter().position(|c| *c == b'/').unwrap_or(rest.len());
                    if rest[..n].iter().any(|c| b"()\"".contains(c)) {
                        return self.unspec("directive within an expression");
                    }
                    self.i += (n + 2).min(self.t.len() - self.i);
                }
                Some(_) => self.i += 1,
            }
        }
    }

    fn expr_paren(&mut self) -> P<()> {
        self.ws()?;
        if self.c() != Some(b'(') {
            return self.bad("parenthesis");
        }
        self.i += 1;
        self.depth += 1;
        if self.depth > 100 {
            return self.unspec("deep expression");
        }
        self.expr()?;
        self.ws()?;
        if self.c() != Some(b')') {
            return self.bad("parenthesis");
        }
        self.i += 1;
        self.depth -= 1;
        Ok(())
    }

    fn expr(&mut self) -> P<()> {
        self.operand()?;
        loop {
            self.ws()?;
            let ops = ["<<", ">>", "==", "!=", "<=", ">=", "&&", "||", "+", "-", "*", "%", "&", "|", "^", "<", ">"];
            if let Some(op) = ops.iter().find(|o| self.starts(o)) {
                self.i += op.len();
                if *op == "&" && self.c().is_some_and(|c| c == b'{' || c == b'_' || c.is_ascii_alphabetic()) {
                    return self.bad("reference");
                }
                self.operand()?;
            } else if self.c() == Some(b'/') && self.t.get(self.i + 1).is_some_and(|c| b" \t0123456789(".contains(c)) {
                self.i += 1;
                self.operand()?;
            } else if self.c() == Some(b'?') {
                self.i += 1;
                self.expr()?;
                self.ws()?;
                if self.c() != Some(b':') {
                    return self.bad("colon");
                }
                self.i += 1;
                return self.expr();
            } else {
                return Ok(());
            }
        }
    }

    fn operand(&mut self) -> P<()> {
        self.ws()?;
        while self.c().is_some_and(|c| b"~!-".contains(&c)) {
            self.i += 1;
            self.ws()?;
        }
        if self.c() == Some(b'(') {
            self.expr_paren()
        } else {
            self.number(64).map(|_| ())
        }
    }
}
