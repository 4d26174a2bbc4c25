//! Any text is dealt with: no crash, no endless run.
use super::lang::{any_type, sized};
use super::syntax::*;
use crate::env::*;
use crate::gen::*;
use crate::inproc::*;
use crate::model::*;
use crate::proc::*;
use crate::rng::Rng;
use crate::toks::*;
use ginko::dts::{DiagnosticPrinter, ItemAtCursor, Position, Project, SeverityMap};
use serde_json::json;
use std::path::Path;

fn faulty(r: &mut Rng) -> Cfg {
    let mut cfg = sized(r, Cfg::default());
    cfg.f_name = *r.pick(&[0, 0, 10, 60]);
    cfg.f_num = *r.pick(&[0, 0, 10, 60]);
    cfg.f_sem = *r.pick(&[0, 0, 10, 60]);
    cfg.f_semi = *r.pick(&[0, 0, 10, 60]);
    cfg.unresolved = *r.pick(&[0, 0, 10, 60]);
    cfg.header = r.chance(70);
    cfg.plugin = r.chance(10);
    cfg
}

/// A document with any combination of faults
pub fn any_doc(r: &mut Rng) -> FileM {
    let ft = any_type(r);
    let cfg = faulty(r);
    let style = Style::random(r);
    single(r, cfg, ft, &style)
}

fn any_char(r: &mut Rng) -> char {
    match r.below(8) {
        0 => char::from_u32(r.below(0x80) as u32).unwrap(),
        1 => char::from_u32(r.below(0x20) as u32).unwrap(),
        2 => r.pick_char("/{}<>[]();:=,\"\\&@#?+-._* \n\r\tazAZ09x'~"),
        3 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap(),
        4 => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}'),
        5 => *r.pick(&['\u{feff}', '\u{0}', '\u{b}', '\u{2028}', '\u{85}', '\u{d}', '\u{10ffff}', '\u{1f600}']),
        _ => r.pick_char("abc019,._+?#- "),
    }
}

fn size(r: &mut Rng) -> usize {
    match r.below(40) {
        0 => r.range(10_000, 60_000),
        1..=6 => r.range(500, 5_000),
        7..=14 => r.range(120, 140),
        _ => r.range(1, 200),
    }
}

/// Repeats something often
fn repeated(r: &mut Rng) -> String {
    let n = size(r);
    let open: &str = r.pick_str(&[
        "n {", "l: n {", "n { a = <1>; ", "(", "<", "[", "{", "/", "/*", "//", "\"", "&{", "&", "&{/a", "<(", "a = ", "/ {",
        "a:", "@", "\\", ",", "#", ";", "}", ")", ">", "/bits/ ", "/include/ \"", "/delete-node/ ", "/omit-if-no-ref/ ",
        "&{/a/b} {", "&l {", "<&", "\"a\",", "n { m { };", "(1 + ", "((", "!", "~", "-", "\n", "\r", "\r\n", "é", "😀",
        "a ", "0x", "0", "9", "f", "g", "\0", "/plugin/;", "/dts-v1/;", "/memreserve/ 1 2;", "a;", "a=<1>;", "n{};", "l:n{};",
        "a=<&l>;", "a=<1", "/a/", "/*/", "*/", "* /", "'", "x:y:", "n@", "a@b@", "a=[", "[0", "[00", "00", "/delete-property/ a;",
    ]);
    let close: &str = match open.trim_end().chars().last() {
        Some('{') => r.pick_str(&["};", "}", "", "} ", "};\n"]),
        Some('(') => r.pick_str(&[")", ""]),
        Some('<') => r.pick_str(&[">", ">;", ""]),
        Some('[') => r.pick_str(&["]", ""]),
        _ => r.pick_str(&["", "", "};", ";"]),
    };
    let middle = r.pick_str(&["", "", "a = <1>;", "1", "é", "\"", "x"]);
    let m = match r.below(4) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => n + 1,
        _ => r.below(n + 1),
    };
    let body = format!("{}{}{}", open.repeat(n), middle, close.repeat(m));
    match r.below(9) {
        0 | 1 => body,
        2 => format!("/dts-v1/;\n/ {{ {body} }};\n"),
        3 => format!("/dts-v1/;\n/ {{ a = <{body}>; }};\n"),
        4 => format!("/ {{ a = <({body})>; }};"),
        5 => format!("/ {{ a = [{body}]; }};"),
        6 => format!("/ {{ a = {body}; }};"),
        7 => format!("/ {{ n{body} {{ }}; }};"),
        _ => format!("/dts-v1/; / {{ {body}"),
    }
}

/// Something long that is nevertheless legal
fn long_list(r: &mut Rng) -> (String, &'static str) {
    let n = 1usize << r.range(8, 16);
    let n = n + r.below(n);
    let rep = |s: &str| s.repeat(n);
    let prop = |v: String| format!("/ {{ a = {v}; }};\n");
    match r.below(26) {
        0 => (prop(format!("{}<1>", rep("<1>,"))), "values"),
        1 => (prop(format!("{}\"x\"", rep("\"x\", "))), "values"),
        2 => (prop(format!("{}[00]", rep("[00],\n"))), "values"),
        3 => (prop(format!("{}&l", rep("&l,"))), "values"),
        4 => (prop(format!("<{}>", rep("1 "))), "cells"),
        5 => (prop(format!("<{}>", rep("&l "))), "cells"),
        6 => (prop(format!("<{}>", rep("(1) "))), "cells"),
        7 => (prop(format!("<({}1)>", rep("1+"))), "operators"),
        8 => (prop(format!("[{}]", rep("00 "))), "bytes"),
        9 => (prop(format!("[{}]", rep("00"))), "bytes"),
        10 => (prop(format!("\"{}\"", rep("x"))), "characters"),
        11 => (prop(format!("\"{}\"", rep("\\\""))), "characters"),
        12 => (prop(format!("\"{}\"", rep("\n"))), "characters"),
        13 => (format!("/ {{ {} }};\n", rep("a;")), "properties"),
        14 => (format!("/ {{ {} }};\n", rep("/delete-property/ a;")), "properties"),
        15 => (format!("/ {{ {} }};\n", rep("n { };")), "nodes"),
        16 => (format!("/ {{ {} }};\n", rep("/delete-node/ n;\n")), "nodes"),
        17 => (rep("/ { };"), "elements"),
        18 => (rep("&l { };\n"), "elements"),
        19 => (rep("/memreserve/ 1 2;"), "elements"),
        20 => (rep("/dts-v1/;"), "elements"),
        21 => (rep("/delete-node/ &l;"), "elements"),
        22 => (rep("// comment\n"), "comments"),
        23 => (rep("/* */"), "comments"),
        24 => (rep(" "), "blanks"),
        _ => (prop(format!("&{{{}}}", rep("/a"))), "path elements"),
    }
}

pub fn hostile(env: &mut Env, r: &mut Rng) -> (String, Ft) {
    let ft = any_type(r);
    if r.below(150) == 0 {
        let (text, what) = long_list(r);
        env.count(&format!("many {what}"), 1);
        return (text, ft);
    }
    let (kind, text) = match r.below(12) {
        0 => ("any document", any_doc(r).laid.text),
        1 | 2 => {
            let m = any_doc(r);
            let n = *r.pick(&[1, 2, 4, 10, 40]);
            ("changed lexemes", mutate_tokens(r, &m, n))
        }
        3 | 4 => {
            let m = any_doc(r);
            let n = *r.pick(&[1, 2, 4, 10, 40]);
            let t = mutate_chars(r, &m.laid.text, n);
            ("changed characters", t)
        }
        5 => {
            let m = any_doc(r);
            let cs: Vec<char> = m.laid.text.chars().collect();
            let a = r.below(cs.len() + 1);
            let b = if r.chance(60) { 0 } else { r.below(a + 1) };
            ("cut off", cs[b..a].iter().collect())
        }
        6 => {
            let n = size(r).min(3000);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(*r.pick(VOCABULARY));
                if r.chance(70) {
                    s.push(' ');
                }
            }
            ("lexemes in any order", s)
        }
        7 => {
            let n = size(r).min(20000);
            ("any characters", (0..n).map(|_| any_char(r)).collect())
        }
        8 => {
            // any bytes, as far as they are text
            let n = size(r).min(20000);
            let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            ("any bytes", String::from_utf8_lossy(&b).to_string())
        }
        9 => {
            // two documents, one within the other
            let a = any_doc(r).laid.text;
            let b = any_doc(r).laid.text;
            let cs: Vec<char> = a.chars().collect();
            let i = r.below(cs.len() + 1);
            let mut s: String = cs[..i].iter().collect();
            s.push_str(&b);
            s.extend(&cs[i..]);
            ("documents within each other", s)
        }
        _ => ("repetition", repeated(r)),
    };
    env.count(kind, 1);
    let depth = text.chars().fold((0i64, 0i64), |(d, m), c| match c {
        '{' | '(' | '<' | '[' => (d + 1, m.max(d + 1)),
        '}' | ')' | '>' | ']' => (d - 1, m),
        _ => (d, m),
    });
    env.count(
        match depth.1 {
            0..=2 => "nesting up to 2",
            3..=20 => "nesting up to 20",
            21..=127 => "nesting up to 127",
            128..=1000 => "nesting up to 1000",
            _ => "nesting above 1000",
        },
        1,
    );
    (text, ft)
}

/// Asks everything that can be asked about a document. Returns the number of answers.
pub fn interrogate(r: &mut Rng, p: &Project, path: &Path, text: &str) -> usize {
    let mut n = 0;
    let d: Vec<_> = p.get_diagnostics(path).cloned().collect();
    // Every diagnostic is printed together with its line
    let longest = text.lines().map(|l| l.len()).max().unwrap_or(0) + 200;
    let printer = DiagnosticPrinter {
        code: text.lines().map(|l| l.to_string()).collect(),
        diagnostics: &d[..d.len().min(2_000_000 / longest + 1)],
        severity_map: SeverityMap::default(),
    };
    n += printer.to_string().len().min(1) + d.len();
    // Without any source
    let printer = DiagnosticPrinter {
        code: vec![],
        diagnostics: &d,
        severity_map: SeverityMap::default(),
    };
    n += printer.to_string().len().min(1);
    if let Some(root) = p.get_root(path) {
        n += format!("{root:?}").len().min(1);
    }
    let ask = |pos: Position| match p.find_at_pos(path, &pos) {
        Some(ItemAtCursor::Reference(x)) => {
            p.document_reference(path, x);
            p.get_node_position(path, x);
            x.to_string();
            3
        }
        Some(ItemAtCursor::Include(i)) => {
            let _ = i.path();
            1
        }
        _ => 1,
    };
    let lines: Vec<&str> = text.split('\n').collect();
    for _ in 0..40 {
        let l = r.below(lines.len());
        let c = r.below(lines[l].encode_utf16().count() + 2);
        n += ask(Position::new(l as u32, c as u32));
    }
    for d in d.iter().take(100) {
        n += ask(d.span.start());
        n += ask(d.span.end());
    }
    n += ask(Position::new(u32::MAX, u32::MAX));
    n += ask(Position::new(0, u32::MAX));
    n
}

pub fn c01(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C01", case);
    let (text, ft) = hostile(env, r);
    let name = ft.named("doc", r.below(13));
    let answers = sut(|| {
        let (p, path) = analyze(&text, ft);
        let mut n = interrogate(r, &p, &path, &text);
        // once more, now in the presence of the file
        let mut p = p;
        p.add_file_with_text(path.clone(), text.clone(), file_type(ft));
        n += p.get_diagnostics(&path).count();
        p.remove_file(&path);
        n
    });
    match answers {
        Err(panic) => return viol_text(format!("crash: {panic}"), &name, &text),
        Ok(n) => {
            env.facts += 1;
            env.count("answers", n as u64)
        }
    }
    if case % 100 == 50 && text.len() < 20_000 {
        via_cli(env, r, &text, &name)?;
    }
    if case % 100 == 0 {
        via_lsp(env, r, &text, &name)?;
    }
    env.seen(&text);
    env.count("bytes", text.len() as u64);
    env.sample(|| text.clone());
    Ok(())
}

fn via_cli(env: &mut Env, r: &mut Rng, text: &str, name: &str) -> Res<()> {
    let dir = env.dir("t");
    std::fs::write(dir.join(name), text).unwrap();
    let out = cli(env, &[name.to_string()], &dir)?;
    env.count("runs of the command line tool", 1);
    if out.died() || !matches!(out.code, Some(0) | Some(1)) {
        return viol_text(format!("the command line tool died: {:?} {:?}\n{}", out.code, out.signal, out.err), name, text);
    }
    if r.chance(10) {
        // Any bytes
        let mut b = text.as_bytes().to_vec();
        for _ in 0..r.range(1, 4) {
            let i = r.below(b.len() + 1);
            b.insert(i, 0x80 + r.below(0x80) as u8);
        }
        std::fs::write(dir.join(name), &b).unwrap();
        let out = cli(env, &[name.to_string()], &dir)?;
        env.count("files that may not be UTF-8", 1);
        if out.died() {
            return viol("the command line tool died", vec![(name.to_string(), b)]);
        }
    }
    env.remove_dir(&dir);
    Ok(())
}

fn via_lsp(env: &mut Env, r: &mut Rng, text: &str, name: &str) -> Res<()> {
    let dir = env.dir("t");
    let path = dir.join(name);
    let mut l = Lsp::start(env, &[], &dir, json!(null))?;
    env.count("runs of the language server", 1);
    let blame = |e: Fail| match e {
        Fail::Viol(mut v) => {
            v.files.push((name.to_string(), text.as_bytes().to_vec()));
            Fail::Viol(v)
        }
        e => e,
    };
    l.open(&path, text);
    let mut ids = vec![l.symbols(&path)];
    let lines: Vec<&str> = text.split('\n').collect();
    for _ in 0..10 {
        let n = r.below(lines.len());
        let c = r.below(lines[n].encode_utf16().count() + 2);
        ids.push(l.at("textDocument/hover", &path, n as u32, c as u32));
        ids.push(l.at("textDocument/definition", &path, n as u32, c as u32));
    }
    for id in ids {
        l.result(id).map_err(blame)?;
        env.count("answers of the language server", 1);
    }
    l.change(&path, 2, "/dts-v1/;\n");
    if l.settle(&path, |d| d == Some(&json!([]))).map_err(blame)?.is_err() {
        return viol_text("the language server does not recover", name, text);
    }
    l.shutdown().map_err(blame)?;
    env.remove_dir(&dir);
    Ok(())
}

/// Positions of any text
fn in_text(lines: &[u32], p: Pos) -> bool {
    // The end of the file may be reported right behind the last character
    match lines.get(p.line as usize) {
        Some(n) => p.col <= *n + 1,
        None => false,
    }
}

pub fn c04_any(env: &mut Env, r: &mut Rng) -> Res<()> {
    let (text, ft) = loop {
        let (t, ft) = hostile(env, r);
        // A lone carriage return is not specified
        if !t.replace("\r\n", "").contains('\r') {
            break (t, ft);
        }
    };
    let name = ft.named("doc", r.below(13));
    let got = match sut(|| {
        let (p, path) = analyze(&text, ft);
        diags(&p, &path)
    }) {
        Ok(x) => x,
        Err(panic) => return viol_text(format!("crash: {panic}"), &name, &text),
    };
    let all: Vec<&str> = text.split('\n').collect();
    let lines: Vec<u32> = all.iter().map(|l| l.encode_utf16().count() as u32).collect();
    for (i, d) in got.iter().enumerate() {
        env.facts += 1;
        if d.start > d.end {
            return viol_text(format!("ends before it starts: {d}"), &name, &text);
        }
        if !in_text(&lines, d.start) || !in_text(&lines, d.end) {
            return viol_text(format!("outside of the text: {d}"), &name, &text);
        }
        // not within a character
        let line = all[d.start.line as usize];
        if line.len() > 1000 && i > 100 {
            continue;
        }
        let mut c = 0;
        for ch in line.chars() {
            if c + 1 == d.start.col && ch.len_utf16() == 2 {
                return viol_text(format!("starts within a character: {d}"), &name, &text);
            }
            c += ch.len_utf16() as u32;
            if c > d.start.col {
                break;
            }
        }
    }
    env.count("diagnostics", got.len() as u64);
    env.seen(&text);
    Ok(())
}
