//! Malformed text is reported, well-formed text is not.
use super::lang::{any_type, sized};
use crate::env::*;
use crate::gen::*;
use crate::inproc::*;
use crate::model::*;
use crate::refparse::{recognise, recognise_prefix, Verdict};
use crate::rng::Rng;
use crate::toks::*;

pub const SYNTAX_CODES: &[&str] = &[
    "unexpected_eof",
    "expected",
    "expected_name",
    "odd_number_of_bytestring_elements",
    "int_error",
    "illegal_char",
    "illegal_start",
    "path_cannot_be_empty",
    "property_after_node",
    "unbalanced_parentheses",
    "incorrect_directive",
    "parser_error",
];

pub const VOCABULARY: &[&str] = &[
    "/dts-v1/", ";", ";", ";", "/plugin/", "/memreserve/", "/include/", "/delete-node/", "/delete-property/",
    "/omit-if-no-ref/", "/bits/", "/foo/", "/", "{", "}", "{", "}", "=", "<", ">", "[", "]", "(", ")", ",", ":", "@",
    "\"str\"", "\"\"", "\"a\\\"b\"", "\"", "&label", "&{/}", "&{/a/b@1}", "&{}", "&", "&{", "label:", "l2:", "name",
    "node@1", "node@", "a,b", "#cells", "x?y", "0", "1", "0x10", "0xfg", "09", "4294967296", "8", "64", "ab", "abc",
    "12", "a1", "zz", "(1 + 2)", "((", "//c\n", "/*c*/", "/*", "*/", "+", "-", "1-2", "é", "😀", "\0", "'", "\\", "$",
    "!", "*", "%", "~", "|", "^", "compatible", "__symbols__", "\x0c", "\r\n", "};", "/ {", "a = <1>;", "n { };",
    "[ab cd]", "<&label 1>", "\"a\", \"b\"",
];

pub fn mutate_tokens(r: &mut Rng, m: &FileM, n: usize) -> String {
    // pieces: gap, token, gap, token, ..., gap
    let mut gaps: Vec<String> = vec![];
    let mut toks: Vec<String> = vec![];
    let mut at = 0;
    for (a, b) in &m.laid.b {
        gaps.push(m.laid.text[at..*a].to_string());
        toks.push(m.laid.text[*a..*b].to_string());
        at = *b;
    }
    let tail = m.laid.text[at..].to_string();
    for _ in 0..n {
        if toks.is_empty() {
            break;
        }
        let i = r.below(toks.len());
        match r.below(9) {
            0 | 1 => {
                toks.remove(i);
                gaps.remove(i);
            }
            2 => {
                let t = toks[i].clone();
                toks.insert(i, t);
                let g = if r.chance(80) { " ".to_string() } else { String::new() };
                gaps.insert(i + 1, g);
            }
            3 => {
                let j = r.below(toks.len());
                toks.swap(i, j);
            }
            4 if i + 1 < toks.len() => toks.swap(i, i + 1),
            5 => toks[i] = r.pick(VOCABULARY).to_string(),
            6 => {
                let t = r.pick(VOCABULARY).to_string();
                toks.insert(i, t);
                let g = if r.chance(80) { " ".to_string() } else { String::new() };
                gaps.insert(i + 1, g);
            }
            7 => {
                let j = r.below(toks.len());
                toks[i] = toks[j].clone();
            }
            _ => {
                let g = &mut gaps[i];
                if r.chance(50) {
                    g.clear();
                } else {
                    g.push(' ');
                }
            }
        }
    }
    let mut s = String::new();
    for (g, t) in gaps.iter().zip(&toks) {
        s.push_str(g);
        s.push_str(t);
    }
    s.push_str(&tail);
    s
}

pub fn mutate_chars(r: &mut Rng, text: &str, n: usize) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    for _ in 0..n {
        if cs.is_empty() {
            break;
        }
        let i = r.below(cs.len());
        let c = r.pick_char("/{}<>[]();:=,\"\\&@#?+-._* \n\tazAZ09x'~é😀\0");
        match r.below(6) {
            0 | 1 => {
                cs.remove(i);
            }
            2 | 3 => cs.insert(i, c),
            4 => cs[i] = c,
            _ => {
                let j = r.below(cs.len());
                cs.swap(i, j);
            }
        }
    }
    cs.into_iter().collect()
}

pub fn judge(env: &mut Env, text: &str, name: &str, got: &[D]) -> Res<()> {
    let syn: Vec<&D> = got.iter().filter(|d| SYNTAX_CODES.contains(&d.code.as_str())).collect();
    let (verdict, good) = recognise_prefix(text);
    if !matches!(verdict, Verdict::Unspec(_)) {
        let end = advance(Pos::new(0, 0), &text[..good]);
        if let Some(d) = syn.iter().find(|d| d.start < end) {
            return viol_text(format!("everything up to {end} is well-formed, but reported: {d}"), name, text);
        }
    }
    match verdict {
        Verdict::Well => {
            env.count("well-formed", 1);
            env.facts += 1;
            if let Some(d) = syn.first() {
                return viol_text(format!("well-formed, but reported: {d}"), name, text);
            }
        }
        Verdict::Bad(at, why) => {
            env.count("malformed", 1);
            env.count(&format!("malformed: {why}"), 1);
            env.facts += 1;
            if !syn.iter().any(|d| d.sev == "error") {
                return viol_text(
                    format!("malformed ({why} at byte {at} {:?}), but not reported", text.get(at..(at + 20).min(text.len()))),
                    name,
                    text,
                );
            }
            // It is reported where the text ceases to be well-formed
            let mut limit = text.len().min(at);
            // A directive that is cut off may be noticed at the end of the text only
            let tail = &text[limit..];
            if tail.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'/') {
                limit = text.len();
            }
            let limit = advance(Pos::new(0, 0), &text[..limit]);
            env.facts += 1;
            let first = syn.iter().filter(|d| d.sev == "error").map(|d| d.start).min().unwrap();
            if first > limit {
                return viol_text(format!("malformed since {limit} ({why}), but the first error is at {first}: {syn:?}"), name, text);
            }
            for d in syn {
                env.count(&format!("reported {}", d.code), 1);
            }
        }
        Verdict::Unspec(_) => {
            env.count("not specified", 1);
            return Ok(());
        }
    }
    env.seen(text);
    Ok(())
}

/// One lexeme of every kind
const KINDS: &[&str] = &[
    "/dts-v1/", "/plugin/", "/memreserve/", "/include/", "/delete-node/", "/delete-property/", "/omit-if-no-ref/",
    "/bits/", "/foo/", "/", "{", "}", "=", "<", ">", "[", "]", "(", ")", ",", ";", "\"s\"", "&l", "&{/}", "l:", "n", "n@1",
    "#p", "8", "0x1f", "a1", "+", "//c\n", "$",
];

const FRAMES: &[(&str, &str)] = &[
    ("", ""),
    ("/ { ", " };"),
    ("/ { n { }; ", " };"),
    ("/ { a = ", "; };"),
    ("/ { a = <", ">; };"),
    ("/ { a = [", "]; };"),
    ("/ { a = <1>, ", "; n { }; };"),
    ("/memreserve/ 1 2", ""),
];

/// All sequences of up to three lexemes in some layout (and, if there is more time, of four; otherwise some of them)
fn short_sequences(env: &mut Env, case: usize) -> Res<()> {
    let k = KINDS.len() + 1;
    let r = &mut Rng::of(env.seed, "C05-short", case as u64);
    let (before, after) = FRAMES[case % FRAMES.len()];
    let case = case / FRAMES.len();
    let pick = |i: usize| if i == 0 { "" } else { KINDS[i - 1] };
    let (a, b, d) = (pick(case / k % k), pick(case % k), pick(case / k / k));
    if (a.is_empty() && !b.is_empty()) || (b.is_empty() && !d.is_empty()) {
        // the same as others
        return Ok(());
    }
    for c in 0..if b.is_empty() { 1 } else { k } {
        if c == 0 && !d.is_empty() {
            continue;
        }
        let random = if c > 0 && !env.thorough() { Some(*r.pick(KINDS)) } else { None };
        for d in [Some(d), random].into_iter().flatten() {
            let mut gap = || if r.chance(50) { " " } else { r.pick_str(&["", "", "\n", "/**/", "//\n"]) };
            let (g1, g2, g3) = (gap(), gap(), gap());
            let text = format!("{before}{a}{g1}{b}{g2}{}{g3}{d}{after}", pick(c));
            let got = match sut(|| {
                let (p, path) = analyze(&text, Ft::Dtsi);
                diags(&p, &path)
            }) {
                Ok(x) => x,
                Err(panic) => return viol_text(format!("crash: {panic}"), "doc.dtsi", &text),
            };
            env.count("short sequences", 1);
            judge(env, &text, "doc.dtsi", &got)?;
        }
    }
    Ok(())
}

/// Where a label can be in front of: the tokens that begin an item, or the name of one
fn label_places(m: &FileM) -> Vec<usize> {
    fn body(b: &BodyM, out: &mut Vec<usize>) {
        for it in &b.items {
            match it {
                ItemM::Prop(p) => {
                    out.extend(p.label.iter().map(|l| l.tok));
                    out.push(p.name_tok);
                }
                ItemM::Node(n) => {
                    out.extend(n.omit);
                    out.extend(n.label.iter().map(|l| l.tok));
                    out.push(n.name_tok);
                    out.push(n.body.open);
                    body(&n.body, out);
                }
                ItemM::DelNode { kw, tok, .. } | ItemM::DelProp { kw, tok, .. } => out.extend([*kw, *tok]),
            }
        }
        out.push(b.close);
        out.extend(b.end);
    }
    let mut out = vec![];
    for t in &m.tops {
        match t {
            TopM::Header { tok } | TopM::Plugin { tok } => out.push(*tok),
            TopM::Memreserve { .. } => {}
            TopM::Include { kw, tok, .. } => out.extend([*kw, *tok]),
            TopM::Del { kw, r } | TopM::Omit { kw, r } => out.extend([*kw, m.refs[*r].tok]),
            TopM::Root(n) => {
                out.extend([n.name_tok, n.body.open]);
                body(&n.body, &mut out);
            }
            TopM::RefNode { r, body: b } => {
                out.extend([m.refs[*r].tok, b.open]);
                body(b, &mut out);
            }
        }
    }
    out.extend((0..m.toks.len()).filter(|t| m.toks[*t].s == "/memreserve/"));
    out
}

/// A label is never ignored: either it belongs to something, or it is an error
fn extra_label(env: &mut Env, r: &mut Rng) -> Res<()> {
    let ft = any_type(r);
    let cfg = sized(r, Cfg::default());
    let style = Style::random(r);
    let m = single(r, cfg, ft, &style);
    let places = label_places(&m);
    for _ in 0..4 {
        let at = m.laid.b[*r.pick(&places)].0;
        let gap = r.pick_str(&["", " ", "\n", "/**/"]);
        let text = format!("{} unique_42:{gap}{}", &m.laid.text[..at], &m.laid.text[at..]);
        let name = format!("doc.{}", ft.ext());
        let (got, kept) = match sut(|| {
            let (p, path) = analyze(&text, ft);
            let kept = p.get_root(&path).is_some_and(|root| root.to_string().contains("unique_42"));
            (diags(&p, &path), kept)
        }) {
            Ok(x) => x,
            Err(panic) => return viol_text(format!("crash: {panic}"), &name, &text),
        };
        judge(env, &text, &name, &got)?;
        env.facts += 1;
        let reported = got.iter().any(|d| d.sev == "error" && SYNTAX_CODES.contains(&d.code.as_str()));
        env.count(if reported { "extra labels reported" } else { "extra labels kept" }, 1);
        if !reported && !kept {
            return viol_text("the label 'unique_42' is neither reported nor part of anything", &name, &text);
        }
    }
    Ok(())
}

pub fn c05(env: &mut Env, case: u64) -> Res<()> {
    let k = KINDS.len() + 1;
    if (case as usize) < FRAMES.len() * k * k * if env.thorough() { k } else { 1 } {
        return short_sequences(env, case as usize);
    }
    let r = &mut Rng::of(env.seed, "C05", case);
    if r.chance(8) {
        return extra_label(env, r);
    }
    let ft = any_type(r);
    let mut cfg = sized(r, Cfg::default());
    if r.chance(80) {
        cfg.max_tops = 3;
        cfg.max_items = 3;
        cfg.max_depth = 2;
        cfg.budget = 60;
    }
    let style = Style::random(r);
    let m = single(r, cfg, ft, &style);
    let text = match r.below(20) {
        0 => m.laid.text.clone(),
        1..=8 => {
            let n = *r.pick(&[1, 1, 1, 1, 2, 3, 6]);
            mutate_tokens(r, &m, n)
        }
        9..=14 => {
            let n = *r.pick(&[1, 1, 1, 1, 2, 3, 8]);
            mutate_chars(r, &m.laid.text, n)
        }
        15 => {
            // truncated
            let cs: Vec<char> = m.laid.text.chars().collect();
            let n = r.below(cs.len() + 1);
            cs[..n].iter().collect()
        }
        _ => {
            // lexemes in any order, within a frame
            let mut s = String::new();
            for _ in 0..r.range(1, 14) {
                s.push_str(*r.pick(VOCABULARY));
                if r.chance(75) {
                    s.push(' ');
                }
            }
            match r.below(6) {
                0 => s,
                1 => format!("/dts-v1/; / {{ {s} }};"),
                2 => format!("/ {{ a = {s}; }};"),
                3 => format!("/ {{ a = <{s}>; }};"),
                4 => format!("/ {{ a = [{s}]; n {{ }}; }};"),
                _ => format!("/ {{ l: n {{ {s}; }}; }};"),
            }
        }
    };
    let name = format!("doc.{}", ft.ext());
    let got = match sut(|| {
        let (p, path) = analyze(&text, ft);
        diags(&p, &path)
    }) {
        Ok(x) => x,
        Err(panic) => return viol_text(format!("crash: {panic}"), &name, &text),
    };
    env.sample(|| format!("{:?}\n{text}", recognise(&text)));
    judge(env, &text, &name, &got)
}
