//! The language server: outline, hover, definition.
use super::files::with_world;
use super::total::{any_doc, hostile};
use crate::env::*;
use crate::inproc::*;
use crate::model::*;
use crate::proc::*;
use crate::rng::Rng;
use crate::toks::*;
use crate::world::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};

pub const CODES: &[&str] = &[
    "unexpected_eof",
    "expected",
    "expected_name",
    "odd_number_of_bytestring_elements",
    "int_error",
    "non_dts_v1",
    "name_too_long",
    "illegal_char",
    "illegal_start",
    "unresolved_reference",
    "property_referenced_by_node",
    "non_string_in_compatible",
    "path_cannot_be_empty",
    "property_after_node",
    "unbalanced_parentheses",
    "misplaced_dts_header",
    "duplicate_directive",
    "incorrect_directive",
    "parser_error",
    "io_error",
    "errors_in_include",
    "cyclic_dependency_error",
];

pub fn json_pos(v: &Value) -> Option<Pos> {
    Some(Pos::new(v["line"].as_u64()?.try_into().ok()?, v["character"].as_u64()?.try_into().ok()?))
}

pub fn json_range(v: &Value) -> Option<(Pos, Pos)> {
    Some((json_pos(&v["start"])?, json_pos(&v["end"])?))
}

/// Published diagnostics. Err: they are not what they should look like.
pub fn published(v: &Value) -> Result<Vec<D>, String> {
    let mut out = vec![];
    for d in v.as_array().ok_or("not a list")? {
        let (start, end) = json_range(&d["range"]).ok_or_else(|| format!("no range: {d}"))?;
        let code = d["code"].as_str().ok_or_else(|| format!("no code: {d}"))?;
        if !CODES.contains(&code) {
            return Err(format!("unknown code: {d}"));
        }
        let sev = match d["severity"].as_u64() {
            Some(1) => "error",
            Some(2) => "warning",
            _ => return Err(format!("unexpected severity: {d}")),
        };
        if (sev == "warning") != is_warning(code) {
            return Err(format!("wrong severity: {d}"));
        }
        if d["source"].as_str() != Some("ginko_ls") {
            return Err(format!("unexpected source: {d}"));
        }
        let msg = d["message"].as_str().ok_or_else(|| format!("no message: {d}"))?;
        if msg.is_empty() {
            return Err(format!("no message: {d}"));
        }
        out.push(D {
            code: code.to_string(),
            start,
            end,
            sev,
            msg: msg.to_string(),
        });
    }
    out.sort();
    Ok(out)
}

/// Starts a server that knows the include paths of the world
pub fn serve(env: &Env, r: &mut Rng, w: &World) -> Res<Lsp> {
    let k = r.below(w.inc_args.len() + 1);
    let mut args = vec![];
    for a in &w.inc_args[..k] {
        args.push(r.pick_str(&["-i", "--include"]).to_string());
        args.push(a.clone());
    }
    let rest = json!({"includes": w.inc_args[k..]});
    if r.chance(50) || k == w.inc_args.len() {
        let opt = if k == w.inc_args.len() && r.chance(50) { Value::Null } else { rest };
        Lsp::start(env, &args, &w.cwd, opt)
    } else {
        let opt = if r.chance(50) { Value::Null } else { json!({"includes": ["/nowhere"]}) };
        let mut l = Lsp::start(env, &args, &w.cwd, opt)?;
        l.configure(rest);
        Ok(l)
    }
}

/// One of the names that a file is known by: itself, or through a link to it or to its directory
fn known_as(env: &mut Env, r: &mut Rng, w: &World, path: &Path) -> PathBuf {
    if r.chance(70) {
        return path.to_path_buf();
    }
    let links = w.root.join("links");
    std::fs::create_dir_all(&links).unwrap();
    env.count("documents addressed through links", 1);
    let name = path.file_name().unwrap();
    let (link, target, known) = if r.chance(50) {
        let ext = path.extension().map(|e| format!(".{}", e.to_str().unwrap())).unwrap_or_default();
        let link = links.join(format!("f{}{ext}", w.files.iter().position(|f| f.path == path).unwrap_or(999)));
        (link.clone(), path, link)
    } else {
        let dir = path.parent().unwrap();
        let rel = dir.strip_prefix(&w.root).unwrap_or(dir).to_str().unwrap().replace('/', "_");
        let start: String = rel.chars().take(40).collect();
        let link = links.join(format!("d {start} {}", rel.len()));
        (link.clone(), dir, link.join(name))
    };
    if std::fs::symlink_metadata(&link).is_err() {
        std::os::unix::fs::symlink(target, &link).unwrap();
    }
    known
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Sym {
    name: String,
    kind: u64,
    deprecated: bool,
    range: Option<(Pos, Pos)>,
    sel: (Pos, Pos),
    children: Vec<Sym>,
}

const FILE: u64 = 1;
const MODULE: u64 = 2;
const PROPERTY: u64 = 7;
const FIELD: u64 = 8;

fn body_syms(m: &FileM, b: &BodyM) -> Vec<Sym> {
    let l = &m.laid;
    b.items
        .iter()
        .map(|it| match it {
            ItemM::Prop(p) => Sym {
                name: p.name.clone(),
                kind: PROPERTY,
                deprecated: false,
                range: p.end.map(|e| (l.start(p.label.as_ref().map(|l| l.tok).unwrap_or(p.name_tok)), l.end(e))),
                sel: (l.start(p.name_tok), l.end(p.name_tok)),
                children: vec![],
            },
            ItemM::Node(n) => node_sym(m, n),
            ItemM::DelNode { kw, name, tok } => Sym {
                name: name.clone(),
                kind: MODULE,
                deprecated: true,
                range: Some((l.start(*kw), l.end(*tok))),
                sel: (l.start(*tok), l.end(*tok)),
                children: vec![],
            },
            ItemM::DelProp { kw, name, tok } => Sym {
                name: name.clone(),
                kind: PROPERTY,
                deprecated: true,
                range: Some((l.start(*kw), l.end(*tok))),
                sel: (l.start(*tok), l.end(*tok)),
                children: vec![],
            },
        })
        .collect()
}

fn node_sym(m: &FileM, n: &NodeM) -> Sym {
    let l = &m.laid;
    Sym {
        name: n.base.clone(),
        kind: MODULE,
        deprecated: false,
        range: n.body.end.map(|e| (l.start(n.label.as_ref().map(|l| l.tok).unwrap_or(n.name_tok)), l.end(e))),
        sel: (l.start(n.name_tok), l.end(n.name_tok)),
        children: body_syms(m, &n.body),
    }
}

pub fn syms(m: &FileM) -> Vec<Sym> {
    let l = &m.laid;
    let refsym = |r: usize, kind, deprecated, kw: usize| {
        let u = &m.refs[r];
        Sym {
            name: u.r.text(),
            kind,
            deprecated,
            range: Some((l.start(kw), l.end(u.tok))),
            sel: (l.start(u.tok), l.end(u.tok)),
            children: vec![],
        }
    };
    m.tops
        .iter()
        .filter_map(|t| match t {
            TopM::Header { .. } | TopM::Plugin { .. } | TopM::Memreserve { .. } => None,
            TopM::Include { kw, tok, file } => Some(Sym {
                name: format!("include {file}"),
                kind: FILE,
                deprecated: false,
                range: Some((l.start(*kw), l.end(*tok))),
                sel: (l.start(*tok), l.end(*tok)),
                children: vec![],
            }),
            TopM::Del { kw, r } => Some(refsym(*r, MODULE, true, *kw)),
            TopM::Omit { kw, r } => Some(refsym(*r, FIELD, false, *kw)),
            TopM::Root(n) => Some(node_sym(m, n)),
            TopM::RefNode { r, body } => {
                let u = &m.refs[*r];
                Some(Sym {
                    name: u.r.text(),
                    kind: MODULE,
                    deprecated: false,
                    range: body.end.map(|e| (l.start(u.tok), l.end(e))),
                    sel: (l.start(u.tok), l.end(u.tok)),
                    children: body_syms(m, body),
                })
            }
        })
        .collect()
}

pub fn cmp_syms(want: &[Sym], got: &Value, facts: &mut u64) -> Result<(), String> {
    let got = match got {
        Value::Null => vec![],
        v => v.as_array().ok_or_else(|| format!("not a list: {v}"))?.clone(),
    };
    let names = |g: &[Value]| g.iter().map(|v| v["name"].as_str().unwrap_or("?").to_string()).collect::<Vec<_>>();
    if want.len() != got.len() {
        let w: Vec<&String> = want.iter().map(|w| &w.name).collect();
        return Err(format!("expected the elements {w:?}, got {:?}", names(&got)));
    }
    for (w, g) in want.iter().zip(&got) {
        let deprecated = g["tags"].as_array().is_some_and(|t| t.contains(&json!(1))) || g["deprecated"] == json!(true);
        let range = json_range(&g["range"]);
        let ok = g["name"].as_str() == Some(&w.name)
            && g["kind"].as_u64() == Some(w.kind)
            && deprecated == w.deprecated
            && range.is_some()
            && (w.range.is_none() || range == w.range)
            && json_range(&g["selectionRange"]) == Some(w.sel);
        *facts += 5;
        if !ok {
            let mut g = g.clone();
            g["children"] = Value::Null;
            return Err(format!("expected {:?}, got {g}", Sym { children: vec![], ..w.clone() }));
        }
        cmp_syms(&w.children, &g["children"], facts).map_err(|e| format!("in '{}': {e}", w.name))?;
    }
    Ok(())
}

/// What is true for the outline of any document. Returns the number of symbols.
pub fn sane_syms(v: &Value, outer: Option<(Pos, Pos)>) -> Result<u64, String> {
    let mut n = 0;
    for s in v.as_array().unwrap_or(&vec![]) {
        let short = || {
            let mut s = s.clone();
            s["children"] = Value::Null;
            s.to_string()
        };
        let range = json_range(&s["range"]).ok_or_else(short)?;
        let sel = json_range(&s["selectionRange"]).ok_or_else(short)?;
        if range.0 > range.1 || sel.0 > sel.1 {
            return Err(format!("ends before it starts: {}", short()));
        }
        if sel.0 < range.0 || sel.1 > range.1 {
            return Err(format!("the selection is not part of the range: {}", short()));
        }
        if let Some(o) = outer {
            if range.0 < o.0 || range.1 > o.1 {
                return Err(format!("not within its parent: {}", short()));
            }
        }
        n += 1 + sane_syms(&s["children"], Some(range))?;
    }
    Ok(n)
}

pub fn c13(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C13", case);
    if case % 3 == 0 {
        return outline_any(env, r);
    }
    let mut cfg = WCfg {
        max_files: *r.pick(&[1, 2, 3]),
        missing: *r.pick(&[0, 30]),
        ..WCfg::default()
    };
    for c in [&mut cfg.main, &mut cfg.other] {
        c.max_tops = 6;
        c.budget = *r.pick(&[60, 300]);
        c.spines = 25;
        c.f_sem = *r.pick(&[0, 0, 10]);
        c.unresolved = *r.pick(&[0, 10]);
        c.plugin = r.chance(10);
        if r.chance(3) {
            c.max_items = 400;
        }
        if r.chance(20) {
            c.tame = true;
            c.f_semi = 10;
        }
    }
    cfg.main_ft = Some(*r.pick(&[Ft::Dts, Ft::Dtsi, Ft::Dtso]));
    let w = build(env, r, &cfg);
    with_world(env, w, |env, w| {
        let mut l = serve(env, r, w)?;
        let mut ids = vec![];
        // Files that are included need not be opened
        for (j, f) in w.files.iter().enumerate() {
            if j == 0 || r.chance(50) {
                l.open(&known_as(env, r, w, &f.path), &f.text);
            }
            ids.push(l.symbols(&known_as(env, r, w, &f.path)));
        }
        for (f, id) in w.files.iter().zip(ids) {
            let got = l.result(id)?;
            env.count("outlines", 1);
            let Some(m) = &f.m else { continue };
            if got.is_null() {
                return w.fail(format!("{}: there is no outline", f.path.display()));
            }
            if let Err(e) = cmp_syms(&syms(m), &got, &mut env.facts) {
                return w.fail(format!("{}: outline differs: {e}", f.path.display()));
            }
            match sane_syms(&got, None) {
                Ok(n) => env.count("symbols", n),
                Err(e) => return w.fail(format!("{}: {e}", f.path.display())),
            }
        }
        // A file that the server does not know
        let id = l.symbols(&w.root.join("unknown.dts"));
        let got = l.result(id)?;
        if !got.is_null() && got != json!([]) {
            return w.fail("outline of an unknown file");
        }
        l.shutdown()?;
        Ok(())
    })
}

fn outline_any(env: &mut Env, r: &mut Rng) -> Res<()> {
    let dir = env.dir("o");
    let mut l = Lsp::start(env, &[], &dir, Value::Null)?;
    for i in 0..15 {
        let (text, ft) = if r.chance(50) {
            let m = any_doc(r);
            (m.laid.text.clone(), m.ft)
        } else {
            hostile(env, r)
        };
        if text.len() > 20_000 {
            continue;
        }
        let path = dir.join(ft.named(&format!("d{i}"), r.below(13)));
        l.open(&path, &text);
        let id = l.symbols(&path);
        let got = l.result(id)?;
        match sane_syms(&got, None) {
            Ok(n) => {
                env.facts += n;
                env.count("symbols of any text", n);
                if n > 0 {
                    env.seen(&text);
                }
            }
            Err(e) => return viol_text(e, &format!("doc.{}", ft.ext()), &text),
        }
        env.count("outlines of any text", 1);
    }
    env.remove_dir(&dir);
    Ok(())
}

#[derive(Debug, Clone)]
enum What {
    Ref(usize),
    Label(String),
    Include(String, Option<PathBuf>),
    /// not specified
    Any,
}

fn body_items(m: &FileM, b: &BodyM, out: &mut Vec<(usize, usize, What)>) {
    for it in &b.items {
        match it {
            ItemM::Prop(p) => {
                if let Some(l) = &p.label {
                    out.push((l.tok, l.tok, What::Label(l.text.clone())));
                }
                for v in &p.vals {
                    match v {
                        ValM::Ref(r) => out.push((m.refs[*r].tok, m.refs[*r].tok, What::Ref(*r))),
                        ValM::Cells { cells, .. } => {
                            for c in cells {
                                if let CellM::Ref(r) = c {
                                    out.push((m.refs[*r].tok, m.refs[*r].tok, What::Ref(*r)));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            ItemM::Node(n) => {
                if let Some(l) = &n.label {
                    out.push((l.tok, l.tok, What::Label(l.text.clone())));
                }
                body_items(m, &n.body, out);
            }
            _ => {}
        }
    }
}

fn items(w: &World, f: &WFile, m: &FileM) -> Vec<(usize, usize, What)> {
    let mut out = vec![];
    for t in &m.tops {
        match t {
            TopM::Include { kw, tok, file } => {
                let target = resolve(f.path.parent().unwrap(), file, &w.inc_dirs, &w.cwd);
                out.push((*kw, *tok, What::Include(file.clone(), target)));
            }
            TopM::Del { r, .. } | TopM::Omit { r, .. } => out.push((m.refs[*r].tok, m.refs[*r].tok, What::Ref(*r))),
            TopM::Root(n) => body_items(m, &n.body, &mut out),
            TopM::RefNode { r, body } => {
                out.push((m.refs[*r].tok, m.refs[*r].tok, What::Ref(*r)));
                body_items(m, body, &mut out);
            }
            _ => {}
        }
    }
    // labels within values
    for (i, t) in m.toks.iter().enumerate() {
        if t.k == TK::Label && !out.iter().any(|o| o.0 == i) {
            out.push((i, i, What::Any));
        }
    }
    out
}

fn hover_text(v: &Value) -> Option<String> {
    let c = &v["contents"];
    match c {
        Value::String(s) => Some(s.clone()),
        Value::Object(_) => c["value"].as_str().map(|s| s.to_string()),
        Value::Array(a) => Some(
            a.iter()
                .map(|x| x.as_str().or(x["value"].as_str()).unwrap_or("").to_string())
                .collect::<Vec<_>>()
                .join("\n"),
        ),
        _ => None,
    }
}

fn locations(v: &Value) -> Option<Vec<(PathBuf, Pos, Pos)>> {
    let list = match v {
        Value::Null => vec![],
        Value::Array(a) => a.clone(),
        v => vec![v.clone()],
    };
    list.iter()
        .map(|l| {
            let (uri, range) = match l.get("targetUri") {
                Some(u) => (u, &l["targetSelectionRange"]),
                None => (&l["uri"], &l["range"]),
            };
            let (a, b) = json_range(range)?;
            Some((uri_path(uri.as_str()?)?, a, b))
        })
        .collect()
}

/// All positions of a text at which something may be asked
fn positions(text: &str) -> Vec<Pos> {
    let mut out = vec![Pos::new(0, 0)];
    let mut p = Pos::new(0, 0);
    for ch in text.chars() {
        let s = ch.to_string();
        p = advance(p, &s);
        out.push(p);
    }
    out
}

fn ask_everywhere(env: &mut Env, r: &mut Rng, w: &World, l: &mut Lsp, j: usize, limit: usize) -> Res<()> {
    let f = &w.files[j];
    let Some(m) = &f.m else { return Ok(()) };
    let items = items(w, f, m);
    let mut ps = positions(&f.text);
    if ps.len() > limit {
        // all positions around items, some of the others
        let mut near = vec![];
        for (a, b, _) in &items {
            for p in [m.laid.start(*a), m.laid.end(*b)] {
                near.push(p);
                near.push(Pos::new(p.line, p.col + 1));
                if p.col > 0 {
                    near.push(Pos::new(p.line, p.col - 1));
                }
            }
        }
        near.retain(|p| ps.binary_search(p).is_ok());
        r.shuffle(&mut ps);
        ps.truncate(limit / 2);
        r.shuffle(&mut near);
        near.truncate(limit / 2);
        ps.extend(near);
    }
    // Outside of the text
    let end = m.laid.eof();
    ps.push(Pos::new(end.line + 1, 0));
    ps.push(Pos::new(u32::MAX, u32::MAX));
    ps.push(Pos::new(end.line + 1000, 17));
    let mut asked = vec![];
    let names = [known_as(env, r, w, &f.path), known_as(env, r, w, &f.path)];
    for p in ps {
        let h = l.at("textDocument/hover", r.pick(&names), p.line, p.col);
        let d = l.at("textDocument/definition", r.pick(&names), p.line, p.col);
        asked.push((p, h, d));
    }
    for (p, h, d) in asked {
        let what = items
            .iter()
            .find(|(a, b, _)| m.laid.start(*a) <= p && p < m.laid.end(*b))
            .map(|i| i.2.clone());
        let hover = l.result(h)?;
        let def = l.result(d)?;
        let fail = |msg: String| w.fail(format!("{} at {p} ({what:?}): {msg}\nhover: {hover}\ndefinition: {def}", f.path.display()));
        let text = match &hover {
            Value::Null => None,
            v => match hover_text(v) {
                Some(t) => Some(t),
                None => return fail("not a hover".into()),
            },
        };
        let Some(locs) = locations(&def) else { return fail("not a location".into()) };
        env.facts += 2;
        match &what {
            Some(What::Any) => {}
            None => {
                env.count("positions without anything", 1);
                if text.is_some() || !locs.is_empty() {
                    return fail("there is nothing".into());
                }
            }
            Some(What::Label(t)) => {
                env.count("positions of labels", 1);
                if text.as_deref() != Some(t) || !locs.is_empty() {
                    return fail(format!("expected the label {t}"));
                }
            }
            Some(What::Include(name, target)) => {
                env.count("positions of includes", 1);
                if text.as_deref() != Some(name) {
                    return fail(format!("expected {name}"));
                }
                let want: Vec<_> = target.iter().map(|t| (t.clone(), Pos::new(0, 0), Pos::new(0, 0))).collect();
                if locs != want {
                    return fail(format!("expected {want:?}"));
                }
            }
            Some(What::Ref(id)) => {
                let u = &m.refs[*id];
                if u.targets.iter().any(|t| t.file == usize::MAX) {
                    continue;
                }
                let targets = w.targets(u);
                if targets.is_empty() {
                    env.count("positions of references that lead nowhere", 1);
                    if text.is_some() || !locs.is_empty() {
                        return fail("the reference cannot be resolved".into());
                    }
                } else {
                    env.count("positions of references", 1);
                    if locs.len() != 1 || !targets.contains(&locs[0]) {
                        return fail(format!("expected one of {targets:?}"));
                    }
                    if !u.targets.iter().any(|t| text.as_deref() == Some(&format!("Node {}", t.base))) {
                        return fail(format!("expected one of {:?}", u.targets));
                    }
                    if locs[0].0 != f.path {
                        env.count("definitions in other files", 1);
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c14(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C14", case);
    let mut cfg = WCfg {
        max_files: *r.pick(&[1, 2, 3, 5]),
        missing: *r.pick(&[0, 30]),
        ..WCfg::default()
    };
    for c in [&mut cfg.main, &mut cfg.other] {
        c.budget = *r.pick(&[30, 60, 120]);
        c.unresolved = *r.pick(&[0, 10]);
        c.f_sem = *r.pick(&[0, 0, 10]);
        if r.chance(20) {
            c.tame = true;
            c.f_semi = *r.pick(&[10, 40]);
        }
    }
    cfg.main_ft = Some(*r.pick(&[Ft::Dts, Ft::Dtsi, Ft::Dtso]));
    let w = build(env, r, &cfg);
    with_world(env, w, |env, w| {
        let mut l = serve(env, r, w)?;
        l.open(&known_as(env, r, w, &w.files[0].path), &w.files[0].text);
        for j in 0..w.files.len() {
            if j > 0 && r.chance(30) {
                l.open(&known_as(env, r, w, &w.files[j].path), &w.files[j].text);
            }
            let limit = if env.thorough() { 900 } else { 300 };
            ask_everywhere(env, r, w, &mut l, j, limit)?;
        }
        // A file that the server does not know
        let p = w.root.join("unknown.dts");
        for m in ["textDocument/hover", "textDocument/definition"] {
            let id = l.at(m, &p, 0, 0);
            if !l.result(id)?.is_null() {
                return w.fail("an answer for an unknown file");
            }
        }
        l.shutdown()?;
        Ok(())
    })
}
