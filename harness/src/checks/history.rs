//! The same state is the same, no matter how it was reached.
use super::files::check_refs;
use super::server::published;
use super::syntax::{mutate_chars, mutate_tokens};
use super::total::{any_doc, hostile};
use crate::env::*;
use crate::inproc::*;
use crate::model::*;
use crate::proc::*;
use crate::rng::Rng;
use crate::world::*;
use ginko::dts::{AnyDirective, FileType, ItemAtCursor, Position, Primary, Project};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

/// What the user has: open documents with their text, and the include paths
#[derive(Clone, Default, PartialEq)]
pub struct State {
    pub open: BTreeMap<PathBuf, String>,
    pub incs: Vec<String>,
}

pub fn add(p: &mut Project, path: &Path, text: &str) {
    p.add_file_with_text(path.to_path_buf(), text.to_string(), FileType::from(path));
}

/// A project that has never been in another state
pub fn fresh(s: &State, reverse: bool) -> Project {
    let mut p = Project::default();
    let mut docs: Vec<(&PathBuf, &String)> = s.open.iter().collect();
    if reverse {
        docs.reverse();
    }
    p.set_include_paths(s.incs.clone());
    for (path, text) in docs {
        add(&mut p, path, text);
    }
    p
}

pub fn includes(p: &Project, f: &Path) -> Vec<PathBuf> {
    let Some(root) = p.get_root(f) else { return vec![] };
    root.elements
        .iter()
        .filter_map(|e| match e {
            Primary::Directive(AnyDirective::Include(i)) => i.path().ok(),
            _ => None,
        })
        .collect()
}

/// The files that the open documents consist of; and whether they include each other in a circle
pub fn reachable(p: &Project, open: impl Iterator<Item = PathBuf>) -> (BTreeSet<PathBuf>, bool) {
    let mut seen = BTreeSet::new();
    let mut stack: Vec<PathBuf> = open.collect();
    let mut edges: BTreeMap<PathBuf, Vec<PathBuf>> = BTreeMap::new();
    while let Some(f) = stack.pop() {
        if seen.insert(f.clone()) {
            let inc: Vec<PathBuf> = includes(p, &f);
            stack.extend(inc.iter().cloned());
            edges.insert(f, inc);
        }
    }
    let mut rest = seen.clone();
    loop {
        let leaf = rest.iter().find(|f| edges[*f].iter().all(|t| !rest.contains(t))).cloned();
        match leaf {
            Some(f) => {
                rest.remove(&f);
            }
            None => return (seen, !rest.is_empty()),
        }
    }
}

/// Everything that can be observed of a file
pub fn observe(p: &Project, f: &Path) -> Vec<String> {
    let mut out: Vec<String> = diags(p, f).iter().map(|d| format!("diagnostic: {d}")).collect();
    let Some(file) = p.get_file(f) else {
        out.push("not part of the project".to_string());
        return out;
    };
    match p.get_root(f) {
        Some(root) => out.push(format!("syntax tree: {root:?}")),
        None => out.push("no syntax tree".to_string()),
    }
    out.push(format!("text: {:?}", file.source()));
    for (n, line) in file.source().split('\n').enumerate() {
        let mut col = 0;
        for c in line.chars() {
            if c == '&' {
                let at = Position::new(n as u32, col);
                let what = match p.find_at_pos(f, &at) {
                    Some(ItemAtCursor::Reference(re)) => format!(
                        "{re} -> {:?} {:?}",
                        p.document_reference(f, re),
                        p.get_node_position(f, re).map(|(s, path)| (span(s), path))
                    ),
                    Some(_) => "something".to_string(),
                    None => "nothing".to_string(),
                };
                out.push(format!("at {n}:{col}: {what}"));
            }
            col += c.len_utf16() as u32;
        }
    }
    out
}

fn difference(a: &[String], b: &[String]) -> String {
    let cut = |s: &String| s.chars().take(600).collect::<String>();
    let only = |x: &[String], y: &[String]| x.iter().filter(|l| !y.contains(l)).take(6).map(cut).collect::<Vec<_>>();
    format!("only in the new one: {:#?}\nonly after the history: {:#?}", only(a, b), only(b, a))
}

/// The name under which the user opens a document leads to the document
struct Doc {
    path: PathBuf,
    names: Vec<PathBuf>,
    texts: Vec<String>,
}

struct Play<'a> {
    w: &'a World,
    /// what can be opened, with its versions
    docs: Vec<Doc>,
    steps: Vec<String>,
}

fn inc_sets(r: &mut Rng, w: &World) -> Vec<String> {
    match r.below(5) {
        0 => vec![],
        1 => {
            let mut v = w.inc_args.clone();
            v.reverse();
            v
        }
        2 => w.inc_args.iter().filter(|_| r.chance(50)).cloned().collect(),
        _ => w.inc_args.clone(),
    }
}

impl<'a> Play<'a> {
    fn new(env: &mut Env, r: &mut Rng, w: &'a World, wild: bool) -> Play<'a> {
        let mut docs: Vec<Doc> = vec![];
        let dir = w.files[0].path.parent().unwrap();
        // The same directory, with another name
        let link = w.root.join("ln");
        std::os::unix::fs::symlink(dir, &link).unwrap();
        // Documents that were never saved
        let mut fresh = vec![];
        for i in 0..r.below(3) {
            let path = dir.join(format!("new{i}.{}", r.pick_str(&["dts", "dtsi", "dtso"])));
            let mut text = any_doc(r).laid.text;
            let leaf = r.chance(50);
            if !leaf && r.chance(80) {
                let k = r.below(w.files.len());
                text = format!("/include/ \"{}\"\n{text}", w.files[k].path.display());
            }
            let other = if leaf { any_doc(r).laid.text } else { w.files[r.below(w.files.len())].text.clone() };
            fresh.push((leaf, path, vec![text, other]));
        }
        for (j, f) in w.files.iter().enumerate() {
            let mut texts = vec![f.text.clone()];
            for _ in 0..r.range(1, 3) {
                let n = r.range(1, 4);
                let with = |r: &mut Rng, file: &str| {
                    let inc = format!("/include/ \"{file}\"\n");
                    if f.text.contains("/dts-v1/") && r.chance(80) {
                        format!("{}{inc}", f.text)
                    } else {
                        format!("{inc}{}", f.text)
                    }
                };
                let leaves: Vec<&PathBuf> = fresh.iter().filter(|x| x.0 || wild).map(|x| &x.1).collect();
                texts.push(match (r.below(9), &f.m) {
                    (0 | 1, Some(m)) => mutate_tokens(r, m, n),
                    (2, _) => mutate_chars(r, &f.text, n),
                    (3, _) => String::new(),
                    (4, _) => hostile(env, r).0.chars().take(3000).collect(),
                    // another file of the set: other includes, other labels
                    (5, _) if wild || j + 1 < w.files.len() => {
                        let k = if wild { r.below(w.files.len()) } else { r.range(j + 1, w.files.len() - 1) };
                        // its includes lead somewhere else or nowhere from here
                        w.files[k].text.clone()
                    }
                    (6, _) => {
                        // without includes
                        f.text.lines().filter(|l| !l.contains("/include/")).map(|l| format!("{l}\n")).collect()
                    }
                    (7, _) if !leaves.is_empty() => {
                        // what may not exist
                        let new = *r.pick(&leaves);
                        let name = new.file_name().unwrap();
                        let name = match r.below(3) {
                            0 => link.join(name),
                            1 => name.into(),
                            _ => new.clone(),
                        };
                        with(r, name.to_str().unwrap())
                    }
                    _ => {
                        let lo = if wild { 0 } else { j + 1 };
                        if lo < w.files.len() {
                            let k = r.range(lo, w.files.len() - 1);
                            with(r, w.files[k].path.to_str().unwrap())
                        } else {
                            any_doc(r).laid.text
                        }
                    }
                });
            }
            let mut names: Vec<PathBuf> = f.alias.iter().cloned().collect();
            if f.path.parent() == Some(dir) {
                names.push(link.join(f.path.file_name().unwrap()));
            }
            docs.push(Doc {
                path: f.path.clone(),
                names,
                texts,
            });
        }
        for (_, path, texts) in fresh {
            let names = vec![link.join(path.file_name().unwrap())];
            docs.push(Doc { path, names, texts });
        }
        Play {
            w,
            docs,
            steps: vec![],
        }
    }

    /// Some name of a document
    fn name(&self, env: &mut Env, r: &mut Rng, path: &Path) -> PathBuf {
        match self.docs.iter().find(|d| d.path == path) {
            Some(d) if !d.names.is_empty() && r.chance(20) => {
                env.count("opened or closed through a symbolic link", 1);
                r.pick(&d.names).clone()
            }
            _ => path.to_path_buf(),
        }
    }

    fn fail<T>(&self, msg: impl Into<String>) -> Res<T> {
        let mut files = self.w.dump();
        files.push(("history.txt".to_string(), self.steps.join("\n").into_bytes()));
        viol(msg, files)
    }
}

pub fn c15(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C15", case);
    let mut cfg = WCfg {
        max_files: if r.chance(3) { 30 } else { *r.pick(&[1, 2, 3, 4, 6]) },
        missing: *r.pick(&[0, 20]),
        broken: *r.pick(&[0, 20]),
        faulty: *r.pick(&[0, 20]),
        chain: r.chance(25),
        ..WCfg::default()
    };
    cfg.main.budget = 40;
    cfg.other.budget = 40;
    if r.chance(6) {
        cfg.main.max_tops = 80;
        cfg.main.budget = 150;
    }
    cfg.main.unresolved = *r.pick(&[0, 10]);
    cfg.main_ft = Some(*r.pick(&[Ft::Dts, Ft::Dts, Ft::Dtsi, Ft::Dtso]));
    let w = build(env, r, &cfg);
    let mut play = Play::new(env, r, &w, true);
    let res = match sut(|| play_c15(env, r, &mut play)) {
        Ok(x) => x,
        Err(panic) => play.fail(format!("crash: {panic}")),
    };
    std::env::set_current_dir("/").unwrap();
    env.remove_dir(&w.root);
    res
}

fn play_c15(env: &mut Env, r: &mut Rng, play: &mut Play) -> Res<()> {
    let w = play.w;
    std::env::set_current_dir(&w.cwd).unwrap();
    let mut s = State::default();
    let mut p = Project::default();
    let n = if r.chance(2) {
        r.range(70, 150)
    } else {
        r.range(2, if env.thorough() { 30 } else { 14 })
    };
    let mut alive = true;
    let saves = r.chance(50);
    let mut saved: BTreeSet<PathBuf> = BTreeSet::new();
    for step in 0..n {
        let last = step + 1 == n;
        let open: Vec<PathBuf> = s.open.keys().cloned().collect();
        if saves && !open.is_empty() && r.chance(25) {
            // What is on disk is not what is shown as long as the document is open
            let path = r.pick(&open).clone();
            play.steps.push(format!("save {}", path.display()));
            let new = !path.exists();
            std::fs::write(&path, &s.open[&path]).unwrap();
            saved.insert(path.clone());
            if new {
                // Others may include it from now on
                env.count("documents created", 1);
                let name = path.file_name().unwrap().to_str().unwrap();
                let loaded = p.files().any(|f| {
                    !s.open.contains_key(f) && std::fs::read(f).is_ok_and(|b| String::from_utf8_lossy(&b).contains(name))
                });
                if loaded || r.chance(50) {
                    p.set_include_paths(s.incs.clone());
                } else {
                    // as soon as they are looked at again
                    for (path, text) in &s.open {
                        add(&mut p, path, text);
                    }
                    play.steps.push("open everything again".to_string());
                    env.count("documents opened again with the same text", s.open.len() as u64);
                }
            }
            env.count("documents saved", 1);
            if r.chance(50) {
                play.steps.push(format!("close {}", path.display()));
                s.open.remove(&path);
                p.remove_file(&path);
                env.count("documents closed after they were saved", 1);
                if last || r.chance(50) {
                    alive &= same(env, play, &s, &p, r.chance(50))?;
                }
            }
            continue;
        }
        match r.below(12) {
            0 | 1 => {
                s.incs = inc_sets(r, w);
                play.steps.push(format!("include paths {:?}", s.incs));
                p.set_include_paths(s.incs.clone());
                env.count("changes of the include paths", 1);
            }
            2 | 3 | 4 => {
                // close something, open or not
                let k = r.below(play.docs.len());
                let open: Vec<PathBuf> = s.open.keys().cloned().collect();
                let path =
                    if !open.is_empty() && r.chance(80) { r.pick(&open).clone() } else { play.docs[k].path.clone() };
                let name = play.name(env, r, &path);
                play.steps.push(format!("close {}", name.display()));
                let was = s.open.remove(&path).is_some();
                p.remove_file(&name);
                env.count(if was { "documents closed" } else { "closed without being open" }, 1);
                // It stays only if somebody includes it
                let others: Vec<PathBuf> = p.files().filter(|f| *f != path).map(|f| f.to_path_buf()).collect();
                let used = others.iter().any(|f| includes(&p, f).contains(&path));
                let there = p.files().any(|f| f == path);
                env.facts += 1;
                if there != (used && std::fs::read_to_string(&path).is_ok()) {
                    return play.fail(format!("{} is part of the project: {there}; included: {used}", path.display()));
                }
            }
            _ => {
                let k = r.below(play.docs.len());
                let path = play.docs[k].path.clone();
                let text = r.pick(&play.docs[k].texts).clone();
                let name = play.name(env, r, &path);
                play.steps.push(format!("open {}\n{text}", name.display()));
                let was = s.open.insert(path.clone(), text.clone()).is_some();
                add(&mut p, &name, &text);
                env.count(if was { "documents changed" } else { "documents opened" }, 1);
            }
        }
        if r.chance(20) {
            // Looking at something does not change it
            for f in p.files().map(|f| f.to_path_buf()).collect::<Vec<_>>() {
                observe(&p, &f);
            }
        }
        if last || r.chance(25) {
            alive &= same(env, play, &s, &p, r.chance(50))?;
        }
    }
    if n > 0 && saves {
        alive &= same(env, play, &s, &p, r.chance(50))?;
    }
    env.count("states without cycles", alive as u64);
    for path in &saved {
        let Some(f) = w.files.iter().find(|f| f.path == *path) else { continue };
        std::fs::write(path, &f.text).unwrap();
        play.steps.push(format!("open and save as before {}", path.display()));
        add(&mut p, path, &f.text);
        s.open.insert(path.clone(), f.text.clone());
    }
    // Finally everything is as it was saved: the model tells what must be seen
    if !w.inc_args.is_empty() || !s.incs.is_empty() {
        s.incs = w.inc_args.clone();
        p.set_include_paths(s.incs.clone());
    }
    play.steps.push("restore".to_string());
    let mut order: Vec<PathBuf> = s.open.keys().cloned().collect();
    r.shuffle(&mut order);
    for path in order {
        let saved = w.files.iter().find(|f| f.path == path);
        match saved {
            Some(f) if r.chance(50) || path == w.files[0].path => add(&mut p, &path, &f.text),
            _ => p.remove_file(&path),
        }
    }
    let main = &w.files[0];
    add(&mut p, &main.path, &main.text);
    for f in &w.files {
        let got = diags(&p, &f.path);
        match &f.m {
            Some(m) => match match_diags(m, &got) {
                Ok(n) => env.facts += n as u64 + 1,
                Err(e) => return play.fail(format!("after the history, {}: diagnostics differ:\n{e}", f.path.display())),
            },
            None => {
                env.facts += 1;
                if !got.iter().any(|d| d.sev == "error") {
                    return play.fail(format!("after the history, {}: no error is reported", f.path.display()));
                }
            }
        }
    }
    check_refs(env, w, &p)?;
    env.count("steps", n as u64);
    env.seen(&play.steps.join("\n"));
    env.sample(|| play.steps.join("\n"));
    Ok(())
}

/// Compares with a project that has no history
fn same(env: &mut Env, play: &Play, s: &State, p: &Project, reverse: bool) -> Res<bool> {
    let q = fresh(s, reverse);
    let (files, cyclic) = reachable(&q, s.open.keys().cloned());
    env.count("comparisons with a new project", 1);
    if cyclic {
        // where the error is reported depends on what was loaded first
        env.count("comparisons of files in a cycle", 1);
        for f in &files {
            let a = p.get_root(f).map(|x| format!("{x:?}"));
            let b = q.get_root(f).map(|x| format!("{x:?}"));
            env.facts += 1;
            if a != b {
                return play.fail(format!("{}: the syntax tree differs from that of a new project", f.display()));
            }
        }
        return Ok(false);
    }
    for f in &files {
        let want = observe(&q, f);
        let got = observe(p, f);
        env.facts += want.len() as u64;
        env.count("files compared", 1);
        if want != got {
            return play.fail(format!("{}: {}", f.display(), difference(&want, &got)));
        }
    }
    Ok(true)
}

/// Diagnostics of every file in a state. None: not specified (the file is not part of the state)
fn expected(s: &State) -> Option<BTreeMap<PathBuf, Vec<D>>> {
    let q = fresh(s, false);
    let (files, cyclic) = reachable(&q, s.open.keys().cloned());
    if cyclic {
        return None;
    }
    Some(files.into_iter().filter(|f| q.get_file(f).is_some()).map(|f| (f.clone(), diags(&q, &f))).collect())
}

/// Diagnostics, and all included files
type Seen = (Option<BTreeMap<PathBuf, Vec<D>>>, BTreeSet<PathBuf>);

fn neighbours(s: &State) -> BTreeSet<PathBuf> {
    let q = fresh(s, false);
    let (files, _) = reachable(&q, s.open.keys().cloned());
    files.iter().flat_map(|f| includes(&q, f)).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum Pace {
    Burst,
    Sync,
    Mixed,
}

pub fn c17(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C17", case);
    let mut cfg = WCfg {
        max_files: if r.chance(3) { 20 } else { *r.pick(&[1, 2, 3, 5]) },
        missing: *r.pick(&[0, 20]),
        broken: *r.pick(&[0, 20]),
        faulty: *r.pick(&[0, 20]),
        ..WCfg::default()
    };
    cfg.main.budget = 40;
    cfg.other.budget = 30;
    cfg.main.unresolved = *r.pick(&[0, 10]);
    let w = build(env, r, &cfg);
    let mut play = Play::new(env, r, &w, false);
    let res = play_c17(env, r, &mut play);
    std::env::set_current_dir("/").unwrap();
    env.remove_dir(&w.root);
    res
}

fn play_c17(env: &mut Env, r: &mut Rng, play: &mut Play) -> Res<()> {
    let w = play.w;
    std::env::set_current_dir(&w.cwd).unwrap();
    // All states that the user goes through
    let mut s = State {
        incs: w.inc_args.clone(),
        ..State::default()
    };
    let opt = json!({"includes": w.inc_args});
    let mut l = Lsp::start(env, &[], &w.cwd, opt)?;
    let blame = |e: Fail| match e {
        Fail::Viol(mut v) => {
            v.files.extend(w.dump());
            Fail::Viol(v)
        }
        e => e,
    };
    let pace = *r.pick(&[Pace::Burst, Pace::Burst, Pace::Mixed, Pace::Sync]);
    env.count(
        match pace {
            Pace::Burst => "sessions at once",
            Pace::Sync => "sessions step by step",
            Pace::Mixed => "sessions with pauses",
        },
        1,
    );
    let mut states = vec![s.clone()];
    // The names that the user has for documents that are open
    let mut shown: BTreeMap<PathBuf, PathBuf> = BTreeMap::new();
    // Files change on disk: only when it is known that the server is not about to read them
    let saves = pace == Pace::Sync && r.chance(60);
    let mut eager: Vec<Seen> = vec![];
    let eye = |s: &State| sut(|| (expected(s), neighbours(s)));
    if saves {
        match eye(&s) {
            Ok(x) => eager.push(x),
            Err(panic) => return play.fail(format!("crash: {panic}")),
        }
    }
    let n = if r.chance(2) {
        r.range(70, 200)
    } else {
        r.range(2, if env.thorough() { 60 } else { 25 })
    };
    // Versions begin anew whenever a document is opened
    let mut versions: BTreeMap<PathBuf, i64> = BTreeMap::new();
    let mut ids = vec![];
    for _ in 0..n {
        let open: Vec<PathBuf> = s.open.keys().cloned().collect();
        match r.below(12) {
            _ if saves && !open.is_empty() && r.chance(25) => {
                let path = r.pick(&open).clone();
                play.steps.push(format!("save {}", path.display()));
                env.count(if path.exists() { "documents saved" } else { "documents created" }, 1);
                std::fs::write(&path, &s.open[&path]).unwrap();
                let name = shown.get(&path).unwrap_or(&path).clone();
                let mut note = json!({"textDocument": {"uri": uri(&name)}});
                if r.chance(50) {
                    note["text"] = json!(s.open[&path]);
                }
                l.notify("textDocument/didSave", note);
                if r.chance(50) {
                    l.notify(
                        "workspace/didChangeWatchedFiles",
                        json!({"changes": [{"uri": uri(&name), "type": 2}]}),
                    );
                }
            }
            0 => {
                s.incs = inc_sets(r, w);
                play.steps.push(format!("include paths {:?}", s.incs));
                l.configure(json!({"includes": s.incs}));
            }
            1 | 2 if !s.open.is_empty() => {
                let open: Vec<PathBuf> = s.open.keys().cloned().collect();
                let path = r.pick(&open).clone();
                let name = shown.remove(&path).unwrap_or(path.clone());
                play.steps.push(format!("close {}", name.display()));
                s.open.remove(&path);
                l.close(&name);
            }
            _ => {
                let k = r.below(play.docs.len());
                let path = play.docs[k].path.clone();
                let text = r.pick(&play.docs[k].texts).clone();
                let name = match shown.get(&path) {
                    Some(name) => name.clone(),
                    None => play.name(env, r, &path),
                };
                play.steps.push(format!("open {}\n{text}", name.display()));
                shown.insert(path.clone(), name.clone());
                let version = versions.entry(path.clone()).or_default();
                *version += r.range(1, 4) as i64;
                let version = *version;
                if s.open.insert(path.clone(), text.clone()).is_some() {
                    if r.chance(15) {
                        // several changes at once: the last one counts
                        let earlier = r.pick(&play.docs[k].texts).clone();
                        l.notify(
                            "textDocument/didChange",
                            json!({"textDocument": {"uri": uri(&name), "version": version},
                                "contentChanges": [{"text": earlier}, {"text": text}]}),
                        );
                    } else {
                        l.change(&name, version, &text);
                    }
                } else {
                    let version = *r.pick(&[0, 1, 1, 1, 40]);
                    versions.insert(path.clone(), version);
                    l.open_version(&name, version, &text);
                }
            }
        }
        states.push(s.clone());
        if saves {
            match eye(&s) {
                Ok(x) => eager.push(x),
                Err(panic) => return play.fail(format!("crash: {panic}")),
            }
        }
        if r.chance(15) {
            // Requests in between are answered for the state at that time or a later one
            let k = r.below(play.docs.len());
            ids.push(l.symbols(&play.docs[k].path));
        }
        if pace == Pace::Sync || (pace == Pace::Mixed && r.chance(20)) {
            let id = l.symbols(&play.docs[0].path);
            l.result(id).map_err(blame)?;
            if r.chance(30) {
                l.drain().map_err(blame)?;
            }
        }
    }
    for id in ids {
        l.result(id).map_err(blame)?;
    }
    if !saves {
        for s in &states {
            match eye(s) {
                Ok(x) => eager.push(x),
                Err(panic) => return play.fail(format!("crash: {panic}")),
            }
        }
    }
    let ever: BTreeSet<PathBuf> = eager.iter().flat_map(|x| x.1.iter().cloned()).collect();
    let want = match eager.into_iter().map(|x| x.0).collect::<Option<Vec<_>>>() {
        Some(x) => x,
        None => {
            env.count("histories with cycles (left out)", 1);
            return Ok(());
        }
    };
    let last = want.last().unwrap().clone();
    // Eventually the published diagnostics are those of the final state
    for (f, d) in &last {
        let ok = |v: Option<&Value>| v.is_some_and(|v| published(v).is_ok_and(|g| g == *d));
        match l.settle(f, ok).map_err(blame)? {
            Ok(()) => {}
            Err(v) => {
                let g = published(&v);
                return play.fail(format!(
                    "{}: the diagnostics that were published last are not those of the final state:\nexpected {d:#?}\ngot {g:#?}",
                    f.display()
                ));
            }
        }
    }
    // and they stay so
    let id = l.symbols(&play.docs[0].path);
    l.result(id).map_err(blame)?;
    l.drain().map_err(blame)?;
    for (f, d) in &last {
        env.facts += 1;
        env.count("files with final diagnostics", 1);
        let v = l.last(f).cloned().unwrap_or(Value::Null);
        if published(&v).as_ref() != Ok(d) {
            return play.fail(format!("{}: the final diagnostics are replaced by {v}", f.display()));
        }
    }
    // Documents that were closed, and that no file includes, have no diagnostics any more
    for Doc { path, names, .. } in &play.docs {
        if !s.open.contains_key(path) && !ever.contains(path) {
            for name in std::iter::once(path).chain(names) {
                let v = l.last(name).cloned();
                env.facts += 1;
                if v.is_some() {
                    env.count("closed documents", 1);
                }
                if v.as_ref().is_some_and(|v| *v != json!([])) {
                    return play.fail(format!("{} is closed, but has diagnostics: {v:?}", name.display()));
                }
            }
        }
    }
    // What is published for a file follows the states: never back to an earlier one
    let mut per_file: BTreeMap<PathBuf, Vec<Value>> = BTreeMap::new();
    for (u, v) in &l.published {
        match uri_path(u) {
            Some(p) => per_file.entry(p).or_default().push(v.clone()),
            None => return play.fail(format!("not the address of a file: {u}")),
        }
    }
    for (f, seq) in &per_file {
        let mut at = 0;
        for v in seq {
            let got = match published(v) {
                Ok(g) => g,
                Err(e) => return play.fail(format!("{}: {e}", f.display())),
            };
            env.facts += 1;
            env.count("published diagnostics", 1);
            // the first state from `at` on in which this is what the file has
            let next = (at..want.len()).find(|i| match want[*i].get(f) {
                // Not part of that state: if it is still known, anything that it had
                None => true,
                Some(d) => *d == got,
            });
            match next {
                Some(i) => at = i,
                None => {
                    return play.fail(format!(
                        "{}: published diagnostics belong to no state from step {at} on: {got:#?}",
                        f.display()
                    ))
                }
            }
        }
    }
    env.count("steps", n as u64);
    env.count("distinct files with diagnostics", per_file.len() as u64);
    env.seen(&play.steps.join("\n"));
    env.sample(|| play.steps.join("\n"));
    if pace == Pace::Sync {
        // The order of the responses
        env.count("responses", l.replies.len() as u64);
    }
    l.shutdown().map_err(blame)?;
    Ok(())
}
