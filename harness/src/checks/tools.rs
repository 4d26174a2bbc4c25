//! The command line tool, and how it agrees with itself and with the language server.
use super::files::{check_diags, graph, load, with_world};
use super::history::observe;
use super::server::{published, serve};
use super::syntax::{mutate_chars, mutate_tokens};
use super::total::{any_doc, hostile};
use crate::env::*;
use crate::inproc::*;
use crate::model::*;
use crate::proc::*;
use crate::rng::Rng;
use crate::toks::Pos;
use crate::world::*;
use ginko::dts::Project;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;

/// A diagnostic as it is printed
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Printed {
    pub file: PathBuf,
    pub start: Pos,
    pub sev: String,
    pub msg: String,
    pub source: String,
    pub indent: String,
    pub carets: usize,
}

/// Reads what the command line tool prints. True: it says that there are no issues.
pub fn parse_output(out: &str) -> Result<(Vec<Printed>, bool), String> {
    let mut v = vec![];
    let lines: Vec<&str> = out.split('\n').collect();
    let mut i = 0;
    let mut fine = false;
    while i < lines.len() {
        let l = lines[i];
        if l.is_empty() {
            i += 1;
            continue;
        }
        if l == "OK; No issues found" {
            if fine || lines[i + 1..].iter().any(|l| !l.is_empty()) {
                return Err("something is printed after the end".to_string());
            }
            fine = true;
            i += 1;
            continue;
        }
        let bad = || format!("line {}: not understood: {l:?}", i + 1);
        let (sev, rest) = l.split_once(" --> ").ok_or_else(bad)?;
        if !["error", "warning", "hint"].contains(&sev) || i + 3 >= lines.len() {
            return Err(bad());
        }
        let mut parts = rest.rsplitn(3, ':');
        let col: u32 = parts.next().and_then(|s| s.parse().ok()).filter(|n| *n > 0).ok_or_else(bad)?;
        let line: u32 = parts.next().and_then(|s| s.parse().ok()).filter(|n| *n > 0).ok_or_else(bad)?;
        let file = PathBuf::from(parts.next().ok_or_else(bad)?);
        let gutter = format!("{} |", " ".repeat(line.to_string().len()));
        if lines[i + 1] != gutter {
            return Err(format!("line {}: not understood: {:?}", i + 2, lines[i + 1]));
        }
        let source = lines[i + 2]
            .strip_prefix(&format!("{line} | "))
            .ok_or_else(|| format!("line {}: not the source: {:?}", i + 3, lines[i + 2]))?;
        let marks = lines[i + 3]
            .strip_prefix(&format!("{gutter} "))
            .ok_or_else(|| format!("line {}: no marks: {:?}", i + 4, lines[i + 3]))?;
        let indent: String = marks.chars().take_while(|c| *c != '^').collect();
        let rest = &marks[indent.len()..];
        let carets = rest.chars().take_while(|c| *c == '^').count();
        if carets == 0 || indent.chars().any(|c| !c.is_whitespace()) {
            return Err(format!("line {}: no marks: {:?}", i + 4, lines[i + 3]));
        }
        let msg = rest[carets..]
            .strip_prefix(' ')
            .filter(|m| !m.is_empty())
            .ok_or_else(|| format!("line {}: no message: {:?}", i + 4, lines[i + 3]))?;
        let mut msg = msg.to_string();
        i += 4;
        while i < lines.len() && !lines[i].is_empty() {
            // The message names the end of a line
            msg.push('\n');
            msg.push_str(lines[i]);
            i += 1;
        }
        v.push(Printed {
            file,
            start: Pos::new(line - 1, col - 1),
            sev: sev.to_string(),
            msg,
            source: source.to_string(),
            indent,
            carets,
        });
    }
    Ok((v, fine))
}

/// Is a diagnostic printed the way it should be?
fn shown(p: &Printed, d: &D, text: &str) -> Result<(), String> {
    let line = text.lines().nth(d.start.line as usize).unwrap_or("");
    if p.source != line {
        return Err(format!("the line is {line:?}, printed is {:?}", p.source));
    }
    // how many characters, and how many UTF-16 units, are before and within
    let mut before = (0usize, 0usize, 0usize);
    let mut within = (0usize, 0usize);
    let last = if d.end.line > d.start.line { u32::MAX } else { d.end.col };
    let mut col = 0;
    for c in line.chars() {
        let n = c.len_utf16() as u32;
        if col < d.start.col {
            before = (before.0 + 1, before.1 + n as usize, before.2 + (c == '\t') as usize);
        } else if col < last {
            within = (within.0 + 1, within.1 + n as usize);
        }
        col += n;
    }
    let indent = p.indent.chars().count();
    if indent < before.0 || indent > before.1 {
        return Err(format!("the marks start at {indent} instead of {}", before.0));
    }
    if p.indent.matches('\t').count() != before.2 {
        return Err("the marks are not aligned with tabs".to_string());
    }
    if p.carets < within.0.max(1) || p.carets > within.1.max(1) {
        // behind the end of the line, the length of what is marked cannot be seen
        let len = if d.end.line == d.start.line { d.end.col.saturating_sub(d.start.col) as usize } else { 0 };
        if within.1 + 1 < p.carets || p.carets > len.max(1) {
            return Err(format!("{} marks instead of {}", p.carets, within.0));
        }
    }
    Ok(())
}

/// Compares what is printed with the diagnostics of the files
fn compare_printed(env: &mut Env, printed: &[Printed], want: &[(PathBuf, String, Vec<D>)]) -> Result<(), String> {
    let mut used = vec![false; printed.len()];
    for (file, text, ds) in want {
        for d in ds {
            let found = printed.iter().enumerate().find(|(i, p)| {
                !used[*i] && p.file == *file && p.start == d.start && p.sev == d.sev && p.msg == d.msg && shown(p, d, text).is_ok()
            });
            env.facts += 1;
            match found {
                Some((i, _)) => {
                    used[i] = true;
                    env.count("printed diagnostics", 1);
                }
                None => {
                    let near = printed.iter().find(|p| p.file == *file && p.start == d.start && p.msg == d.msg);
                    let why = near.map(|p| shown(p, d, text));
                    return Err(format!("{}: not printed: {d} (similar: {near:?} {why:?})", file.display()));
                }
            }
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        return Err(format!("printed without a reason: {:?}", printed[i]));
    }
    Ok(())
}

/// Arguments for the files of a world
fn arguments(r: &mut Rng, w: &World) -> Vec<String> {
    let main = &w.files[0].path;
    let file = match r.below(4) {
        0 => relative(&w.cwd, main),
        1 => format!("./{}", relative(&w.cwd, main)),
        2 => {
            let link = main.parent().unwrap().join(match main.extension() {
                Some(e) => format!("main-link.{}", e.to_str().unwrap()),
                None => "main-link".to_string(),
            });
            if !link.exists() {
                std::os::unix::fs::symlink(main, &link).unwrap();
            }
            link.to_str().unwrap().to_string()
        }
        _ => main.to_str().unwrap().to_string(),
    };
    let mut args = vec![];
    for a in &w.inc_args {
        match r.below(4) {
            0 => args.push(format!("--include={a}")),
            1 => args.push(format!("-i{a}")),
            2 => args.extend(["--include".to_string(), a.clone()]),
            _ => args.extend(["-i".to_string(), a.clone()]),
        }
    }
    if r.chance(50) {
        args.push(file);
    } else {
        args.insert(0, file);
    }
    args
}

fn texts(p: &Project, files: impl Iterator<Item = PathBuf>) -> Vec<(PathBuf, String, Vec<D>)> {
    files
        .map(|f| {
            let text = p.get_file(&f).map(|x| x.source().clone()).unwrap_or_default();
            let d = diags(p, &f);
            (f, text, d)
        })
        .collect()
}

pub fn c18(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C18", case);
    if case % 8 == 7 {
        return special(env, r);
    }
    let mut cfg = WCfg {
        max_files: *r.pick(&[1, 1, 2, 4]),
        missing: *r.pick(&[0, 0, 20]),
        broken: *r.pick(&[0, 0, 20]),
        faulty: *r.pick(&[0, 0, 0, 40]),
        ..WCfg::default()
    };
    cfg.main.unresolved = *r.pick(&[0, 0, 10]);
    if r.chance(30) {
        cfg.main.f_name = 20;
        cfg.main.f_num = *r.pick(&[0, 20]);
    }
    cfg.main_ft = Some(*r.pick(&[Ft::Dts, Ft::Dts, Ft::Dtsi, Ft::Dtso, Ft::Overlay, Ft::Other]));
    let w = build(env, r, &cfg);
    with_world(env, w, |env, w| {
        let args = arguments(r, w);
        let out = cli(env, &args, &w.cwd)?;
        let fail = |msg: String| -> Res<()> {
            let mut files = w.dump();
            files.push(("arguments.txt".into(), format!("{args:?}").into_bytes()));
            files.push(("stdout.txt".into(), out.out.clone().into_bytes()));
            files.push(("stderr.txt".into(), out.err.clone().into_bytes()));
            viol(msg, files)
        };
        if out.died() {
            return fail(format!("the command line tool died: {:?} {:?}", out.code, out.signal));
        }
        let (printed, fine) = match parse_output(&out.out) {
            Ok(x) => x,
            Err(e) => return fail(e),
        };
        let p = load(w);
        check_diags(env, w, &p)?;
        let want = texts(&p, w.files.iter().map(|f| f.path.clone()));
        if let Err(e) = compare_printed(env, &printed, &want) {
            return fail(e);
        }
        let clean = want.iter().all(|w| w.2.is_empty());
        env.facts += 2;
        if fine != clean {
            return fail(format!("says that there are no issues: {fine}; there are none: {clean}"));
        }
        if (out.code == Some(0)) != clean {
            return fail(format!("exit code {:?}; there are no issues: {clean}", out.code));
        }
        env.count(if clean { "runs without issues" } else { "runs with issues" }, 1);
        let only = printed.iter().any(|p| p.sev == "warning") && printed.iter().all(|p| p.sev == "warning");
        env.count("runs with warnings only", only as u64);
        if r.chance(20) {
            unreadable(env, r, w)?;
        }
        Ok(())
    })
}

/// Lines without any issue
fn filler(r: &mut Rng, lines: usize) -> String {
    let mut t = String::new();
    while t.matches('\n').count() < lines {
        let left = lines - t.matches('\n').count();
        if r.chance(50) && left > 3 {
            t.push_str(&"\n".repeat(r.range(1, left)));
        } else if r.chance(30) && left > 3 {
            t.push_str(&format!("/*{}*/\n", "\n * \u{e9}".repeat(r.range(0, left - 2))));
        } else {
            t.push_str(r.pick_str(&["\n", "// a comment\n", "\t \t// \u{1f600}\n", "    /* none */\r\n"]));
        }
    }
    t
}

/// Items of a node with exactly that many diagnostics
fn issues(r: &mut Rng, n: usize, warnings: bool, lines: usize) -> String {
    let mut t = String::new();
    let space = if n > 0 { lines / n } else { 0 };
    for i in 0..n {
        t.push_str(&filler(r, space));
        let k = if warnings { r.below(2) } else { r.below(5) };
        t.push_str(r.pick_str(&["", "\t", "    ", "\t\t", " \t", "/* \u{1f600} */ "]));
        t.push_str(&match k {
            0 => format!("compatible = <{i}>;"),
            1 => format!("very-{:030} = \"\u{e4}\";", i),
            2 => format!("a{i} = <0x1{:08x}>;", i),
            3 => format!("a{i} = \"x\", [{:01x}];", i & 15),
            _ => format!("a{i} = <1 08 2>;"),
        });
        t.push_str(r.pick_str(&["\n", "\n", "\r\n", " // end\n"]));
    }
    t
}

/// Many diagnostics, long files, hardly anything at all: everything is known from the construction
fn special(env: &mut Env, r: &mut Rng) -> Res<()> {
    let root = env.dir("w");
    let kind = r.below(3);
    let ft = if kind == 2 {
        *r.pick(&[Ft::Dts, Ft::Dtsi, Ft::Dtso, Ft::Overlay, Ft::Other])
    } else {
        *r.pick(&[Ft::Dts, Ft::Dts, Ft::Dtsi, Ft::Overlay])
    };
    let files_n = if kind == 2 { r.range(1, 2) } else { *r.pick(&[1, 1, 2, 4]) };
    let header = if ft == Ft::Dts { "/dts-v1/;\n" } else { "" };
    let mut total: usize = 0;
    let mut files = vec![];
    let mut known: Vec<usize> = vec![];
    let main = root.join(format!("main.{}", ft.ext()));
    let incs: Vec<PathBuf> = (1..files_n).map(|j| root.join(format!("inc{j}.dtsi"))).collect();
    let include: String = incs.iter().map(|f| format!("/include/ \"{}\"\n", f.file_name().unwrap().to_str().unwrap())).collect();
    let what;
    match kind {
        0 => {
            what = "runs with a certain number of diagnostics";
            total = *r.pick(&[1, 2, 9, 10, 11, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 768, 1024, 1280]);
            let warnings = r.chance(40);
            let mut left = total;
            for j in 0..files_n {
                // An error in an included file is another one at the include
                let n = if !warnings && j > 0 || j + 1 == files_n { 0 } else { r.range(0, left) };
                let n = if j == 0 && (files_n == 1 || !warnings) { left } else if j + 1 == files_n { left } else { n };
                left -= n;
                known.push(n);
                let lines = *r.pick(&[0, 0, n, 1200]);
                let body = format!("/ {{\n{}}};\n", issues(r, n, warnings, lines));
                files.push(if j == 0 { format!("{header}{include}{body}") } else { body });
            }
        }
        1 => {
            what = "runs on long files";
            for j in 0..files_n {
                let warnings = j > 0 || r.chance(30);
                let n = r.range(1, 6);
                let lines = *r.pick(&[5, 95, 120, 980, 990, 1000, 1003, 9980, 9997, 10010]);
                let lines = if lines > 9000 && r.chance(70) { 1010 } else { lines };
                let more = *r.pick(&[0, 0, 30, 60]);
                let mut body = format!("/ {{\n{}{}", filler(r, lines), issues(r, n, warnings, more));
                body.push_str("};\n");
                if r.chance(30) {
                    body.push_str(&filler(r, 20));
                }
                total += n;
                known.push(n);
                files.push(if j == 0 { format!("{header}{include}{body}") } else { body });
            }
        }
        _ => {
            what = "runs on hardly anything";
            // Source files lack their header
            for j in 0..files_n {
                let t = r.pick_str(&["", "\n", "\r\n", " ", "\t", "// x", "/* x */", "\n\n\n", "/**/", "// \u{e9}\n", "\t\n", "\n "]).to_string();
                let n = (j == 0 && ft == Ft::Dts) as usize;
                total += n;
                known.push(n);
                files.push(if j == 0 { format!("{include}{t}") } else { t });
            }
        }
    }
    let mut paths = vec![main.clone()];
    paths.extend(incs);
    for (p, t) in paths.iter().zip(&files) {
        std::fs::write(p, t).unwrap();
        env.seen(t);
    }
    env.count(what, 1);
    let w = World {
        root: root.clone(),
        cwd: root,
        inc_dirs: vec![],
        inc_args: vec![],
        files: paths
            .iter()
            .zip(&files)
            .map(|(p, t)| WFile {
                path: p.clone(),
                text: t.clone(),
                m: None,
                includes: vec![],
                alias: None,
            })
            .collect(),
        stats: BTreeMap::new(),
    };
    with_world(env, w, |env, w| {
        let args = arguments(r, w);
        let out = cli(env, &args, &w.cwd)?;
        if out.died() {
            return w.fail(format!("the command line tool died: {:?} {:?} {}", out.code, out.signal, out.err));
        }
        let (printed, fine) = match parse_output(&out.out) {
            Ok(x) => x,
            Err(e) => return w.fail(format!("{e}\noutput: {}", out.out)),
        };
        let want = texts(&load(w), w.files.iter().map(|f| f.path.clone()));
        for (x, n) in want.iter().zip(&known) {
            env.facts += 1;
            if x.2.len() != *n {
                return w.fail(format!("{}: {} diagnostics instead of {n}: {:?}", x.0.display(), x.2.len(), x.2));
            }
        }
        if let Err(e) = compare_printed(env, &printed, &want) {
            return w.fail(format!("{e}\noutput: {}", out.out));
        }
        env.facts += 3;
        if printed.len() != total || fine != (total == 0) || (out.code == Some(0)) != (total == 0) {
            return w.fail(format!(
                "{total} diagnostics, {} are printed, exit status {:?}, says that there are no issues: {fine}\noutput: {:?}",
                printed.len(),
                out.code,
                out.out
            ));
        }
        Ok(())
    })
}

/// A main file that cannot be read is not fine
fn unreadable(env: &mut Env, r: &mut Rng, w: &World) -> Res<()> {
    let p = w.cwd.join("bad.dts");
    let arg = match r.below(5) {
        0 => "does-not-exist.dts".to_string(),
        1 => w.root.to_str().unwrap().to_string(),
        2 => {
            std::fs::write(&p, b"/dts-v1/; // \xff\xfe\n").unwrap();
            "bad.dts".to_string()
        }
        3 => {
            let _ = std::os::unix::fs::symlink("nowhere", w.cwd.join("dangling.dts"));
            "dangling.dts".to_string()
        }
        _ => String::new(),
    };
    let out = cli(env, &[arg.clone()], &w.cwd)?;
    env.count("main files that cannot be read", 1);
    env.facts += 1;
    if out.died() || out.code == Some(0) || out.out.contains("No issues") {
        return w.fail(format!("{arg:?}: exit code {:?} {:?}, output {:?} {:?}", out.code, out.signal, out.out, out.err));
    }
    if out.err.is_empty() {
        return w.fail(format!("{arg:?}: no error message"));
    }
    Ok(())
}

/// Makes a mess of the files of a world, on disk
fn disturb(env: &mut Env, r: &mut Rng, w: &mut World) {
    for j in 0..w.files.len() {
        if !r.chance(50) {
            continue;
        }
        let f = &w.files[j];
        let n = r.range(1, 5);
        let text = match (r.below(6), &f.m) {
            (0 | 1, Some(m)) => mutate_tokens(r, m, n),
            (2, _) => mutate_chars(r, &f.text, n),
            (3, _) => {
                let k = r.below(w.files.len());
                format!("{}\n/include/ \"{}\"\n", f.text, w.files[k].path.display())
            }
            (4, _) => {
                // a line that is far too long is printed for each diagnostic
                let t = hostile(env, r).0;
                if t.len() > 3000 {
                    any_doc(r).laid.text
                } else {
                    t
                }
            }
            _ => any_doc(r).laid.text,
        };
        std::fs::write(&f.path, &text).unwrap();
        w.files[j].text = text;
        w.files[j].m = None;
    }
}

/// The same names over and over
fn collisions(r: &mut Rng, w: &mut World) {
    for j in 0..w.files.len() {
        let mut t = w.files[j].text.clone();
        if w.files[j].m.is_none() || !t.ends_with('\n') {
            t.push('\n');
        }
        for _ in 0..r.range(1, 4) {
            let (l, n) = (r.pick_str(&["la", "lb", "lc"]), r.pick_str(&["na", "nb", "nc"]));
            let m = r.pick_str(&["na", "nb", "nc"]);
            t.push_str(&match r.below(9) {
                // Nodes that differ by their unit address only, and references that leave it out
                5 => format!("/ {{ {m} {{ {n}@0 {{ }}; {n}@1 {{ x; }}; {n}@20 {{ }}; {n}@a {{ }}; }}; }};\n"),
                6 => format!("/ {{ {n}@1 {{ {m}@2 {{ }}; }}; {n}@2 {{ {m}@1 {{ }}; }}; {n}@3 {{ }}; }};\n"),
                7 => format!("/ {{ p{n} = &{{/{m}/{n}}}, &{{/{n}}}, &{{/{n}/{m}}}; q = <&{{/{n}@2}} &{{/{m}/{n}@1}}>; }};\n"),
                8 => format!("&{{/{n}}} {{ y = &{{/{n}/{m}}}; }};\n&{{/{m}/{n}}} {{ {l}: {n}@5 {{ }}; }};\n"),
                0 => format!("/ {{ {l}: {n} {{ {n} {{ }}; }}; }};\n"),
                1 => format!("&{l} {{ {n} {{ x = <&{l}>; }}; }};\n"),
                2 => format!("/ {{ p{n} = &{l}, &{{/{n}}}; }};\n"),
                3 => format!("/ {{ {n} {{ {l}: {n}@1 {{ }}; {l}: {n}@2 {{ }}; }}; }};\n"),
                _ => format!("&{{/{n}}} {{ {l}: m {{ }}; }};\n/delete-node/ &{l};\n"),
            });
        }
        std::fs::write(&w.files[j].path, &t).unwrap();
        w.files[j].text = t;
        w.files[j].m = None;
    }
}

fn whole(p: &Project) -> Vec<String> {
    let mut out = vec![];
    for f in p.files().map(|f| f.to_path_buf()).collect::<Vec<_>>() {
        out.push(f.display().to_string());
        // in the order in which they are reported
        out.extend(p.get_diagnostics(&f).map(|d| format!("{d:?}")));
        out.extend(observe(p, &f));
    }
    out
}

pub fn c19(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C19", case);
    let (w, kind) = if r.chance(25) {
        let g = graph(env, r);
        let w = World {
            root: g.root.clone(),
            cwd: g.root.clone(),
            inc_dirs: g.inc.clone(),
            inc_args: g.inc.iter().map(|d| d.to_str().unwrap().to_string()).collect(),
            files: g
                .paths
                .iter()
                .zip(&g.texts)
                .map(|(p, t)| WFile {
                    path: p.clone(),
                    text: t.clone(),
                    m: None,
                    includes: vec![],
                    alias: None,
                })
                .collect(),
            stats: BTreeMap::new(),
        };
        (w, "any graph of includes")
    } else {
        let mut cfg = WCfg {
            max_files: *r.pick(&[2, 4, 7]),
            missing: 20,
            broken: 10,
            faulty: 30,
            extra: 60,
            ..WCfg::default()
        };
        cfg.main.unresolved = 10;
        let mut w = build(env, r, &cfg);
        if r.chance(60) {
            collisions(r, &mut w);
            (w, "colliding names")
        } else {
            disturb(env, r, &mut w);
            (w, "changed files")
        }
    };
    env.count(kind, 1);
    with_world(env, w, |env, w| {
        let first = whole(&load(w));
        let runs = if env.thorough() { 6 } else { 4 };
        for _ in 1..runs {
            let again = whole(&load(w));
            env.facts += first.len() as u64;
            env.count("repetitions in one process", 1);
            if again != first {
                let a: Vec<&String> = first.iter().filter(|l| !again.contains(l)).take(5).collect();
                let b: Vec<&String> = again.iter().filter(|l| !first.contains(l)).take(5).collect();
                return w.fail(format!("two runs differ: {a:#?}\n{b:#?}"));
            }
        }
        env.seen(&first.join("\n"));
        if case % 4 == 0 {
            let mut args: Vec<String> = w.inc_args.iter().flat_map(|a| ["-i".to_string(), a.clone()]).collect();
            args.push(w.files[0].path.to_str().unwrap().to_string());
            let one = cli(env, &args, &w.cwd)?;
            for _ in 1..runs {
                let two = cli(env, &args, &w.cwd)?;
                env.count("repetitions of the command line tool", 1);
                env.facts += 1;
                if (one.code, &one.out, &one.err) != (two.code, &two.out, &two.err) {
                    return w.fail(format!("two runs differ:\n{:?}\n{}\n{:?}\n{}", one.code, one.out, two.code, two.out));
                }
            }
        }
        if case % 16 == 0 {
            let one = session(env, w)?;
            let two = session(env, w)?;
            env.count("repetitions of the language server", 1);
            env.facts += one.len() as u64;
            if one != two {
                let n = one.iter().zip(&two).position(|(a, b)| a != b);
                let at = n.map(|n| format!("{} / {}", one[n], two[n]));
                return w.fail(format!("two sessions differ: {} and {} messages, {at:?}", one.len(), two.len()));
            }
        }
        Ok(())
    })
}

/// A session, step by step. Returns what the server said.
fn session(env: &Env, w: &World) -> Res<Vec<String>> {
    let mut l = Lsp::start(env, &[], &w.cwd, json!({"includes": w.inc_args}))?;
    for (j, f) in w.files.iter().enumerate() {
        if j < 3 {
            l.open(&f.path, &f.text);
        }
        let id = l.symbols(&f.path);
        l.result(id)?;
        for (n, line) in f.text.split('\n').enumerate().take(60) {
            if let Some(c) = line.find('&') {
                let col = line[..c].encode_utf16().count() as u32;
                let a = l.at("textDocument/hover", &f.path, n as u32, col);
                l.result(a)?;
                let b = l.at("textDocument/definition", &f.path, n as u32, col);
                l.result(b)?;
            }
        }
        l.drain()?;
    }
    l.close(&w.files[0].path);
    let id = l.symbols(&w.files[0].path);
    l.result(id)?;
    l.drain()?;
    let mut out: Vec<String> = l.published.iter().map(|(u, v)| format!("{u} {v}")).collect();
    out.extend(l.replies.values().flatten().map(|v| v.to_string()));
    l.shutdown()?;
    Ok(out)
}

pub fn c20(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C20", case);
    let mut cfg = WCfg {
        max_files: *r.pick(&[1, 2, 4, 6]),
        missing: *r.pick(&[0, 20]),
        broken: *r.pick(&[0, 20]),
        faulty: *r.pick(&[0, 30]),
        ..WCfg::default()
    };
    cfg.main.unresolved = *r.pick(&[0, 10]);
    cfg.main.f_name = *r.pick(&[0, 10, 40]);
    cfg.main.f_sem = *r.pick(&[0, 10]);
    cfg.main_ft = Some(*r.pick(&[Ft::Dts, Ft::Dts, Ft::Dtsi, Ft::Dtso, Ft::Overlay, Ft::Other]));
    let mut w = build(env, r, &cfg);
    let messy = r.chance(60);
    if messy {
        disturb(env, r, &mut w);
    }
    with_world(env, w, |env, w| {
        let args = arguments(r, w);
        let out = cli(env, &args, &w.cwd)?;
        let fail = |msg: String| -> Res<()> {
            let mut files = w.dump();
            files.push(("arguments.txt".into(), format!("{args:?}").into_bytes()));
            files.push(("stdout.txt".into(), out.out.clone().into_bytes()));
            viol(msg, files)
        };
        if out.died() {
            return fail(format!("the command line tool died: {:?} {:?} {}", out.code, out.signal, out.err));
        }
        let (printed, fine) = match parse_output(&out.out) {
            Ok(x) => x,
            Err(e) => return fail(e),
        };
        let mut l = serve(env, r, w)?;
        let main = &w.files[0];
        if r.chance(40) {
            // typed first, then complete
            let other = if r.chance(50) { String::new() } else { any_doc(r).laid.text };
            l.open(&main.path, &other);
            if r.chance(50) {
                let id = l.symbols(&main.path);
                l.result(id)?;
            }
            l.change(&main.path, 2, &main.text);
            env.count("documents that were changed before", 1);
        } else {
            l.open(&main.path, &main.text);
        }
        let id = l.symbols(&main.path);
        l.result(id)?;
        l.drain()?;
        let project = load(w);
        let compare = |env: &mut Env, l: &Lsp| -> Result<(), String> {
            let mut want: Vec<(PathBuf, String, Vec<D>)> = vec![];
            let mut last: BTreeMap<PathBuf, Value> = BTreeMap::new();
            for (u, v) in &l.published {
                last.insert(uri_path(u).ok_or_else(|| format!("not the address of a file: {u}"))?, v.clone());
            }
            if !last.contains_key(&main.path) {
                return Err(format!("nothing is published for {}", main.path.display()));
            }
            for (f, v) in &last {
                let d = published(v).map_err(|e| format!("{}: {e}", f.display()))?;
                let text = std::fs::read_to_string(f).map_err(|e| format!("{}: {e}", f.display()))?;
                want.push((f.clone(), text, d));
            }
            compare_printed(env, &printed, &want)?;
            // What cannot be seen on the terminal: codes and the ends of the ranges
            for (f, _, ds) in &want {
                let known = diags(&project, f);
                env.facts += ds.len() as u64;
                if known != *ds {
                    let a: Vec<String> = known.iter().filter(|d| !ds.contains(d)).map(|d| d.to_string()).collect();
                    let b: Vec<String> = ds.iter().filter(|d| !known.contains(d)).map(|d| d.to_string()).collect();
                    return Err(format!("{}: only in the library: {a:?}, only published: {b:?}", f.display()));
                }
            }
            if want.iter().all(|w| w.2.is_empty()) != fine {
                return Err(format!("the command line tool finds no issues: {fine}"));
            }
            Ok(())
        };
        if compare(env, &l).is_err() {
            // everything that is going to be said has been said
            let done = |l: &Lsp| compare(&mut Env::new("", 0, PathBuf::new(), PathBuf::new()), l).is_ok();
            match l.wait(done) {
                Wait::Done => {}
                Wait::Quiet => {
                    if let Err(e) = compare(env, &l) {
                        let all: Vec<String> = l.published.iter().map(|(u, v)| format!("{u} {v}")).collect();
                        return fail(format!("{e}\npublished: {}", all.join("\n")));
                    }
                }
                wait => return l.fail(wait, "diagnostics"),
            }
        }
        env.count("comparisons", 1);
        env.count("comparisons of changed files", messy as u64);
        env.count("comparisons without issues", fine as u64);
        env.seen(&w.dump().iter().map(|f| String::from_utf8_lossy(&f.1).to_string()).collect::<String>());
        l.shutdown()?;
        Ok(())
    })
}
