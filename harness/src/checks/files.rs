//! Checks of several files.
use super::lang::record;
use crate::env::*;
use crate::inproc::*;
use crate::model::*;
use crate::proc::*;
use crate::rng::Rng;
use crate::world::*;
use ginko::dts::{ItemAtCursor, Project};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub fn load(w: &World) -> Project {
    std::env::set_current_dir(&w.cwd).unwrap();
    let mut p = Project::default();
    p.set_include_paths(w.inc_args.clone());
    p.add_file(w.files[0].path.to_str().unwrap().to_string()).unwrap_or_else(|e| panic!("the main file cannot be loaded: {e}"));
    p
}

pub fn check_diags(env: &mut Env, w: &World, p: &Project) -> Res<()> {
    for f in &w.files {
        let got = diags(p, &f.path);
        match &f.m {
            Some(m) => match match_diags(m, &got) {
                Ok(n) => env.facts += n as u64 + 1,
                Err(e) => return w.fail(format!("{}: diagnostics differ:\n{e}", f.path.display())),
            },
            None => {
                env.facts += 1;
                if !got.iter().any(|d| d.sev == "error") {
                    return w.fail(format!("{}: no error is reported", f.path.display()));
                }
            }
        }
    }
    // Exactly these files are part of the project
    let want: BTreeSet<PathBuf> = w.files.iter().map(|f| f.path.clone()).collect();
    let got: BTreeSet<PathBuf> = p.files().map(|f| f.to_path_buf()).collect();
    env.facts += 1;
    if want != got {
        return w.fail(format!("files of the project: expected {want:?}, got {got:?}"));
    }
    Ok(())
}

fn record_world(env: &mut Env, w: &World) {
    for f in &w.files {
        if let Some(m) = &f.m {
            record(env, m);
        }
    }
    for (k, v) in &w.stats {
        env.count(k, *v);
    }
    env.sample(|| {
        w.dump()
            .iter()
            .map(|(n, b)| format!("== {n}\n{}", String::from_utf8_lossy(b)))
            .collect::<Vec<_>>()
            .join("\n")
    });
}

pub fn with_world(env: &mut Env, w: World, f: impl FnOnce(&mut Env, &World) -> Res<()>) -> Res<()> {
    let res = match sut(|| {
        let r = f(env, &w);
        r
    }) {
        Ok(r) => r,
        Err(panic) => w.fail(format!("crash: {panic}")),
    };
    if res.is_ok() {
        record_world(env, &w);
    }
    std::env::set_current_dir("/").unwrap();
    env.remove_dir(&w.root);
    res
}

pub fn c10(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C10", case);
    if case % 8 == 5 {
        // Files that may also include themselves and each other
        return graph_case(env, r, case);
    }
    let mut cfg = WCfg {
        max_files: *r.pick(&[2, 4, 6, 9]),
        missing: *r.pick(&[0, 10, 40]),
        broken: *r.pick(&[0, 10, 40]),
        faulty: *r.pick(&[0, 10, 40]),
        decoys: *r.pick(&[0, 30, 80]),
        chain: r.chance(15),
        ..WCfg::default()
    };
    cfg.main.budget = 60;
    cfg.other.budget = 40;
    cfg.other.max_tops = 2;
    let w = build(env, r, &cfg);
    with_world(env, w, |env, w| {
        let p = load(w);
        check_diags(env, w, &p)?;
        // Every include leads to its file
        for f in &w.files {
            let Some(m) = &f.m else { continue };
            for inc in &m.includes {
                let at = m.laid.start(inc.tok);
                let pos = ginko::dts::Position::new(at.line, at.col);
                env.facts += 1;
                match p.find_at_pos(&f.path, &pos) {
                    Some(ItemAtCursor::Include(i)) => {
                        let got = i.path().ok();
                        let dir = f.path.parent().unwrap();
                        let want = resolve(dir, i.file_name.item(), &w.inc_dirs, &w.cwd);
                        if let Some(k) = inc.target {
                            assert_eq!(want.as_ref(), Some(&w.files[k].path));
                        }
                        if got != want {
                            return w.fail(format!("{}: include {:?} resolves to {got:?} instead of {want:?}",
                                f.path.display(), i.file_name.item()));
                        }
                    }
                    _ => return w.fail(format!("{}: no include at {at}", f.path.display())),
                }
            }
        }
        Ok(())
    })
}

pub fn check_refs(env: &mut Env, w: &World, p: &Project) -> Res<()> {
    for f in &w.files {
        let Some(m) = &f.m else { continue };
        for u in &m.refs {
            if u.targets.iter().any(|d| d.file == usize::MAX) {
                continue;
            }
            let at = m.laid.start(u.tok);
            let pos = ginko::dts::Position::new(at.line, at.col);
            let Some(ItemAtCursor::Reference(re)) = p.find_at_pos(&f.path, &pos) else {
                return w.fail(format!("{}: no reference at {at}", f.path.display()));
            };
            let got = p.get_node_position(&f.path, re).map(|(s, path)| {
                let (a, b) = span(s);
                (path.to_path_buf(), a, b)
            });
            let hover = p.document_reference(&f.path, re);
            let targets = w.targets(u);
            env.facts += 2;
            match (&got, targets.is_empty()) {
                (None, true) => env.count("references without target", 1),
                (Some(g), false) if targets.contains(g) => {
                    env.count("references that lead somewhere", 1);
                    if g.0 != f.path {
                        env.count("references to other files", 1);
                    }
                }
                _ => {
                    return w.fail(format!(
                        "{}: reference {} at {at} leads to {got:?}, expected {targets:?}",
                        f.path.display(),
                        m.toks[u.tok].s
                    ))
                }
            }
            let want_hover: Vec<String> = u.targets.iter().map(|d| format!("Node {}", d.base)).collect();
            let ok = match &hover {
                None => want_hover.is_empty(),
                Some(h) => want_hover.contains(h),
            };
            if !ok {
                return w.fail(format!(
                    "{}: reference {} at {at} is described as {hover:?}, expected {want_hover:?}",
                    f.path.display(),
                    m.toks[u.tok].s
                ));
            }
        }
    }
    Ok(())
}

/// A node that an included file adds to a node it does not know itself. Recorded as a known finding.
fn added_elsewhere(env: &mut Env) -> Res<()> {
    let dir = env.dir("k");
    let files = [
        ("a.dtsi", "/ { soc: soc { }; };\n"),
        ("b.dtsi", "&soc { child { }; };\n"),
        ("main.dts", "/dts-v1/;\n/include/ \"a.dtsi\"\n/include/ \"b.dtsi\"\n&{/soc/child} { };\n"),
    ];
    for (n, t) in files {
        std::fs::write(dir.join(n), t).unwrap();
    }
    let main = dir.join("main.dts");
    let got = sut(|| {
        let mut p = Project::default();
        p.add_file(main.to_str().unwrap().to_string()).unwrap_or_else(|e| panic!("the main file cannot be loaded: {e}"));
        p.files().flat_map(|f| diags(&p, f)).map(|d| d.to_string()).collect::<Vec<_>>()
    });
    let all = files.iter().map(|f| (f.0.to_string(), f.1.as_bytes().to_vec())).collect();
    match got {
        Err(panic) => return viol(format!("crash: {panic}"), all),
        Ok(d) if d.is_empty() => {}
        Ok(d) if d.len() == 1 && d[0].starts_with("error [unresolved_reference] 3:0-3:") => env.known.push(
            "the path of a node that an included file adds through a label it does not define itself is reported as unresolved"
                .to_string(),
        ),
        Ok(d) => return viol(format!("unexpected diagnostics: {d:?}"), all),
    }
    env.remove_dir(&dir);
    Ok(())
}

pub fn c12(env: &mut Env, case: u64) -> Res<()> {
    if case == 0 {
        added_elsewhere(env)?;
    }
    let r = &mut Rng::of(env.seed, "C12", case);
    let mut cfg = WCfg {
        max_files: *r.pick(&[2, 3, 5, 8]),
        chain: r.chance(20),
        extra: *r.pick(&[0, 30, 80]),
        main_ft: Some(*r.pick(&[Ft::Dts, Ft::Dts, Ft::Dts, Ft::Dts, Ft::Dtsi, Ft::Dtso, Ft::Overlay])),
        ..WCfg::default()
    };
    cfg.main.unresolved = *r.pick(&[0, 10, 40]);
    cfg.other.unresolved = *r.pick(&[0, 10, 40]);
    cfg.main.plugin = r.chance(10);
    cfg.main.max_tops = 6;
    let w = build(env, r, &cfg);
    with_world(env, w, |env, w| {
        let p = load(w);
        check_diags(env, w, &p)?;
        check_refs(env, w, &p)
    })
}

/// Files that include each other in any way
pub struct Graph {
    pub paths: Vec<PathBuf>,
    edges: Vec<Vec<usize>>,
    pub root: PathBuf,
    pub texts: Vec<String>,
    /// directories that are searched for includes; some have other files of the same names
    pub inc: Vec<PathBuf>,
}

impl Graph {
    fn reachable(&self, from: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut stack = vec![from];
        while let Some(n) = stack.pop() {
            if seen.insert(n) {
                stack.extend(self.edges[n].iter().copied());
            }
        }
        seen
    }

    /// Is there a cycle among the files that are reachable?
    fn cyclic(&self) -> bool {
        // repeatedly remove files that include nothing
        let mut rest = self.reachable(0);
        loop {
            let leaf = rest.iter().copied().find(|n| self.edges[*n].iter().all(|m| !rest.contains(m)));
            match leaf {
                Some(n) => {
                    rest.remove(&n);
                }
                None => return !rest.is_empty(),
            }
        }
    }

    fn fail<T>(&self, msg: impl Into<String>) -> Res<T> {
        viol(
            msg,
            self.paths
                .iter()
                .zip(&self.texts)
                .map(|(p, t)| (p.display().to_string(), t.clone().into_bytes()))
                .collect(),
        )
    }

    /// The sets of files that include each other in circles
    fn circles(&self) -> Vec<BTreeSet<usize>> {
        let all = self.reachable(0);
        let from: BTreeMap<usize, BTreeSet<usize>> = all
            .iter()
            .map(|a| (*a, self.edges[*a].iter().flat_map(|b| self.reachable(*b)).collect()))
            .collect();
        let mut out: Vec<BTreeSet<usize>> = vec![];
        for a in &all {
            if from[a].contains(a) && !out.iter().any(|c| c.contains(a)) {
                out.push(from[a].iter().copied().filter(|b| from[b].contains(a)).collect());
            }
        }
        out
    }

    /// The files that the message names, if they include each other in a circle
    fn named_cycle(&self, msg: &str) -> Option<Vec<usize>> {
        let ids: Vec<Option<usize>> = msg
            .trim_start_matches("Cyclic include: ")
            .split(" -> ")
            .map(|s| self.paths.iter().position(|p| p.to_str() == Some(s)))
            .collect();
        if ids.len() < 2 || ids.iter().any(|i| i.is_none()) || ids.first() != ids.last() {
            return None;
        }
        let ids: Vec<usize> = ids.into_iter().flatten().collect();
        let real = ids.windows(2).all(|w| self.edges[w[0]].contains(&w[1]))
            || ids.windows(2).all(|w| self.edges[w[1]].contains(&w[0]));
        real.then_some(ids)
    }
}

pub fn graph(env: &mut Env, r: &mut Rng) -> Graph {
    let root = env.dir("g");
    std::fs::create_dir_all(root.join("d")).unwrap();
    let shape = r.below(10);
    let (n, edges): (usize, Vec<Vec<usize>>) = match shape {
        0 => {
            // each level includes all files of the next one
            let width = r.range(2, 3);
            let levels = r.range(2, if env.thorough() { 40 } else { 24 });
            let n = width * levels + 1;
            let mut e = vec![vec![]; n];
            e[0] = (1..=width).collect();
            for l in 0..levels - 1 {
                for i in 0..width {
                    e[1 + l * width + i] = (0..width).map(|j| 1 + (l + 1) * width + j).collect();
                }
            }
            env.count("ladders", 1);
            if r.chance(30) {
                let (a, b) = (r.below(n), r.below(n));
                e[a].push(b);
            }
            (n, e)
        }
        1 => {
            // a chain, possibly closed
            let n = r.range(1, 60);
            let mut e = vec![vec![]; n];
            for i in 0..n - 1 {
                e[i].push(i + 1);
            }
            if r.chance(50) {
                let b = r.below(n);
                e[n - 1].push(b);
            }
            (n, e)
        }
        2..=5 => {
            // without cycles, at most one edge back
            let n = r.range(2, 9);
            let mut e = vec![vec![]; n];
            for i in 0..n {
                for j in i + 1..n {
                    if r.chance(40) {
                        e[i].push(j);
                    }
                }
            }
            for _ in 0..*r.pick(&[0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 3]) {
                let a = r.below(n);
                let b = r.below(a + 1);
                e[a].push(b);
            }
            (n, e)
        }
        6 => {
            // nothing but one small circle, with or without a way to it
            let (way, n) = (r.below(3), r.range(1, 3));
            let n = way + n;
            let mut e: Vec<Vec<usize>> = (0..n).map(|i| vec![i + 1]).collect();
            e[n - 1] = vec![way];
            (n, e)
        }
        _ => {
            let n = r.range(1, 7);
            let p = *r.pick(&[8, 15, 25, 50]);
            let mut e = vec![vec![]; n];
            for row in e.iter_mut() {
                for j in 0..n {
                    if r.chance(p) {
                        row.push(j);
                    }
                }
            }
            (n, e)
        }
    };
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let mut seen: BTreeSet<PathBuf> = BTreeSet::new();
    let alike = r.chance(30);
    let dirs = r.pick_str(&["d/", "h/"]);
    let paths: Vec<PathBuf> = (0..n)
        .map(|i| {
            if alike && n < 30 {
                // Many files of the same names
                loop {
                    // which come first or last in the order of names
                    let dir = dirs.repeat(r.below(4 + n / 2));
                    let ext = if i == 0 || r.chance(80) { "dts" } else { "dtsi" };
                    let p = root.join(format!("{dir}f{}.{ext}", usize::from(r.chance(20))));
                    if seen.insert(p.clone()) {
                        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                        return p;
                    }
                }
            }
            let ext = if i == 0 { "dts" } else { r.pick_str(&["dtsi", "dtsi", "dtsi", "dts", "dtso"]) };
            let dir = if r.chance(30) { "d/" } else { "" };
            // names are in no relation to the edges
            root.join(format!("{dir}f{}.{ext}", order[i]))
        })
        .collect();
    let mut g = Graph {
        paths,
        edges,
        inc: [root.join("x"), root.join("d"), root.join("y")].into_iter().filter(|_| r.chance(40)).collect(),
        root,
        texts: vec![],
    };
    r.shuffle(&mut g.inc);
    for p in &g.paths {
        std::fs::write(p, "").unwrap();
    }
    if r.chance(40) {
        // Never found, as the directory of the file comes first
        for p in &g.paths {
            for d in ["x", "y", "x/d"] {
                if r.chance(50) {
                    std::fs::create_dir_all(g.root.join(d)).unwrap();
                    std::fs::write(g.root.join(d).join(p.file_name().unwrap()), "/ { decoy").unwrap();
                }
            }
        }
        env.count("graphs with other files of the same names", 1);
    }
    for d in ["x", "y"] {
        std::fs::create_dir_all(g.root.join(d)).unwrap();
    }
    for i in 0..n {
        r.shuffle(&mut g.edges[i]);
        let mut t = String::new();
        if g.paths[i].extension().unwrap() == "dts" {
            t.push_str("/dts-v1/;\n");
        }
        if r.chance(20) {
            t.push_str(&format!("/ {{ early{i} {{ }}; }};\n"));
        }
        for j in g.edges[i].clone() {
            let from = g.paths[i].parent().unwrap();
            let name = g.paths[j].file_name().unwrap().to_str().unwrap().to_string();
            let want = std::fs::canonicalize(&g.paths[j]).ok();
            let s = match r.below(5) {
                4 if resolve(from, &name, &g.inc, Path::new("/")) == want => {
                    env.count("includes by name only", 1);
                    name
                }
                0 => g.paths[j].to_str().unwrap().to_string(),
                1 => format!("./{}", relative(from, &g.paths[j])),
                2 if from == g.root => format!("d/../{}", relative(from, &g.paths[j])),
                _ => relative(from, &g.paths[j]),
            };
            t.push_str(&format!("/include/ \"{s}\"\n"));
            if r.chance(10) {
                t.push_str(&format!("/include/ \"{s}\"\n"));
            }
        }
        if r.chance(70) {
            t.push_str(&format!("/ {{ n{i}: node{i} {{ }}; }};\n"));
        }
        std::fs::write(&g.paths[i], &t).unwrap();
        g.texts.push(t);
    }
    g
}

pub fn c11(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C11", case);
    graph_case(env, r, case)
}

fn graph_case(env: &mut Env, r: &mut Rng, case: u64) -> Res<()> {
    let g = graph(env, r);
    let cyclic = g.cyclic();
    let reach = g.reachable(0);
    let got = sut(|| {
        std::env::set_current_dir("/").unwrap();
        let mut p = Project::default();
        p.set_include_paths(g.inc.iter().map(|d| d.to_str().unwrap().to_string()).collect());
        p.add_file(g.paths[0].to_str().unwrap().to_string()).unwrap_or_else(|e| panic!("the main file cannot be loaded: {e}"));
        let files: BTreeSet<PathBuf> = p.files().map(|f| f.to_path_buf()).collect();
        let d: Vec<(PathBuf, D)> =
            files.iter().flat_map(|f| diags(&p, f).into_iter().map(|d| (f.clone(), d)).collect::<Vec<_>>()).collect();
        (files, d)
    });
    let (files, d) = match got {
        Ok(x) => x,
        Err(panic) => return g.fail(format!("crash: {panic}")),
    };
    let want: BTreeSet<PathBuf> = reach.iter().map(|i| g.paths[*i].clone()).collect();
    if files != want {
        return g.fail(format!("files of the project: expected {want:?}, got {files:?}"));
    }
    let cyc: Vec<&(PathBuf, D)> = d.iter().filter(|d| d.1.code == "cyclic_dependency_error").collect();
    env.facts += 2 + cyc.len() as u64;
    if cyclic && cyc.is_empty() {
        return g.fail("there is a cycle, but none is reported");
    }
    if !cyclic && !d.is_empty() {
        return g.fail(format!("there is no cycle, but there are diagnostics: {d:?}"));
    }
    let mut circles = if cyclic { g.circles() } else { vec![] };
    env.count("separate circles", circles.len() as u64);
    if circles.len() > 1 {
        env.count("graphs with several separate circles", 1);
    }
    for (f, c) in &cyc {
        let Some(named) = g.named_cycle(&c.msg) else {
            return g.fail(format!("not a cycle of includes: {}: {}", f.display(), c.msg));
        };
        circles.retain(|x| !x.contains(&named[0]));
        if c.sev != "error" {
            return g.fail("a cycle is not an error");
        }
        // It is reported for an include
        let text = &g.texts[g.paths.iter().position(|p| p == f).unwrap()];
        let line = text.split('\n').nth(c.start.line as usize).unwrap_or("");
        if !line.starts_with("/include/") || c.start.col != 0 || c.end.col as usize != line.len() {
            return g.fail(format!("{}: not the position of an include: {c}", f.display()));
        }
    }
    if let Some(c) = circles.first() {
        let c: Vec<&PathBuf> = c.iter().map(|i| &g.paths[*i]).collect();
        return g.fail(format!("nothing is reported for the files that include each other in circles: {c:?}"));
    }
    if let Some((f, x)) = d.iter().find(|x| x.1.code != "cyclic_dependency_error" && x.1.code != "errors_in_include") {
        return g.fail(format!("{}: unexpected {x}", f.display()));
    }
    if case % 60 == 0 {
        let mut args = vec![g.paths[0].to_str().unwrap().to_string()];
        for d in &g.inc {
            args.extend(["-i".to_string(), d.to_str().unwrap().to_string()]);
        }
        let out = cli(env, &args, &g.root)?;
        env.count("runs of the command line tool", 1);
        if out.died() || (out.code == Some(0)) == cyclic {
            return g.fail(format!("the command line tool ended with {:?}:\n{}\n{}", out.code, out.out, out.err));
        }
        if out.out.matches("Cyclic include:").count() != cyc.len() {
            return g.fail(format!("the command line tool reports other cycles:\n{}", out.out));
        }
    }
    env.seen(&format!("{:?}", g.edges));
    env.count(if cyclic { "graphs with cycles" } else { "graphs without cycles" }, 1);
    env.count("files", files.len() as u64);
    env.count("reported cycles", cyc.len() as u64);
    env.sample(|| format!("{:?}\n{:?}", g.edges, cyc));
    let root = g.root.clone();
    env.remove_dir(&root);
    Ok(())
}
