//! A set of files that include each other, on disk, together with what they mean.
use crate::env::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use crate::toks::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
pub struct WCfg {
    pub max_files: usize,
    pub main: Cfg,
    pub other: Cfg,
    pub main_ft: Option<Ft>,
    /// percentage of files with
    pub missing: usize,
    pub broken: usize,
    pub faulty: usize,
    pub decoys: usize,
    pub weird_names: bool,
    /// percentage of file pairs that are additionally connected
    pub extra: usize,
    pub chain: bool,
    /// headers and /plugin/ wherever they may or may not be
    pub directives: bool,
}

impl Default for WCfg {
    fn default() -> WCfg {
        let mut small = Cfg {
            max_tops: 3,
            max_items: 4,
            max_depth: 3,
            budget: 120,
            ..Cfg::default()
        };
        small.unresolved = 0;
        WCfg {
            max_files: 6,
            main: small.clone(),
            other: small,
            main_ft: None,
            missing: 0,
            broken: 0,
            faulty: 0,
            decoys: 30,
            weird_names: true,
            extra: 30,
            chain: false,
            directives: false,
        }
    }
}

#[derive(Clone)]
pub struct WFile {
    pub path: PathBuf,
    pub text: String,
    pub m: Option<FileM>,
    pub includes: Vec<usize>,
    pub alias: Option<PathBuf>,
}

impl WFile {
    pub fn has_error(&self) -> bool {
        match &self.m {
            Some(m) => m.has_error(),
            None => true,
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub root: PathBuf,
    pub cwd: PathBuf,
    /// the directories that are searched, in order
    pub inc_dirs: Vec<PathBuf>,
    /// how they are passed
    pub inc_args: Vec<String>,
    pub files: Vec<WFile>,
    pub stats: BTreeMap<String, u64>,
}

/// The specified resolution of includes
pub fn resolve(dir: &Path, spelling: &str, inc_dirs: &[PathBuf], cwd: &Path) -> Option<PathBuf> {
    std::iter::once(dir)
        .chain(inc_dirs.iter().map(|p| p.as_path()))
        .chain(std::iter::once(cwd))
        .find_map(|d| std::fs::canonicalize(d.join(spelling)).ok())
}

pub fn relative(from: &Path, to: &Path) -> String {
    let a: Vec<_> = from.components().collect();
    let b: Vec<_> = to.components().collect();
    let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut s = String::new();
    for _ in n..a.len() {
        s.push_str("../");
    }
    let rest: PathBuf = b[n..].iter().collect();
    s.push_str(rest.to_str().unwrap());
    s
}

pub const FATAL: &[&str] = &[
    "/ { a = ; };\n",
    "/ { a = <1 2; };\n",
    "/ { node { };\n",
    "/ { a = \"open; };\n",
    "foo;\n",
    "/dts-v1/;\n/ { l: };\n",
    "/ { /* open };\n",
    "/ { é };\n",
    "};\n",
];

pub fn build(env: &mut Env, r: &mut Rng, w: &WCfg) -> World {
    let root = env.dir("w");
    let d_main = root.join("p");
    let d_sub = root.join("p/sub");
    let d_i1 = root.join("i1");
    let deep = r.chance(5);
    let d_nested = root.join(format!("i1/n{}", "/d".repeat(if deep { r.range(60, 150) } else { 0 })));
    // Directories whose names are alike, or unusual
    let d_i2 = root.join(r.pick_str(&["i2", "i2", "i2/n", "x/i1", "i1 ", "i ü", "I1"]));
    let cwd = root.join("c");
    let dirs = [&d_main, &d_main, &d_sub, &d_i1, &d_nested, &d_i2, &cwd];
    for d in dirs {
        std::fs::create_dir_all(d).unwrap();
    }
    // Directories with a second name: what is above them depends on where they are
    let mut links: Vec<(PathBuf, PathBuf)> = vec![];
    for (at, to) in [(d_main.join("up"), &d_nested), (cwd.join("up"), &d_sub), (d_i1.join("up"), &d_sub)] {
        if r.chance(50) {
            std::os::unix::fs::symlink(to, &at).unwrap();
            links.push((at, to.clone()));
        }
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut inc_dirs: Vec<PathBuf> = vec![];
    for d in [&d_i1, &d_i2, &d_nested] {
        if r.chance(65) {
            inc_dirs.push(d.clone());
        }
    }
    r.shuffle(&mut inc_dirs);
    let mut inc_args: Vec<String> = vec![];
    for d in &inc_dirs {
        if r.chance(10) {
            inc_args.push(root.join("does-not-exist").to_str().unwrap().to_string());
        }
        inc_args.push(if r.chance(40) {
            relative(&cwd, d)
        } else if r.chance(20) {
            format!("{}/../{}", d.display(), d.file_name().unwrap().to_str().unwrap())
        } else {
            d.to_str().unwrap().to_string()
        });
    }
    let n = r.range(1, w.max_files);
    let mut used = BTreeSet::new();
    // Where the files are
    let mut paths: Vec<PathBuf> = vec![];
    let mut fts = vec![];
    let mut aliases = vec![];
    let mut taken: BTreeSet<PathBuf> = BTreeSet::new();
    for j in 0..n {
        let ft = if j == 0 {
            w.main_ft.unwrap_or(Ft::Dts)
        } else {
            *r.pick(&[Ft::Dtsi, Ft::Dtsi, Ft::Dtsi, Ft::Dtsi, Ft::Dts, Ft::Other, Ft::Dtso])
        };
        fts.push(ft);
        let stem = if w.weird_names && r.chance(30) {
            let odd = ["f ", "fä", "f%20", "f#", "f漢", "f+", "f&", "f😀", "f;", "f'", " f", "  f", "\u{3000}f", "f/ f", "*"];
            match r.pick_str(&odd) {
                "f/ f" => format!("f{j} "),
                "*" => format!("{j}*?[f]"),
                s => format!("{s}{j}"),
            }
        } else {
            format!("f{j}")
        };
        let dir = if j == 0 { &d_main } else { dirs[r.below(dirs.len())] };
        let p = dir.join(ft.named(&stem, r.below(13)));
        std::fs::write(&p, "").unwrap();
        taken.insert(p.clone());
        let alias = if j > 0 && r.chance(15) {
            let a = dir.join(ft.named(&format!("alias{j}"), r.below(13)));
            std::os::unix::fs::symlink(&p, &a).unwrap();
            Some(a)
        } else {
            None
        };
        aliases.push(alias);
        paths.push(p);
    }
    for j in 1..n {
        if r.chance(w.decoys) {
            let name = paths[j].file_name().unwrap().to_owned();
            let d = dirs[r.below(dirs.len())].join(name);
            if !d.exists() && !taken.contains(&d) {
                std::fs::write(&d, "/ { decoy").unwrap();
                *stats.entry("decoys".into()).or_default() += 1;
            }
        }
    }
    std::fs::write(d_i1.join("bin.dtsi"), [b'/', 0xff, 0xfe, b'{', b'}']).unwrap();
    // Who includes whom
    let mut targets: Vec<Vec<usize>> = vec![vec![]; n];
    for k in 1..n {
        let p = if w.chain { k - 1 } else { r.below(k) };
        targets[p].push(k);
        for j in 0..k {
            if j != p && r.chance(w.extra) && r.chance(50) {
                targets[j].push(k);
            }
        }
    }
    let mut files: Vec<Option<WFile>> = vec![None; n];
    for j in (0..n).rev() {
        if j > 0 && r.chance(w.broken) && targets[j].is_empty() {
            let text = r.pick_str(FATAL).to_string();
            std::fs::write(&paths[j], &text).unwrap();
            *stats.entry("files that cannot be parsed".into()).or_default() += 1;
            files[j] = Some(WFile {
                path: paths[j].clone(),
                text,
                m: None,
                includes: vec![],
                alias: aliases[j].clone(),
            });
            continue;
        }
        r.shuffle(&mut targets[j]);
        let dir = paths[j].parent().unwrap().to_path_buf();
        let mut specs: Vec<IncSpec> = vec![];
        for k in targets[j].clone() {
            let times = if r.chance(8) { 2 } else { 1 };
            for _ in 0..times {
                let spelling = spell(r, &dir, &paths[k], aliases[k].as_deref(), &inc_dirs, &cwd, &links, &mut stats);
                specs.push(IncSpec {
                    spelling,
                    target: Some(k),
                    exports: files[k].as_ref().unwrap().m.as_ref().map(|m| m.scope.clone()).unwrap_or_default(),
                });
            }
        }
        let missing = if r.chance(w.missing) { *r.pick(&[1, 1, 2, 3]) } else { 0 };
        let mut last: Option<(usize, String)> = None;
        for _ in 0..missing {
            let spelling = match r.below(7) {
                _ if last.is_some() && r.chance(25) => last.clone().unwrap().1,
                5 => r.pick_str(&["", ".", "..", "./", "/"]).to_string(),
                0 => "missing.dtsi".to_string(),
                1 => root.join("nowhere/x.dtsi").to_str().unwrap().to_string(),
                2 => d_i2.to_str().unwrap().to_string(),
                3 => d_i1.join("bin.dtsi").to_str().unwrap().to_string(),
                _ => format!("sub/missing{j}.dtsi"),
            };
            *stats.entry("includes that cannot be read".into()).or_default() += 1;
            let at = match &last {
                Some((at, _)) if r.chance(50) => at + 1,
                _ => r.below(specs.len() + 1),
            };
            last = Some((at, spelling.clone()));
            specs.insert(
                at,
                IncSpec {
                    spelling,
                    target: None,
                    exports: Scope::default(),
                },
            );
        }
        let mut cfg = if j == 0 { w.main.clone() } else { w.other.clone() };
        if r.chance(w.faulty) {
            match r.below(3) {
                0 => {
                    cfg.tame = true;
                    cfg.f_semi = 15;
                }
                1 => cfg.f_num = 15,
                _ => cfg.f_sem = 15,
            }
        }
        cfg.header = fts[j] == Ft::Dts || r.chance(20);
        if w.directives {
            cfg.header = r.chance(if fts[j] == Ft::Dts { 70 } else { 50 });
            cfg.plugin = r.chance(25);
        }
        cfg.fragment = j > 0 && fts[j] != Ft::Dts && r.chance(10);
        let style = Style::random(r);
        let mut m = Gen::new(r, cfg, j, fts[j], &mut used).file(&specs, &style);
        for inc in m.includes.clone() {
            let at = At::Toks(inc.kw, inc.tok);
            match inc.target {
                None => m.expects.push(Expect {
                    code: "io_error",
                    at,
                    msg: None,
                }),
                Some(k) => {
                    if files[k].as_ref().unwrap().has_error() {
                        m.expects.push(Expect {
                            code: "errors_in_include",
                            at,
                            msg: None,
                        });
                    }
                }
            }
        }
        std::fs::write(&paths[j], &m.laid.text).unwrap();
        files[j] = Some(WFile {
            path: paths[j].clone(),
            text: m.laid.text.clone(),
            includes: targets[j].clone(),
            m: Some(m),
            alias: aliases[j].clone(),
        });
    }
    let files: Vec<WFile> = files.into_iter().map(|f| f.unwrap()).collect();
    *stats.entry("files".into()).or_default() += files.len() as u64;
    World {
        root,
        cwd,
        inc_dirs,
        inc_args,
        files,
        stats,
    }
}

fn spell(
    r: &mut Rng,
    dir: &Path,
    target: &Path,
    alias: Option<&Path>,
    inc_dirs: &[PathBuf],
    cwd: &Path,
    links: &[(PathBuf, PathBuf)],
    stats: &mut BTreeMap<String, u64>,
) -> String {
    let want = std::fs::canonicalize(target).unwrap();
    let name = match alias {
        Some(a) if r.chance(60) => a,
        _ => target,
    };
    for _ in 0..20 {
        let (s, how) = match r.below(7) {
            0 => (name.to_str().unwrap().to_string(), "absolute"),
            1 => (relative(dir, name), "relative to the file"),
            2 => (format!("./{}", relative(dir, name)), "relative to the file"),
            3 if !inc_dirs.is_empty() => {
                let d = r.pick(inc_dirs).clone();
                (relative(&d, name), "relative to an include path")
            }
            5 if !links.is_empty() => {
                let (link, real) = r.pick(links);
                let base = if inc_dirs.is_empty() || r.chance(50) { dir } else { r.pick(inc_dirs) };
                (
                    format!("{}/{}", relative(base, link), relative(real, name)),
                    "through a link to a directory",
                )
            }
            4 => (name.file_name().unwrap().to_str().unwrap().to_string(), "only the file name"),
            _ => (relative(cwd, name), "relative to the working directory"),
        };
        if resolve(dir, &s, inc_dirs, cwd).as_deref() == Some(&want) {
            *stats.entry(format!("include {how}")).or_default() += 1;
            if name != target {
                *stats.entry("include through a symbolic link".into()).or_default() += 1;
            }
            return s;
        }
    }
    target.to_str().unwrap().to_string()
}

impl World {
    pub fn dump(&self) -> Vec<(String, Vec<u8>)> {
        let mut v = vec![(
            "world.txt".to_string(),
            format!(
                "root: {}\ncwd: {}\ninclude paths: {:?}\nmain: {}\n",
                self.root.display(),
                self.cwd.display(),
                self.inc_args,
                self.files[0].path.display()
            )
            .into_bytes(),
        )];
        for f in &self.files {
            v.push((f.path.display().to_string(), f.text.clone().into_bytes()));
        }
        v
    }

    pub fn fail<T>(&self, msg: impl Into<String>) -> Res<T> {
        viol(msg, self.dump())
    }

    pub fn pos(&self, d: &Decl) -> (Pos, Pos) {
        let m = self.files[d.file].m.as_ref().unwrap();
        (m.laid.start(d.tok), m.laid.end(d.tok))
    }

    /// The positions a reference may lead to
    pub fn targets(&self, u: &RefUse) -> Vec<(PathBuf, Pos, Pos)> {
        u.targets
            .iter()
            .filter(|d| d.file != usize::MAX)
            .map(|d| {
                let (a, b) = self.pos(d);
                (self.files[d.file].path.clone(), a, b)
            })
            .collect()
    }
}
