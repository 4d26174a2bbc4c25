//! The language server survives whatever a client may send, and answers every request once.
use super::lang::any_type;
use super::server::{cmp_syms, published, syms};
use super::total::{any_doc, hostile};
use crate::env::*;
use crate::gen::*;
use crate::inproc::*;
use crate::model::*;
use crate::proc::*;
use crate::rng::Rng;
use crate::toks::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;

#[derive(Clone, Debug)]
enum Exp {
    /// any result
    Result,
    /// null or an empty list
    Nothing,
    /// exactly
    Is(Value),
    /// outline of the n-th version of the canary
    Outline(usize),
    Error(Option<i64>),
    /// cancelled: a result or an error
    Either,
}

struct Session<'a> {
    l: Lsp,
    dir: PathBuf,
    exp: BTreeMap<String, (Exp, String)>,
    n: i64,
    canary: PathBuf,
    versions: &'a [FileM],
    current: Option<usize>,
    paths: Vec<PathBuf>,
    /// The last text that was sent for a document
    texts: BTreeMap<String, String>,
}

/// The position of something in the text that requests are interesting for
fn spot(r: &mut Rng, text: &str) -> Value {
    let places: Vec<usize> = text.match_indices(['&', ':', '"', '{']).map(|m| m.0).collect();
    if places.is_empty() {
        return json!({"line": 0, "character": 0});
    }
    let at = places[r.below(places.len())];
    let line = text[..at].matches('\n').count();
    let begin = text[..at].rfind('\n').map_or(0, |i| i + 1);
    let mut col = text[begin..at].encode_utf16().count();
    match r.below(4) {
        0 => col += 1,
        1 => col = col.saturating_sub(1),
        _ => {}
    }
    json!({"line": line, "character": col})
}

fn odd_uri(r: &mut Rng, s: &Session) -> Value {
    let d = uri(&s.dir);
    match r.below(24) {
        0 => json!("untitled:Untitled-1"),
        1 => json!("http://example.com/a.dts"),
        2 => json!("file://host/a.dts"),
        3 => json!("file:///"),
        4 => json!(format!("{d}/%FF%FE.dts")),
        5 => json!(format!("{d}/a%00b.dts")),
        6 => json!(format!("{d}/")),
        7 => json!(d),
        8 => json!(format!("{d}/x.dts?query#fragment")),
        9 => json!(format!("{d}/sub/../y.dts")),
        10 => json!("data:text/plain,x"),
        11 => json!("vscode-notebook-cell:/x#y"),
        12 => json!("file:relative.dts"),
        13 => json!(format!("{d}/{}.dts", "long".repeat(r.range(1, 2000)))),
        14 => json!(format!("{d}/%F0%9F%98%80%20.dtsi")),
        15 => json!(format!("{d}/noextension")),
        16 => json!("file:///dev/null"),
        17 => json!(format!("{d}//z.dts")),
        18 => json!("file://localhost/z.dts"),
        19 => json!("urn:isbn:1"),
        _ => json!(uri(r.pick(&s.paths))),
    }
}

fn bad_uri(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => json!(""),
        1 => json!("not a uri"),
        2 => json!(5),
        3 => json!(null),
        4 => json!("/etc/x.dts"),
        _ => json!(["file:///x"]),
    }
}

fn number(r: &mut Rng) -> Value {
    match r.below(8) {
        0 => json!(u32::MAX),
        1 => json!(u32::MAX - 1),
        2 => json!(i32::MAX),
        3 => json!(65536),
        _ => json!(r.below(80)),
    }
}

fn bad_number(r: &mut Rng) -> Value {
    match r.below(7) {
        0 => json!(-1),
        1 => json!(4294967296u64),
        2 => json!(1.5),
        3 => json!("1"),
        4 => json!(null),
        5 => json!(i64::MIN),
        _ => json!({}),
    }
}

fn junk(r: &mut Rng) -> Value {
    match r.below(9) {
        0 => json!(null),
        1 => json!([]),
        2 => json!({}),
        3 => json!({"textDocument": {}}),
        4 => json!({"textDocument": null, "position": null}),
        5 => json!([1, "2", {}]),
        6 => json!({"textDocument": [], "contentChanges": {}}),
        7 => json!({"settings": {"includes": 7}}),
        _ => json!({"a": "b".repeat(r.below(3000))}),
    }
}

fn settings(r: &mut Rng, s: &Session) -> Value {
    match r.below(9) {
        0 => json!(null),
        1 => json!({"includes": 5}),
        2 => json!({"includes": [1, 2]}),
        3 => json!({"includes": ["", "/nonexistent", "/dev/null", ".", "..", "\u{0}", "~"]}),
        4 => json!([]),
        5 => json!("includes"),
        6 => json!({"ginko": {"includes": []}}),
        7 => json!({"includes": null}),
        _ => json!({"includes": [s.dir.to_str().unwrap(), s.dir.join("canary").to_str().unwrap()]}),
    }
}

const ASK: &[&str] = &["textDocument/hover", "textDocument/definition", "textDocument/documentSymbol"];

/// not offered by this server
const OTHER: &[&str] = &[
    "textDocument/completion",
    "textDocument/references",
    "textDocument/formatting",
    "textDocument/rename",
    "textDocument/signatureHelp",
    "textDocument/codeAction",
    "textDocument/semanticTokens/full",
    "textDocument/foldingRange",
    "workspace/symbol",
    "workspace/executeCommand",
    "no/such/method",
    "",
    "textDocument/",
    "Initialize",
    "hover",
];

const NOTES: &[&str] = &[
    "textDocument/didSave",
    "textDocument/willSave",
    "workspace/didChangeWatchedFiles",
    "workspace/didChangeWorkspaceFolders",
    "workspace/didRenameFiles",
    "$/setTrace",
    "$/progress",
    "$/cancelRequest",
    "no/such/notification",
    "textDocument/didOpenn",
    "textDocument/didOpen",
    "textDocument/didChange",
    "textDocument/didClose",
    "workspace/didChangeConfiguration",
    "initialized",
];

impl Session<'_> {
    fn request(&mut self, r: &mut Rng, method: &str, params: Option<Value>, exp: Exp) -> Value {
        self.n += 1;
        let id = match r.below(6) {
            0 => json!(format!("id-{}", self.n)),
            1 => json!(-self.n),
            2 => json!(self.n + (1 << 40)),
            _ => json!(self.n),
        };
        let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if let Some(p) = params {
            m["params"] = p;
        }
        self.exp.insert(id.to_string(), (exp, m.to_string().chars().take(500).collect()));
        self.l.raw(&m);
        id
    }

    fn text(&self, env: &mut Env, r: &mut Rng) -> String {
        match r.below(6) {
            0 => any_doc(r).laid.text,
            1 => {
                let mut text = String::new();
                for _ in 0..r.range(1, 4) {
                    let p = r.pick(&self.paths);
                    match r.below(6) {
                        0 => text += &format!("/include/ \"{}\"\n", p.file_name().unwrap().to_str().unwrap()),
                        1 => text += "/include/ \"sub\"\n",
                        _ => text += &format!("/include/ \"{}\"\n", p.display()),
                    }
                }
                text + "&x {};"
            }
            2 => String::new(),
            _ => hostile(env, r).0.chars().take(20_000).collect(),
        }
    }

    fn step(&mut self, env: &mut Env, r: &mut Rng) {
        let kind = r.below(20);
        env.count("messages", 1);
        match kind {
            0..=3 => {
                // opens and changes, in any order
                let u = if r.chance(60) { json!(uri(r.pick(&self.paths))) } else { odd_uri(r, self) };
                let text = self.text(env, r);
                env.count("documents opened or changed", 1);
                if let Some(u) = u.as_str() {
                    self.texts.insert(u.to_string(), text.clone());
                }
                if r.chance(50) {
                    let v = number(r);
                    let v = if v.as_u64() > Some(i32::MAX as u64) { json!(0) } else { v };
                    let lang = r.pick_str(&["dts", "devicetree", "", "c"]);
                    self.l.notify(
                        "textDocument/didOpen",
                        json!({"textDocument": {"uri": u, "languageId": lang, "version": v, "text": text}}),
                    );
                } else {
                    let v = match r.below(8) {
                        0 => json!(null),
                        1 => json!(i32::MAX),
                        2 => json!(i32::MIN),
                        _ => json!(r.below(50)),
                    };
                    if !v.is_null() {
                        env.count("changes of any document", 1);
                    }
                    let changes: Vec<Value> = match r.below(5) {
                        0 => vec![],
                        1 => vec![json!({"text": "x"}), json!({"text": text})],
                        2 => vec![json!({"range": {"start": {"line": 0, "character": 0},
                            "end": {"line": 9, "character": 9}}, "text": text})],
                        _ => vec![json!({"text": text})],
                    };
                    self.l.notify(
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": u, "version": v}, "contentChanges": changes}),
                    );
                }
            }
            4 | 5 => {
                let u = if r.chance(60) { json!(uri(r.pick(&self.paths))) } else { odd_uri(r, self) };
                self.l.notify("textDocument/didClose", json!({"textDocument": {"uri": u}}));
            }
            6 => {
                let v = settings(r, self);
                self.l.notify("workspace/didChangeConfiguration", json!({"settings": v}));
            }
            7..=11 => {
                let m = r.pick_str(ASK);
                let u = odd_uri(r, self);
                env.count("requests for any document", 1);
                let pos = match u.as_str().and_then(|u| self.texts.get(u)) {
                    Some(text) if r.chance(60) => spot(r, text),
                    _ => json!({"line": number(r), "character": number(r)}),
                };
                let p = json!({"textDocument": {"uri": u}, "position": pos});
                let strange = u.as_str().is_some_and(|u| {
                    ["untitled:", "http:", "data:", "urn:", "file://host"].iter().any(|p| u.starts_with(p))
                });
                let id = self.request(r, m, Some(p), if strange { Exp::Nothing } else { Exp::Result });
                if r.chance(15) {
                    env.count("cancelled requests", 1);
                    self.exp.get_mut(&id.to_string()).unwrap().0 = Exp::Either;
                    self.l.notify("$/cancelRequest", json!({"id": id}));
                }
            }
            12 => {
                env.count("requests with invalid parameters", 1);
                let m = r.pick_str(ASK);
                let p = match r.below(4) {
                    0 => None,
                    1 => {
                        let j = junk(r);
                        Some(j)
                    }
                    2 => Some(json!({"textDocument": {"uri": bad_uri(r)}, "position": {"line": 0, "character": 0}})),
                    _ => {
                        let u = uri(r.pick(&self.paths));
                        let p = json!({"textDocument": {"uri": u}, "position": {"line": bad_number(r), "character": 0}});
                        if m == "textDocument/documentSymbol" {
                            // has no position
                            self.request(r, m, Some(p), Exp::Result);
                            return;
                        }
                        Some(p)
                    }
                };
                self.request(r, m, p, Exp::Error(None));
            }
            13 | 14 => {
                env.count("requests that are not offered", 1);
                let m = r.pick_str(OTHER);
                let j = junk(r);
                self.request(r, m, Some(j), Exp::Error(None));
            }
            15 => {
                env.count("notifications of any kind", 1);
                let m = r.pick_str(NOTES);
                let j = junk(r);
                self.l.notify(m, j);
            }
            16 if r.chance(30) => {
                env.count("second initialization", 1);
                self.request(r, "initialize", Some(json!({"capabilities": {}})), Exp::Error(None));
            }
            _ => {
                // The canary
                if self.current.is_none() || r.chance(40) {
                    let v = r.below(self.versions.len());
                    let text = &self.versions[v].laid.text;
                    if self.current.is_none() {
                        self.l.open(&self.canary.clone(), text);
                    } else {
                        self.l.change(&self.canary.clone(), v as i64, text);
                    }
                    self.current = Some(v);
                } else {
                    let v = self.current.unwrap();
                    let u = uri(&self.canary);
                    env.count("requests for the canary", 1);
                    let m = &self.versions[v];
                    let label = m.toks.iter().position(|t| t.k == TK::Label);
                    // labels of nodes and properties have a hover text, those within values have not
                    match label {
                        Some(i) if r.chance(40) && first_node_label(m) == Some(i) => {
                            let at = m.laid.start(i);
                            let name = m.toks[i].s.trim_end_matches(':');
                            self.request(
                                r,
                                "textDocument/hover",
                                Some(json!({"textDocument": {"uri": u}, "position": {"line": at.line, "character": at.col}})),
                                Exp::Is(json!({"contents": name})),
                            );
                        }
                        _ if r.chance(50) => {
                            let at = spot(r, &m.laid.text);
                            let method = r.pick_str(&ASK[..2]);
                            let p = json!({"textDocument": {"uri": u}, "position": at});
                            self.request(r, method, Some(p), Exp::Result);
                        }
                        _ => {
                            let p = json!({"textDocument": {"uri": u}});
                            self.request(r, "textDocument/documentSymbol", Some(p), Exp::Outline(v));
                        }
                    }
                }
            }
        }
    }

    /// Every request has exactly one answer, and the right one
    fn audit(&mut self, env: &mut Env) -> Res<()> {
        let total = self.exp.len();
        let count = |l: &Lsp| l.replies.values().map(|v| v.len()).sum::<usize>() + l.stray.len();
        let w = self.l.wait(|l| count(l) >= total);
        if w != Wait::Done {
            let have: Vec<String> = self.answers().keys().cloned().collect();
            let missing: Vec<&String> = self.exp.iter().filter(|e| !have.contains(e.0)).map(|e| &e.1 .1).collect();
            return self.l.fail(w, &format!("requests without an answer: {missing:#?}"));
        }
        self.l.drain()?;
        let answers = self.answers();
        for (id, vs) in &answers {
            let Some((exp, msg)) = self.exp.get(id) else {
                return self.l.violation(format!("an answer to no request: {vs:?}"));
            };
            if vs.len() != 1 {
                return self.l.violation(format!("{} answers to {msg}: {vs:?}", vs.len()));
            }
            env.facts += 1;
            env.count("answers", 1);
            let v = &vs[0];
            let result = v.get("result");
            let error = v.get("error");
            if result.is_some() == error.is_some() {
                return self.l.violation(format!("neither a result nor an error: {v}, request {msg}"));
            }
            let ok = match exp {
                Exp::Result => result.is_some(),
                Exp::Either => true,
                Exp::Nothing => result.is_some_and(|r| r.is_null() || *r == json!([])),
                Exp::Is(want) => result.is_some_and(|r| r == want),
                Exp::Error(code) => error.is_some_and(|e| code.is_none_or(|c| e["code"].as_i64() == Some(c))),
                Exp::Outline(n) => {
                    let m = &self.versions[*n];
                    match result.map(|r| cmp_syms(&syms(m), r, &mut env.facts)) {
                        Some(Ok(())) => true,
                        Some(Err(e)) => return self.l.violation(format!("outline of the canary: {e}, request {msg}")),
                        None => false,
                    }
                }
            };
            if !ok {
                let v: String = v.to_string().chars().take(600).collect();
                return self.l.violation(format!("expected {exp:?}, got {v}, request {msg}"));
            }
        }
        for n in &self.l.notes {
            let m = n["method"].as_str().unwrap_or("");
            if n.get("id").is_some() || !["window/showMessage", "window/logMessage"].contains(&m) {
                return self.l.violation(format!("unexpected message of the server: {n}"));
            }
        }
        // What has been looked at need not be kept, only that it was there
        for id in answers.keys() {
            self.exp.get_mut(id).unwrap().0 = Exp::Either;
        }
        for v in self.l.replies.values_mut().flatten().chain(&mut self.l.stray) {
            if v.get("result").is_some_and(|r| !r.is_null()) {
                *v = json!({"id": v["id"], "result": null});
            }
        }
        let mut last = std::collections::BTreeSet::new();
        let mut odd = None;
        for (u, v) in self.l.published.iter_mut().rev() {
            if let Err(e) = published(v) {
                odd = Some(format!("{u}: {e}"));
            } else if !last.insert(u.clone()) {
                *v = json!([]);
            }
        }
        match odd {
            Some(e) => self.l.violation(e),
            None => Ok(()),
        }
    }

    fn answers(&self) -> BTreeMap<String, Vec<Value>> {
        let mut out: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for v in self.l.replies.values().flatten().chain(&self.l.stray) {
            out.entry(v.get("id").cloned().unwrap_or(Value::Null).to_string()).or_default().push(v.clone());
        }
        out
    }
}

fn first_node_label(m: &FileM) -> Option<usize> {
    fn of(b: &BodyM) -> Option<usize> {
        b.items.iter().find_map(|i| match i {
            ItemM::Node(n) => n.label.as_ref().map(|l| l.tok).or_else(|| of(&n.body)),
            ItemM::Prop(p) => p.label.as_ref().map(|l| l.tok),
            _ => None,
        })
    }
    m.tops.iter().find_map(|t| match t {
        TopM::Root(n) => of(&n.body),
        TopM::RefNode { body, .. } => of(body),
        _ => None,
    })
}

pub fn c16(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C16", case);
    let dir = env.dir("s");
    std::fs::create_dir_all(dir.join("canary")).unwrap();
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let ft = any_type(r);
    let versions: Vec<FileM> = (0..3)
        .map(|_| {
            let cfg = Cfg {
                unresolved: *r.pick(&[0, 10]),
                f_sem: *r.pick(&[0, 10]),
                budget: 60,
                ..Cfg::default()
            };
            let style = Style::random(r);
            single(r, cfg, ft, &style)
        })
        .collect();
    let mut paths: Vec<PathBuf> =
        ["a.dts", "b.dtsi", "c.dtso", "sub/d.dtsi", "e f.dts", "ä.txt"].iter().map(|n| dir.join(n)).collect();
    let deep = dir.join("x/".repeat(r.range(60, 120)));
    if r.chance(20) {
        std::fs::create_dir_all(&deep).unwrap();
        paths.push(deep.join("deep.dts"));
    }
    for p in &paths {
        match r.below(10) {
            0..=4 => std::fs::write(p, any_doc(r).laid.text).unwrap(),
            // cannot be read
            5 | 6 => std::fs::write(p, [b'/', 0xff, 0xfe, b'{', b'}']).unwrap(),
            7 => std::fs::create_dir(p).unwrap(),
            _ => {}
        }
    }
    let l = Lsp::spawn(env, &[], &dir)?;
    let canary = if r.chance(10) {
        // it need not exist
        deep.clone()
    } else {
        dir.join("canary")
    };
    let canary = canary.join(ft.named("canary", r.below(13)));
    let mut s = Session {
        l,
        canary,
        dir: dir.clone(),
        exp: BTreeMap::new(),
        n: 0,
        versions: &versions,
        current: None,
        paths,
        texts: BTreeMap::new(),
    };
    if r.chance(50) {
        s.l.pieces = Some(r.split());
        env.count("sessions with messages in pieces", 1);
    }
    if r.chance(25) {
        env.count("requests before the initialization", 1);
        for _ in 0..r.range(1, 4) {
            let m = r.pick_str(ASK);
            let u = uri(&s.canary);
            let p = json!({"textDocument": {"uri": u}, "position": {"line": 0, "character": 0}});
            s.request(r, m, Some(p), Exp::Error(None));
        }
        s.l.open(&s.canary.clone(), &versions[0].laid.text);
    }
    let opt = settings(r, &s);
    let mut caps = json!({});
    if r.chance(30) {
        caps = json!({"textDocument": {"hover": {"contentFormat": ["markdown"]}}, "general": {"positionEncodings": ["utf-8", "utf-16"]}});
    }
    let init = json!({"processId": 1, "rootUri": uri(&dir), "capabilities": caps, "initializationOptions": opt});
    let id = s.request(r, "initialize", Some(init), Exp::Result);
    let key = id.to_string();
    let w = s.l.wait(|l| l.replies.values().flatten().chain(&l.stray).any(|v| v["id"].to_string() == key));
    if w != Wait::Done {
        return s.l.fail(w, "initialize");
    }
    if r.chance(90) {
        s.l.notify("initialized", json!({}));
    } else {
        s.l.notify("initialized", Value::Null);
        s.l.notify("initialized", json!({}));
    }
    let n = if r.chance(1) {
        r.range(300, 700)
    } else {
        r.range(3, if env.thorough() { 250 } else { 90 })
    };
    let sync = r.chance(25);
    for i in 0..n {
        s.step(env, r);
        if sync && r.chance(20) || n >= 300 && i % 40 == 39 {
            s.audit(env)?;
        }
        if s.l.closed {
            break;
        }
    }
    s.audit(env)?;
    // The server still does what it should
    let m = &versions[2];
    if s.current.is_none() {
        s.l.open(&s.canary.clone(), &m.laid.text);
    } else {
        s.l.change(&s.canary.clone(), 99, &m.laid.text);
    }
    let good = |v: Option<&Value>| v.is_some_and(|v| published(v).is_ok_and(|d| match_diags(m, &d).is_ok()));
    let canary = s.canary.clone();
    match s.l.settle(&canary, good)? {
        Ok(()) => env.facts += 1,
        Err(v) => return s.l.violation(format!("wrong diagnostics in the end: {v}; expected {:?}\n{}", m.expects, m.laid.text)),
    }
    s.current = Some(2);
    let p = json!({"textDocument": {"uri": uri(&canary)}});
    s.request(r, "textDocument/documentSymbol", Some(p), Exp::Outline(2));
    s.audit(env)?;
    env.count("published diagnostics", s.l.published.len() as u64);
    env.count("messages to the user", s.l.notes.len() as u64);
    env.seen(&s.l.log.join("\n"));
    env.sample(|| s.l.log.join("\n"));
    if r.chance(30) {
        // requests after the end
        let p = json!({"textDocument": {"uri": uri(&canary)}});
        s.request(r, "shutdown", None, Exp::Result);
        s.audit(env)?;
        s.request(r, "textDocument/documentSymbol", Some(p), Exp::Error(None));
        s.audit(env)?;
        s.l.notify("exit", Value::Null);
        s.l.flush();
        s.l.close_stdin();
        if !matches!(s.l.wait(|_| false), Wait::Dead(_)) {
            return s.l.violation("the server does not exit");
        }
        env.count("requests after the shutdown", 1);
    } else {
        let code = s.l.shutdown()?;
        if code != Some(0) {
            return s.l.violation(format!("exit code {code:?}"));
        }
    }
    if s.l.stderr().contains("panicked at") {
        let e = s.l.stderr();
        return s.l.violation(format!("panic: {e}"));
    }
    env.remove_dir(&dir);
    Ok(())
}
