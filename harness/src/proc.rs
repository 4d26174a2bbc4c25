//! Running the real binaries: command line tool and language server.
use crate::env::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

fn limits(cmd: &mut Command, cpu: Option<u64>) {
    unsafe {
        cmd.pre_exec(move || {
            if let Some(s) = cpu {
                let r = libc::rlimit {
                    rlim_cur: s,
                    rlim_max: s,
                };
                libc::setrlimit(libc::RLIMIT_CPU, &r);
            }
            let r = libc::rlimit {
                rlim_cur: 8 << 30,
                rlim_max: 8 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            let r = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

#[derive(Debug, Clone)]
pub struct CliOut {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
}

impl CliOut {
    pub fn died(&self) -> bool {
        self.signal.is_some() || self.err.contains("panicked at")
    }
}

/// Runs the real command line tool.
pub fn cli(env: &Env, args: &[String], cwd: &Path) -> Res<CliOut> {
    let mut cmd = Command::new(env.bin.join("ginko"));
    cmd.args(args)
        .current_dir(cwd)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .env_remove("RUST_BACKTRACE");
    limits(&mut cmd, Some(60));
    let out = cmd.output().map_err(|e| Fail::Inconclusive(format!("cannot run ginko: {e}")))?;
    if out.status.signal() == Some(libc::SIGKILL) && out.stderr.is_empty() {
        // RLIMIT_CPU (soft = hard) also ends with SIGKILL; told apart by the caller through cpu time
        let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
        unsafe { libc::getrusage(libc::RUSAGE_CHILDREN, &mut ru) };
        if (ru.ru_utime.tv_sec) < 50 {
            return Err(Fail::Inconclusive("ginko was killed".to_string()));
        }
    }
    Ok(CliOut {
        code: out.status.code(),
        signal: out.status.signal(),
        out: String::from_utf8_lossy(&out.stdout).to_string(),
        err: String::from_utf8_lossy(&out.stderr).to_string(),
    })
}

pub fn uri(path: &Path) -> String {
    let mut s = "file://".to_string();
    for b in path.to_str().unwrap().bytes() {
        if b.is_ascii_alphanumeric() || b"-._~/".contains(&b) {
            s.push(b as char);
        } else {
            s.push_str(&format!("%{b:02X}"));
        }
    }
    s
}

pub fn uri_path(uri: &str) -> Option<PathBuf> {
    let rest = uri.strip_prefix("file://")?;
    let mut out = vec![];
    let b = rest.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            out.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).ok()?, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Some(PathBuf::from(String::from_utf8(out).ok()?))
}

/// A running language server and everything that it said.
pub struct Lsp {
    child: Child,
    stdin: Option<std::process::ChildStdin>,
    rx: Receiver<Value>,
    next_id: i64,
    stderr: PathBuf,
    /// replies by id
    pub replies: BTreeMap<i64, Vec<Value>>,
    /// replies and requests that could not be assigned
    pub stray: Vec<Value>,
    /// published diagnostics in order: (uri, diagnostics)
    pub published: Vec<(String, Value)>,
    pub notes: Vec<Value>,
    pub closed: bool,
    pub log: Vec<String>,
    pub sent: usize,
    /// messages are handed over in pieces
    pub pieces: Option<crate::rng::Rng>,
    held: Vec<u8>,
}

#[derive(Debug, PartialEq)]
pub enum Wait {
    Done,
    /// The server has nothing more to do, but what was waited for has not happened
    Quiet,
    Dead(String),
    Spinning,
    Timeout,
}

fn cpu_and_idle(pid: u32) -> Option<(u64, bool)> {
    let mut ticks = 0;
    let mut idle = true;
    for e in std::fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let Ok(e) = e else { continue };
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else {
            continue;
        };
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        if f[0] != "S" {
            idle = false;
        }
        ticks += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    }
    Some((ticks, idle))
}

impl Lsp {
    pub fn spawn(env: &Env, args: &[String], cwd: &Path) -> Res<Lsp> {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let stderr = env.scratch.join(format!("lsp-stderr-{}", N.fetch_add(1, Ordering::Relaxed)));
        let err = std::fs::File::create(&stderr).expect("stderr file");
        let mut cmd = Command::new(env.bin.join("ginko_ls"));
        cmd.args(args)
            .current_dir(cwd)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(err)
            .env_remove("RUST_BACKTRACE")
            .env_remove("RUST_LOG");
        if env.bin.join("tsan").exists() {
            cmd.env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66");
        } else {
            limits(&mut cmd, None);
        }
        let mut child = cmd.spawn().map_err(|e| Fail::Inconclusive(format!("cannot run ginko_ls: {e}")))?;
        let (tx, rx) = channel();
        let stdout = child.stdout.take().unwrap();
        std::thread::spawn(move || {
            let mut r = BufReader::new(stdout);
            loop {
                let mut len = None;
                loop {
                    let mut line = String::new();
                    match r.read_line(&mut line) {
                        Ok(0) | Err(_) => return,
                        Ok(_) => {}
                    }
                    let line = line.trim_end();
                    if line.is_empty() {
                        break;
                    }
                    if let Some(n) = line.strip_prefix("Content-Length: ") {
                        len = n.parse::<usize>().ok();
                    }
                }
                let Some(len) = len else {
                    let _ = tx.send(json!({"gv-garbage": true}));
                    return;
                };
                let mut buf = vec![0; len];
                if r.read_exact(&mut buf).is_err() {
                    return;
                }
                let mut de = serde_json::Deserializer::from_slice(&buf);
                de.disable_recursion_limit();
                let v: Value = match serde::de::Deserialize::deserialize(&mut de) {
                    Ok(v) => v,
                    Err(_) => json!({"gv-garbage": String::from_utf8_lossy(&buf)}),
                };
                if tx.send(v).is_err() {
                    return;
                }
            }
        });
        let stdin = child.stdin.take();
        Ok(Lsp {
            child,
            stdin,
            rx,
            next_id: 1,
            stderr,
            replies: BTreeMap::new(),
            stray: vec![],
            published: vec![],
            notes: vec![],
            closed: false,
            log: vec![],
            sent: 0,
            pieces: None,
            held: vec![],
        })
    }

    pub fn start(env: &Env, args: &[String], cwd: &Path, options: Value) -> Res<Lsp> {
        let mut l = Lsp::spawn(env, args, cwd)?;
        let id = l.request(
            "initialize",
            json!({"processId": null, "rootUri": null, "capabilities": {}, "initializationOptions": options}),
        );
        l.must_reply(id)?;
        l.notify("initialized", json!({}));
        Ok(l)
    }

    pub fn raw(&mut self, v: &Value) {
        let body = v.to_string();
        if self.log.len() < 4000 {
            let mut b = body.clone();
            if b.len() > 20000 {
                let mut n = 20000;
                while !b.is_char_boundary(n) {
                    n -= 1;
                }
                b.truncate(n);
            }
            self.log.push(b);
        }
        self.sent += 1;
        let msg = format!("Content-Length: {}\r\n\r\n{}", body.len(), body);
        self.held.extend(msg.as_bytes());
        match &mut self.pieces {
            None => self.flush(),
            Some(r) => {
                if !r.chance(40) {
                    let n = if r.chance(30) { self.held.len() } else { r.below(self.held.len() + 1) };
                    let rest = self.held.split_off(n);
                    self.flush();
                    self.held = rest;
                }
            }
        }
        // keep the pipe drained
        while let Ok(v) = self.rx.try_recv() {
            self.take(v);
        }
    }

    /// Hands over everything that is still held back
    pub fn flush(&mut self) {
        if let Some(s) = &mut self.stdin {
            if s.write_all(&self.held).and_then(|_| s.flush()).is_err() {
                self.closed = true;
            }
        }
        self.held.clear();
    }

    pub fn notify(&mut self, method: &str, params: Value) {
        self.raw(&json!({"jsonrpc": "2.0", "method": method, "params": params}));
    }

    pub fn request(&mut self, method: &str, params: Value) -> i64 {
        let id = self.next_id;
        self.next_id += 1;
        let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        self.raw(&m);
        id
    }

    pub fn open(&mut self, path: &Path, text: &str) {
        self.open_uri(&uri(path), text);
    }

    pub fn open_version(&mut self, path: &Path, version: i64, text: &str) {
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri(path), "languageId": "dts", "version": version, "text": text}}),
        );
    }

    pub fn open_uri(&mut self, uri: &str, text: &str) {
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "dts", "version": 1, "text": text}}),
        );
    }

    pub fn change(&mut self, path: &Path, version: i64, text: &str) {
        self.notify(
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri(path), "version": version}, "contentChanges": [{"text": text}]}),
        );
    }

    pub fn close(&mut self, path: &Path) {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri(path)}}));
    }

    pub fn configure(&mut self, settings: Value) {
        self.notify("workspace/didChangeConfiguration", json!({"settings": settings}));
    }

    pub fn at(&mut self, method: &str, path: &Path, line: u32, col: u32) -> i64 {
        self.request(
            method,
            json!({"textDocument": {"uri": uri(path)}, "position": {"line": line, "character": col}}),
        )
    }

    pub fn symbols(&mut self, path: &Path) -> i64 {
        self.request("textDocument/documentSymbol", json!({"textDocument": {"uri": uri(path)}}))
    }

    fn take(&mut self, v: Value) {
        if v.get("method").and_then(|m| m.as_str()) == Some("textDocument/publishDiagnostics") {
            let uri = v["params"]["uri"].as_str().unwrap_or("").to_string();
            self.published.push((uri, v["params"]["diagnostics"].clone()));
        } else if v.get("method").is_some() {
            self.notes.push(v);
        } else if let Some(id) = v.get("id").and_then(|i| i.as_i64()) {
            self.replies.entry(id).or_default().push(v);
        } else {
            self.stray.push(v);
        }
    }

    pub fn stderr(&self) -> String {
        std::fs::read_to_string(&self.stderr).unwrap_or_default()
    }

    /// Reads until `done`. Decides by what the server does, not by how long it takes.
    pub fn wait(&mut self, mut done: impl FnMut(&Lsp) -> bool) -> Wait {
        self.flush();
        let begin = Instant::now();
        let cpu0 = cpu_and_idle(self.child.id()).map(|c| c.0);
        let mut quiet_since = Instant::now();
        let mut quiet_cpu = None;
        loop {
            if done(self) {
                return Wait::Done;
            }
            match self.rx.recv_timeout(Duration::from_millis(20)) {
                Ok(v) => {
                    self.take(v);
                    quiet_cpu = None;
                    continue;
                }
                Err(RecvTimeoutError::Timeout) => {}
                Err(RecvTimeoutError::Disconnected) => {
                    // closed its output
                    let err = self.stderr();
                    let status = self.child.wait();
                    self.closed = true;
                    return Wait::Dead(format!("{status:?} {err}"));
                }
            }
            let Some((cpu, idle)) = cpu_and_idle(self.child.id()) else {
                continue;
            };
            if !idle || quiet_cpu != Some(cpu) {
                quiet_cpu = Some(cpu);
                quiet_since = Instant::now();
            }
            // A panic of a handler leaves the server running, but it does not serve any longer
            if quiet_since.elapsed() > Duration::from_millis(150) {
                let err = self.stderr();
                if err.contains("panicked at") {
                    return Wait::Dead(err);
                }
            }
            if quiet_since.elapsed() > Duration::from_millis(4000) {
                return Wait::Quiet;
            }
            if let Some(c0) = cpu0 {
                if cpu.saturating_sub(c0) > 60 * 100 {
                    return Wait::Spinning;
                }
            }
            if begin.elapsed() > Duration::from_secs(300) {
                return Wait::Timeout;
            }
        }
    }

    pub fn fail<T>(&self, w: Wait, what: &str) -> Res<T> {
        let files = vec![("messages.jsonl".to_string(), self.log.join("\n").into_bytes())];
        match w {
            Wait::Done => unreachable!(),
            Wait::Quiet => viol(format!("{what}: the server is idle"), files),
            Wait::Dead(err) => viol(format!("{what}: the server died: {err}"), files),
            Wait::Spinning => viol(format!("{what}: the server does not finish (more than 60s of cpu time)"), files),
            Wait::Timeout => Err(Fail::Inconclusive(format!("{what}: timeout"))),
        }
    }

    pub fn violation<T>(&self, msg: impl Into<String>) -> Res<T> {
        viol(msg, vec![("messages.jsonl".to_string(), self.log.join("\n").into_bytes())])
    }

    pub fn must_reply(&mut self, id: i64) -> Res<Value> {
        match self.wait(|l| l.replies.contains_key(&id)) {
            Wait::Done => Ok(self.replies[&id][0].clone()),
            w => self.fail(w, &format!("no reply to request {id}")),
        }
    }

    /// The result of a request
    pub fn result(&mut self, id: i64) -> Res<Value> {
        let v = self.must_reply(id)?;
        match v.get("result") {
            Some(r) => Ok(r.clone()),
            None => self.violation(format!("request {id} failed: {v}")),
        }
    }

    /// The last published diagnostics of a file
    pub fn last(&self, path: &Path) -> Option<&Value> {
        self.published
            .iter()
            .rev()
            .find(|(u, _)| uri_path(u).as_deref() == Some(path))
            .map(|p| &p.1)
    }

    /// Waits until the last published diagnostics of a file satisfy the condition. Err: the last ones.
    pub fn settle(&mut self, path: &Path, cond: impl Fn(Option<&Value>) -> bool) -> Res<Result<(), Value>> {
        match self.wait(|l| cond(l.last(path))) {
            Wait::Done => Ok(Ok(())),
            Wait::Quiet => Ok(Err(self.last(path).cloned().unwrap_or(Value::Null))),
            w => self.fail(w, "waiting for diagnostics"),
        }
    }

    /// Takes everything that the server has to say: until it is idle and has been for a moment
    pub fn drain(&mut self) -> Res<()> {
        self.flush();
        let begin = Instant::now();
        let mut still = 0;
        let mut cpu = None;
        loop {
            match self.rx.recv_timeout(Duration::from_millis(5)) {
                Ok(v) => {
                    self.take(v);
                    still = 0;
                    continue;
                }
                Err(RecvTimeoutError::Timeout) => {}
                Err(RecvTimeoutError::Disconnected) => {
                    let w = Wait::Dead(self.stderr());
                    return self.fail(w, "unexpected end");
                }
            }
            match cpu_and_idle(self.child.id()) {
                Some((c, true)) if cpu == Some(c) => still += 1,
                Some((c, _)) => {
                    cpu = Some(c);
                    still = 0;
                }
                None => {}
            }
            if still >= 6 {
                return Ok(());
            }
            if begin.elapsed() > Duration::from_secs(240) {
                return self.fail(Wait::Timeout, "drain");
            }
        }
    }

    pub fn close_stdin(&mut self) {
        self.stdin = None;
    }

    /// Orderly end. Returns the exit code.
    pub fn shutdown(&mut self) -> Res<Option<i32>> {
        let id = self.request("shutdown", Value::Null);
        self.must_reply(id)?;
        self.notify("exit", Value::Null);
        self.flush();
        self.stdin = None;
        match self.wait(|_| false) {
            Wait::Dead(_) => {
                let st = self.child.wait().ok();
                let said = self.stderr();
                if said.contains("WARNING: ThreadSanitizer") {
                    return self.violation(format!("a report of the thread sanitizer:\n{said}"));
                }
                Ok(st.and_then(|s| s.code()))
            }
            Wait::Quiet => self.violation("the server does not exit"),
            w => self.fail(w, "exit"),
        }
    }
}

impl Drop for Lsp {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.stderr);
    }
}
