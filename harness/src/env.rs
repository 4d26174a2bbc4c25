//! What a check has at hand: counters, scratch space, binaries, verdicts.
use std::os::unix::fs::FileExt;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

pub struct Viol {
    pub msg: String,
    pub files: Vec<(String, Vec<u8>)>,
}

pub enum Fail {
    /// The property does not hold
    Viol(Viol),
    /// No verdict
    Inconclusive(String),
}

pub type Res<T> = Result<T, Fail>;

pub fn viol<T>(msg: impl Into<String>, files: Vec<(String, Vec<u8>)>) -> Res<T> {
    Err(Fail::Viol(Viol { msg: msg.into(), files }))
}

pub fn viol_text<T>(msg: impl Into<String>, name: &str, text: &str) -> Res<T> {
    viol(msg, vec![(name.to_string(), text.as_bytes().to_vec())])
}

pub struct Env {
    pub tier: String,
    pub seed: u64,
    pub scratch: PathBuf,
    pub bin: PathBuf,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub facts: u64,
    pub verbose: bool,
    pub known: Vec<String>,
    next_dir: usize,
}

impl Env {
    pub fn new(tier: &str, seed: u64, scratch: PathBuf, bin: PathBuf) -> Env {
        Env {
            tier: tier.to_string(),
            seed,
            scratch,
            bin,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            facts: 0,
            verbose: false,
            known: vec![],
            next_dir: 0,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    pub fn count(&mut self, what: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(what.to_string()).or_default() += n;
        }
    }

    /// Records an observed case
    pub fn seen(&mut self, text: &str) {
        self.distinct.insert(crate::rng::hash_str(text));
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut t = s();
            if t.len() > 1500 {
                let mut n = 1500;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t.push_str("...");
            }
            self.samples.push(t);
        }
    }

    /// A new directory for the files of a case
    pub fn dir(&mut self, name: &str) -> PathBuf {
        self.next_dir += 1;
        let d = self.scratch.join(format!("{}{}", name, self.next_dir));
        std::fs::create_dir_all(&d).expect("cannot create directory");
        std::fs::canonicalize(d).unwrap()
    }

    pub fn remove_dir(&mut self, d: &std::path::Path) {
        assert!(d.starts_with(&self.scratch));
        let _ = std::fs::remove_dir_all(d);
    }
}

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let ours = info.location().is_some_and(|l| l.file().starts_with("src/"));
        if ours && info.to_string().contains("Os { code") {
            // The system fails, not the code under test
            eprintln!("harness: {info}");
            std::process::exit(3);
        }
        if IN_SUT.with(|c| c.get()) {
            LAST_PANIC.with(|l| *l.borrow_mut() = format!("{info}"));
        } else {
            eprintln!("harness: {info}");
        }
    }));
}

/// The file that tells the supervisor which case is running, and whether it is the code under
/// test (S) or the harness (H) that runs.
pub static CURRENT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

fn mark(what: &[u8]) {
    if let Some(f) = CURRENT.get() {
        let _ = f.write_at(what, 20);
    }
}

pub fn mark_case(case: u64) {
    if let Some(f) = CURRENT.get() {
        let _ = f.write_at(format!("{case:020}H").as_bytes(), 0);
    }
}

/// Runs code under test. A panic is a fact about that code, not about the harness.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|c| c.set(true));
    mark(b"S");
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    mark(b"H");
    IN_SUT.with(|c| c.set(false));
    res.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}
