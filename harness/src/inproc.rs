//! Observes the real parser and analyser in this process.
use crate::model::*;
use crate::toks::Pos;
use ginko::dts::{FileType, HasSpan, Project, Severity, SeverityMap, Span};
use std::path::{Path, PathBuf};

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct D {
    pub code: String,
    pub start: Pos,
    pub end: Pos,
    pub sev: &'static str,
    pub msg: String,
}

impl std::fmt::Display for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} [{}] {}-{}: {}", self.sev, self.code, self.start, self.end, self.msg)
    }
}

pub fn pos(p: ginko::dts::Position) -> Pos {
    Pos::new(p.line(), p.character())
}

pub fn span(s: Span) -> (Pos, Pos) {
    (pos(s.start()), pos(s.end()))
}

pub fn file_type(ft: Ft) -> FileType {
    match ft {
        Ft::Dts => FileType::DtSource,
        Ft::Dtsi => FileType::DtSourceInclude,
        Ft::Dtso | Ft::Overlay => FileType::DtSourceOverlay,
        Ft::Other => FileType::Unknown,
    }
}

pub fn diags(project: &Project, path: &Path) -> Vec<D> {
    let map = SeverityMap::default();
    let mut v: Vec<D> = project
        .get_diagnostics(path)
        .map(|d| D {
            code: d.kind().as_ref().to_string(),
            start: pos(d.span().start()),
            end: pos(d.span().end()),
            sev: match d.severity(&map) {
                Severity::Error => "error",
                Severity::Warning => "warning",
                Severity::Hint => "hint",
            },
            msg: d.message.clone(),
        })
        .collect();
    v.sort();
    v
}

pub fn doc_path(ft: Ft, n: usize) -> PathBuf {
    PathBuf::from("/nonexistent-gv").join(ft.named("doc", n))
}

/// Analyses a single text
pub fn analyze(text: &str, ft: Ft) -> (Project, PathBuf) {
    let mut project = Project::default();
    let path = doc_path(ft, text.len());
    project.add_file_with_text(path.clone(), text.to_string(), FileType::from(path.as_path()));
    (project, path)
}

/// Compares reported with expected diagnostics: exactly the expected ones, each at its position.
pub fn match_diags(m: &FileM, got: &[D]) -> Result<usize, String> {
    let mut used = vec![false; got.len()];
    let mut missing = vec![];
    for e in &m.expects {
        let found = got.iter().enumerate().position(|(i, d)| {
            !used[i]
                && d.code == e.code
                && m.span_ok(e.at, (d.start, d.end))
                && (d.sev == "warning") == is_warning(e.code)
                && e.msg.as_ref().is_none_or(|msg| *msg == d.msg)
        });
        match found {
            Some(i) => used[i] = true,
            None => {
                let (a, b) = m.at(e.at);
                missing.push(format!("missing: [{}] {a}-{b} {:?} {}", e.code, e.at, e.msg.as_deref().unwrap_or("")));
            }
        }
    }
    let surplus: Vec<String> = got
        .iter()
        .zip(&used)
        .filter(|(_, u)| !**u)
        .map(|(d, _)| format!("unexpected: {d}"))
        .collect();
    if missing.is_empty() && surplus.is_empty() {
        Ok(m.expects.len())
    } else {
        missing.extend(surplus);
        Err(missing.join("\n"))
    }
}

/// Compares the syntax tree with the model. Returns the number of compared facts.
#[cfg(not(feature = "ast"))]
pub fn compare(_: &FileM, project: &Project, path: &Path, _: bool) -> Result<usize, String> {
    match project.get_root(path) {
        Some(_) => Ok(0),
        None => Err("the file could not be parsed".to_string()),
    }
}

#[cfg(feature = "ast")]
pub use crate::astcmp::compare;
