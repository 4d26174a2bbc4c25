use crate::env::*;

mod files;
mod history;
mod lang;
mod protocol;
mod server;
mod syntax;
mod tools;
mod total;

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Env, u64) -> Res<()>,
    /// number of cases, seconds
    pub quick: (u64, u64),
    pub thorough: (u64, u64),
    pub max_jobs: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const CHECKS: &[Check] = &[
    Check {
        id: "C01",
        run: total::c01,
        quick: (40000, 60),
        thorough: (3000000, 420),
        max_jobs: 64,
        rule: "distinct texts (hash) that the parser, analyser, printers and position queries were driven with; every one is hostile: random bytes, characters, lexemes, deep repetition, mutated or truncated documents",
        assumptions: &["a case that needs more than 60 s of cpu time counts as endless (normal: below 0.1 s)", "texts of at most 60 kB (quick) and include chains below 200 files"],
    },
    Check {
        id: "C02",
        run: lang::c02,
        quick: (120000, 60),
        thorough: (10000000, 420),
        max_jobs: 64,
        rule: "distinct generated documents (hash of the text) for which all diagnostics were compared with the model (none)",
        assumptions: &["the grammar of the generator: devicetree source as specified, without preprocessor directives, /incbin/, and the constructs listed as unspecified in DESIGN.md"],
    },
    Check {
        id: "C03",
        run: lang::c03,
        quick: (120000, 60),
        thorough: (10000000, 420),
        max_jobs: 64,
        rule: "distinct generated documents (hash of the text) whose complete syntax tree was compared with the model that they were generated from; facts = compared names, values, labels, references and counts",
        assumptions: &["contents of arithmetic expressions are not part of the syntax tree"],
    },
    Check {
        id: "C04",
        run: lang::c04,
        quick: (150000, 60),
        thorough: (15000000, 420),
        max_jobs: 64,
        rule: "distinct documents (hash of the text) whose reported positions (syntax tree and diagnostics) were compared with the positions that the layouter recorded, or (every third case) hostile texts whose diagnostics must lie within the text",
        assumptions: &["a lone carriage return is not a line end (excluded)"],
    },
    Check {
        id: "C05",
        run: syntax::c05,
        quick: (600000, 60),
        thorough: (40000000, 420),
        max_jobs: 64,
        rule: "distinct mutated token sequences (hash of the text) that were judged by an independent recogniser and by the parser",
        assumptions: &["the recogniser abstains where the language is not specified (listed in DESIGN.md); such texts are counted but not judged"],
    },
    Check {
        id: "C06",
        run: lang::c06,
        quick: (150000, 60),
        thorough: (12000000, 420),
        max_jobs: 64,
        rule: "distinct documents (hash of the text) with at least one dropped semicolon, whose diagnostics and syntax tree were compared with the model",
        assumptions: &["semicolons that are followed by something that starts with a letter or a closing brace"],
    },
    Check {
        id: "C07",
        run: lang::c07,
        quick: (150000, 60),
        thorough: (12000000, 420),
        max_jobs: 64,
        rule: "distinct documents (hash of the text) with generated names, legal and illegal, whose diagnostics were compared with the naming rules",
        assumptions: &["names that start with a digit are excluded"],
    },
    Check {
        id: "C08",
        run: lang::c08,
        quick: (150000, 60),
        thorough: (12000000, 420),
        max_jobs: 64,
        rule: "distinct documents (hash of the text) with generated numbers and byte strings, whose values and diagnostics were compared with big-integer arithmetic of the model",
        assumptions: &["no character literals"],
    },
    Check {
        id: "C09",
        run: lang::c09,
        quick: (150000, 60),
        thorough: (12000000, 420),
        max_jobs: 64,
        rule: "distinct documents (hash of the text) with file-level and semantic faults, whose diagnostics were compared with the model",
        assumptions: &[],
    },
    Check {
        id: "C10",
        run: files::c10,
        quick: (30000, 60),
        thorough: (3000000, 420),
        max_jobs: 64,
        rule: "distinct file texts that took part in include graphs on disk; files of the project, target of every include and all diagnostics were compared with the model",
        assumptions: &["files are not modified by others while they are read"],
    },
    Check {
        id: "C11",
        run: files::c11,
        quick: (60000, 60),
        thorough: (3000000, 420),
        max_jobs: 64,
        rule: "distinct include graphs (adjacency lists) on disk; cyclic or not was decided by peeling leaves, and compared with what was reported",
        assumptions: &["which include of a cycle carries the error is not specified"],
    },
    Check {
        id: "C12",
        run: files::c12,
        quick: (30000, 60),
        thorough: (3000000, 420),
        max_jobs: 64,
        rule: "distinct file texts; every reference in every file was resolved and compared with the set of declarations that the model allows",
        assumptions: &["children of nodes that are only known by an unresolved label are excluded", "see known-findings.txt"],
    },
    Check {
        id: "C13",
        run: server::c13,
        quick: (2500, 60),
        thorough: (300000, 420),
        max_jobs: 64,
        rule: "distinct texts of which the real language server delivered the outline, that was compared with the model (or with structural invariants for hostile texts)",
        assumptions: &[],
    },
    Check {
        id: "C14",
        run: server::c14,
        quick: (1200, 60),
        thorough: (300000, 420),
        max_jobs: 64,
        rule: "distinct texts for which hover and definition of the real language server were asked at every character (up to 300 positions per file, 900 in the thorough tier) and compared with the model",
        assumptions: &[],
    },
    Check {
        id: "C15",
        run: history::c15,
        quick: (30000, 60),
        thorough: (3000000, 420),
        max_jobs: 64,
        rule: "distinct histories (hash of all steps with their texts); after a random step and at the end everything that can be observed was compared with a project without history, and finally with the model",
        assumptions: &["files in a circle of includes are compared by syntax tree only", "files on disk only change by saving"],
    },
    Check {
        id: "C16",
        run: protocol::c16,
        quick: (700, 60),
        thorough: (200000, 420),
        max_jobs: 64,
        rule: "distinct message sequences (hash of all messages) sent to the real language server; every request's answers were counted and checked",
        assumptions: &["messages are valid JSON-RPC with unique ids; methods that start with $/ are left to the framework", "idle for 4 s with all threads asleep and no cpu use counts as 'will never answer'"],
    },
    Check {
        id: "C17",
        run: history::c17,
        quick: (1200, 60),
        thorough: (200000, 420),
        max_jobs: 64,
        rule: "distinct histories (hash of all steps with their texts) that the real language server went through; every published list of diagnostics was matched with a state of the history",
        assumptions: &["histories without circles of includes", "idle for 4 s with all threads asleep and no cpu use counts as 'will never publish'"],
    },
    Check {
        id: "C18",
        run: tools::c18,
        quick: (25000, 60),
        thorough: (2000000, 420),
        max_jobs: 64,
        rule: "distinct file texts that the real command line tool was run on; its whole output, exit status and every marked line were compared with the model",
        assumptions: &[],
    },
    Check {
        id: "C19",
        run: tools::c19,
        quick: (1500, 60),
        thorough: (1000000, 420),
        max_jobs: 64,
        rule: "distinct sets of observations; the same input was analysed 4 (thorough: 6) times in one process, by as many runs of the command line tool, and by two sessions of the language server",
        assumptions: &["hash seeds differ between repetitions because the standard library draws them at random"],
    },
    Check {
        id: "C20",
        run: tools::c20,
        quick: (3000, 60),
        thorough: (300000, 420),
        max_jobs: 64,
        rule: "distinct sets of files; what the real command line tool printed was compared with what the real language server published last",
        assumptions: &[],
    },
    Check {
        id: "C21",
        run: lang::c21,
        quick: (100000, 60),
        thorough: (12000000, 420),
        max_jobs: 64,
        rule: "distinct documents (hash of the text); the syntax tree was printed, and what was printed was parsed again and compared with the model of the document",
        assumptions: &[],
    },
];
