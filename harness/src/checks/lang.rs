//! Checks of a single document against its model.
use crate::env::*;
use crate::gen::*;
use crate::inproc::*;
use crate::model::*;
use crate::rng::Rng;
use crate::toks::*;
use super::files::{check_diags, load, with_world};
use super::syntax::{SYNTAX_CODES, VOCABULARY};
use crate::world::*;

pub fn record(env: &mut Env, m: &FileM) {
    env.seen(&m.laid.text);
    for (k, v) in &m.stats {
        env.count(k, *v);
    }
    env.count("bytes", m.laid.text.len() as u64);
    env.count("tokens", m.toks.len() as u64);
    env.count("comments", m.laid.comments as u64);
    env.count("references", m.refs.len() as u64);
    if m.laid.nonascii {
        env.count("documents with non-ASCII characters", 1);
    }
    if m.laid.text.contains("\r\n") {
        env.count("documents with CRLF", 1);
    }
    env.count(
        match m.ft {
            Ft::Dts => "dts documents",
            Ft::Dtsi => "dtsi documents",
            Ft::Dtso => "dtso documents",
            Ft::Overlay => "overlay documents",
            Ft::Other => "other documents",
        },
        1,
    );
    for e in &m.expects {
        env.count(&format!("expected {}", e.code), 1);
    }
}

fn name(m: &FileM) -> String {
    format!("doc.{}", m.ft.ext())
}

/// Parses, compares diagnostics and (optionally) the syntax tree
pub fn verify(env: &mut Env, m: &FileM, ast: bool, spans: bool) -> Res<()> {
    let text = m.laid.text.clone();
    let out = sut(|| {
        let (p, path) = analyze(&text, m.ft);
        let d = diags(&p, &path);
        (p, path, d)
    });
    let (p, path, got) = match out {
        Ok(x) => x,
        Err(panic) => return viol_text(format!("crash: {panic}"), &name(m), &m.laid.text),
    };
    match match_diags(m, &got) {
        Ok(n) => env.facts += n as u64 + 1,
        Err(e) => return viol_text(format!("diagnostics differ:\n{e}"), &name(m), &m.laid.text),
    }
    if ast {
        match sut(|| compare(m, &p, &path, spans)) {
            Err(panic) => return viol_text(format!("crash: {panic}"), &name(m), &m.laid.text),
            Ok(Ok(n)) => env.facts += n as u64,
            Ok(Err(e)) => return viol_text(format!("syntax tree differs: {e}"), &name(m), &m.laid.text),
        }
    }
    record(env, m);
    env.sample(|| m.laid.text.clone());
    Ok(())
}

/// Whatever follows: what is wrong before is reported, and nothing else
fn cut_off(env: &mut Env, r: &mut Rng, m: &FileM) -> Res<()> {
    if m.toks.len() < 4 {
        return Ok(());
    }
    let k = r.range(3, m.toks.len());
    let mut text = m.laid.text[..m.laid.b[k - 1].1].to_string();
    text.push_str(r.pick_str(&[" ", "\n", "\t", " /* */ "]));
    for _ in 0..r.below(4) {
        text.push_str(r.pick_str(VOCABULARY));
        text.push_str(r.pick_str(&[" ", " ", "\n", ""]));
    }
    let got = match sut(|| {
        let (p, path) = analyze(&text, m.ft);
        diags(&p, &path)
    }) {
        Ok(x) => x,
        Err(panic) => return viol_text(format!("crash: {panic}"), &name(m), &text),
    };
    let syntax = |code: &str| code == "name_too_long" || SYNTAX_CODES.contains(&code);
    // The last token may be understood in another way
    let sure = |e: &Expect| {
        syntax(e.code)
            && match e.at {
                At::Toks(a, b) if e.code == "incorrect_directive" => (a.max(b) + 1..k - 1).any(|j| m.toks[j].s == ";"),
                At::Toks(a, b) => a.max(b) < k - 1,
                At::Char(t, _) | At::After(t) => t < k - 1,
                At::Origin => false,
            }
    };
    let hit = |e: &Expect, d: &D| {
        e.code == d.code && m.span_ok(e.at, (d.start, d.end)) && e.msg.as_ref().is_none_or(|msg| *msg == d.msg)
    };
    for e in m.expects.iter().filter(|e| sure(e)) {
        env.facts += 1;
        env.count("faults before a syntax error", 1);
        let want = m.expects.iter().filter(|x| x.code == e.code && x.at == e.at).count();
        let have = got.iter().filter(|d| hit(e, d)).count();
        if want != have {
            let (a, b) = m.at(e.at);
            return viol_text(format!("[{}] {a}-{b} is reported {have} times if something else follows: {got:?}", e.code), &name(m), &text);
        }
    }
    let limit = m.laid.end(k - 2);
    // These depend on what a statement turns out to be
    let statement = |d: &D| ["property_after_node", "incorrect_directive"].contains(&d.code.as_str());
    for d in got.iter().filter(|d| d.start < limit && syntax(&d.code) && !statement(d)) {
        env.facts += 1;
        if !m.expects.iter().any(|e| hit(e, d)) {
            return viol_text(format!("reported because of what follows {limit}: {d}"), &name(m), &text);
        }
    }
    env.count("documents cut off or continued with something else", 1);
    env.seen(&text);
    Ok(())
}

pub fn any_type(r: &mut Rng) -> Ft {
    *r.pick(&[Ft::Dts, Ft::Dts, Ft::Dts, Ft::Dtsi, Ft::Dtsi, Ft::Dtso, Ft::Overlay, Ft::Other])
}

pub fn sized(r: &mut Rng, mut c: Cfg) -> Cfg {
    match r.below(20) {
        0 => {
            c.max_tops = 20;
            c.max_items = 12;
            c.max_depth = 5;
            c.budget = 3000;
        }
        1 => {
            c.max_depth = 40;
            c.max_items = 3;
            c.budget = 1500;
        }
        2..=6 => {
            c.max_tops = 2;
            c.max_items = 3;
            c.max_depth = 2;
        }
        _ => {}
    }
    c
}

pub fn c02(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C02", case);
    let ft = any_type(r);
    let mut cfg = sized(r, Cfg::default());
    cfg.header = ft == Ft::Dts || r.chance(60);
    cfg.plugin = r.chance(15);
    let style = Style::random(r);
    let m = single(r, cfg, ft, &style);
    assert!(m.expects.is_empty());
    verify(env, &m, false, false)?;
    // The meaning does not depend on the layout
    let mut style = Style::random(r);
    if r.chance(25) {
        style.cr = true;
        style.shape = Shape::Wild;
        style.comments = style.comments.max(10);
        env.count("documents with carriage returns on their own", 1);
    }
    let mut m2 = m.clone();
    m2.laid = layout(&m.toks, &style, r);
    m2.stats.clear();
    verify(env, &m2, false, false)
}

pub fn c03(env: &mut Env, case: u64) -> Res<()> {
    if cfg!(not(feature = "ast")) {
        return Err(Fail::Inconclusive("the syntax tree cannot be seen".to_string()));
    }
    let r = &mut Rng::of(env.seed, "C03", case);
    let ft = any_type(r);
    let mut cfg = sized(r, Cfg::default());
    cfg.header = ft == Ft::Dts || r.chance(60);
    cfg.plugin = r.chance(15);
    let style = Style::random(r);
    let m = single(r, cfg, ft, &style);
    verify(env, &m, true, true)
}

pub fn c06(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C06", case);
    let ft = any_type(r);
    let mut cfg = sized(r, Cfg::default());
    cfg.tame = true;
    cfg.f_semi = *r.pick(&[2, 10, 40, 100]);
    let style = Style::random(r);
    let m = single(r, cfg, ft, &style);
    verify(env, &m, true, true)?;
    cut_off(env, r, &m)
}

pub fn c07(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C07", case);
    let mut cfg = sized(r, Cfg::default());
    cfg.f_name = *r.pick(&[5, 20, 60]);
    cfg.header = r.chance(60);
    let style = Style::random(r);
    let ft = *r.pick(&[Ft::Dtsi, Ft::Dtsi, Ft::Dtso, Ft::Overlay, Ft::Other]);
    let m = single(r, cfg, ft, &style);
    verify(env, &m, false, false)?;
    cut_off(env, r, &m)
}

pub fn c08(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C08", case);
    let ft = any_type(r);
    let mut cfg = sized(r, Cfg::default());
    cfg.f_num = *r.pick(&[0, 5, 20, 60]);
    let style = Style::random(r);
    let m = single(r, cfg, ft, &style);
    verify(env, &m, true, false)?;
    cut_off(env, r, &m)
}

pub fn c09(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C09", case);
    let ft = any_type(r);
    let mut cfg = sized(r, Cfg::default());
    cfg.f_sem = *r.pick(&[3, 10, 30]);
    cfg.unresolved = *r.pick(&[0, 5, 30]);
    cfg.plugin = r.chance(20);
    cfg.header = r.chance(80);
    let style = Style::random(r);
    if r.chance(8) {
        // What is included does not change the rules for the file itself
        let mut w = WCfg {
            max_files: *r.pick(&[2, 3, 4]),
            main_ft: Some(ft),
            directives: true,
            ..WCfg::default()
        };
        w.main.unresolved = *r.pick(&[0, 20, 50]);
        w.main.f_sem = *r.pick(&[0, 10]);
        w.main.budget = 60;
        w.other.budget = 40;
        w.other.unresolved = *r.pick(&[0, 20]);
        let w = build(env, r, &w);
        return with_world(env, w, |env, w| {
            let p = load(w);
            env.count("files with includes", 1);
            check_diags(env, w, &p)
        });
    }
    let m = if r.chance(15) { alone(r, cfg, ft, &style) } else { single(r, cfg, ft, &style) };
    verify(env, &m, true, false)?;
    unbalanced(env, r, &m, &style)?;
    cut_off(env, r, &m)
}

/// A parenthesis that is never closed
fn unbalanced(env: &mut Env, r: &mut Rng, m: &FileM, style: &Style) -> Res<()> {
    let exprs: Vec<usize> = (0..m.toks.len()).filter(|i| m.toks[*i].k == TK::Expr).collect();
    if exprs.is_empty() {
        return Ok(());
    }
    let j = *r.pick(&exprs);
    let mut m = m.clone();
    for i in exprs {
        if i == j || (i > j && r.chance(30)) {
            let s = &mut m.toks[i].s;
            assert_eq!(s.pop(), Some(')'));
        }
    }
    if r.chance(30) {
        let keep = r.range(j + 1, m.toks.len());
        m.toks.truncate(keep);
    }
    m.laid = layout(&m.toks, style, r);
    let got = match sut(|| {
        let (p, path) = analyze(&m.laid.text, m.ft);
        diags(&p, &path)
    }) {
        Ok(x) => x,
        Err(panic) => return viol_text(format!("crash: {panic}"), &name(&m), &m.laid.text),
    };
    let at = m.laid.start(j);
    let found: Vec<&D> = got.iter().filter(|d| d.code == "unbalanced_parentheses").collect();
    env.facts += 2;
    env.count("parentheses that are never closed", 1);
    if found.len() != 1 || found[0].start != at || found[0].sev != "error" {
        return viol_text(format!("the parenthesis at {at} is never closed, reported is {got:?}"), &name(&m), &m.laid.text);
    }
    if let Some(d) = got.iter().find(|d| d.start < at && !m.expects.iter().any(|e| e.code == d.code)) {
        return viol_text(format!("reported before the parenthesis at {at}: {d}"), &name(&m), &m.laid.text);
    }
    env.seen(&m.laid.text);
    Ok(())
}

pub fn c04(env: &mut Env, case: u64) -> Res<()> {
    let r = &mut Rng::of(env.seed, "C04", case);
    if case % 3 == 0 {
        return super::total::c04_any(env, r);
    }
    let ft = any_type(r);
    let mut cfg = sized(r, Cfg::default());
    match r.below(5) {
        0 => {
            cfg.tame = true;
            cfg.f_semi = *r.pick(&[5, 20, 60]);
        }
        1 => cfg.f_num = *r.pick(&[5, 30]),
        2 => {
            cfg.f_sem = *r.pick(&[5, 30]);
            cfg.unresolved = *r.pick(&[0, 20]);
        }
        3 => cfg.unresolved = 30,
        _ => {}
    }
    let names = cfg.f_semi + cfg.f_num + cfg.f_sem + cfg.unresolved == 0 && ft != Ft::Dts && r.chance(70);
    if names {
        cfg.f_name = *r.pick(&[5, 30]);
    }
    cfg.header = ft == Ft::Dts || r.chance(60);
    let mut style = Style::random(r);
    style.nonascii = r.chance(85);
    if r.chance(60) {
        style.shape = Shape::Wild;
        style.comments = 30;
    }
    let m = single(r, cfg, ft, &style);
    verify(env, &m, !names, true)?;
    if r.chance(10) {
        byte_order_mark(env, m)?;
    }
    Ok(())
}

/// A byte order mark is either wrong, or the first character of the first line
fn byte_order_mark(env: &mut Env, mut m: FileM) -> Res<()> {
    m.laid.text.insert(0, '\u{feff}');
    for (a, b) in &mut m.laid.b {
        *a += 3;
        *b += 3;
    }
    let shift = |p: &mut Pos| {
        if p.line == 0 {
            p.col += 1;
        }
    };
    for (a, b) in &mut m.laid.p {
        shift(a);
        shift(b);
    }
    m.laid.end.iter_mut().for_each(shift);
    let got = match sut(|| {
        let (p, path) = analyze(&m.laid.text, m.ft);
        diags(&p, &path)
    }) {
        Ok(x) => x,
        Err(panic) => return viol_text(format!("crash: {panic}"), &name(&m), &m.laid.text),
    };
    env.facts += 1;
    env.count("documents with a byte order mark", 1);
    let syntax = |d: &&D| d.sev == "error" && SYNTAX_CODES.contains(&d.code.as_str());
    match got.iter().filter(syntax).map(|d| d.start).min() {
        Some(p) if p == Pos::new(0, 0) => Ok(()),
        // There may be others
        _ => match match_diags(&m, &got) {
            Ok(_) => Ok(()),
            Err(e) => viol_text(format!("diagnostics differ:\n{e}"), &name(&m), &m.laid.text),
        },
    }
}

/// The syntax tree prints as a document that says the same
pub fn c21(env: &mut Env, case: u64) -> Res<()> {
    if cfg!(not(feature = "ast")) {
        return Err(Fail::Inconclusive("the syntax tree cannot be seen".to_string()));
    }
    let r = &mut Rng::of(env.seed, "C21", case);
    let ft = any_type(r);
    let mut cfg = sized(r, Cfg::default());
    cfg.header = ft == Ft::Dts || r.chance(60);
    cfg.plugin = r.chance(15);
    if r.chance(20) {
        cfg.tame = true;
        cfg.f_semi = *r.pick(&[2, 10, 40]);
    }
    let style = Style::random(r);
    let m = single(r, cfg, ft, &style);
    let first = match sut(|| {
        let (p, path) = analyze(&m.laid.text, m.ft);
        p.get_root(&path).map(|root| root.to_string())
    }) {
        Err(panic) => return viol_text(format!("crash: {panic}"), &name(&m), &m.laid.text),
        Ok(None) => return viol_text("there is no syntax tree".to_string(), &name(&m), &m.laid.text),
        Ok(Some(t)) => t,
    };
    let show = |what: String| viol_text(format!("{what}\nprinted:\n{first}"), &name(&m), &m.laid.text);
    let again = sut(|| {
        let (p, path) = analyze(&first, m.ft);
        let second = p.get_root(&path).map(|root| root.to_string());
        let d = diags(&p, &path);
        (p, path, d, second)
    });
    let (p, path, d, second) = match again {
        Err(panic) => return show(format!("crash: {panic}")),
        Ok(x) => x,
    };
    if let Some(d) = d.first() {
        return show(format!("the printed syntax tree is not accepted: {d}"));
    }
    match sut(|| compare(&m, &p, &path, false)) {
        Err(panic) => return show(format!("crash: {panic}")),
        Ok(Err(e)) => return show(format!("the printed syntax tree says something else: {e}")),
        Ok(Ok(n)) => env.facts += n as u64 + 2,
    }
    if second.as_ref() != Some(&first) {
        return show(format!("printed again, it is not the same: {second:?}"));
    }
    env.count("printed bytes", first.len() as u64);
    if !m.expects.is_empty() {
        env.count("printed documents that lacked semicolons", 1);
    }
    record(env, &m);
    env.sample(|| first.clone());
    Ok(())
}
