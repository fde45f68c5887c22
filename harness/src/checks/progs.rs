//! Whole programs against the reference interpreter, with several mixes of constructs.
use super::*;
use crate::dy::{self, Res, V};
use crate::lang;
use crate::model::{Model, Stop, ERR};
use crate::progen::*;

/// Model value against real value; text of run-time errors is not specified.
pub fn agree(m: &V, r: &V) -> bool {
    match (m, r) {
        (V::Str(a), V::Str(_)) if a == ERR => true,
        (V::Arr(a), V::Arr(b)) | (V::Link(a), V::Link(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| agree(x, y)),
        (V::Obj(a), V::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && agree(x, y)),
        (V::Some(a), V::Some(b)) | (V::Ok(a), V::Ok(b)) | (V::Err(a), V::Err(b)) => agree(a, b),
        (V::Sec(a, s), V::Sec(b, t)) => agree(a, b) && s.len() == t.len() && s.iter().zip(t).all(|(x, y)| agree(x, y)),
        (a, b) => a.same(b),
    }
}
pub fn agree_log(m: &[V], r: &[V]) -> bool { m.len() == r.len() && m.iter().zip(r).all(|(a, b)| agree(a, b)) }

pub struct Ran { pub want: Result<V, Stop>, pub log: Vec<V>, pub seen: Vec<&'static str>, pub steps: u64 }
pub fn run_model(p: &lang::Prog, f: &str, args: &[V], sec: bool) -> Ran {
    let mut m = Model::new(p);
    let want = m.run_sec(f, args, sec);
    Ran { want, log: m.log, seen: m.seen.into_iter().collect(), steps: m.steps }
}
pub const LOG_LIMIT: usize = 5000;

/// Compares one program's run with the model and records the verdict.
pub fn compare(o: &mut Outcome, src: &str, prog: &lang::Prog, f: &str, args: &[V]) -> bool {
    let ran = run_model(prog, f, args, true);
    if let Err(Stop::Budget) = ran.want { o.discard = true; return false; }
    if let Err(Stop::Undefined(u)) = &ran.want { o.discard = true; let _ = u; if std::env::var("SHOW_UNDEF").is_ok() { eprintln!("UNDEF {}\n{}", u, src); } return false; }
    let (res, log) = dy::run_fn(src, f, args, LOG_LIMIT, true);
    for s in &ran.seen { o.label(s); }
    verdict(o, &ran, &res, &log);
    ran.steps > 25
}
pub fn verdict(o: &mut Outcome, ran: &Ran, res: &Res, log: &[V]) {
    match (&ran.want, res) {
        (_, Res::Panic(p)) => o.fail(format!("panic: {}", p)),
        (_, Res::LoadErr(e)) => o.fail(format!("the program is well-formed but was rejected: {}", e)),
        (Ok(w), Res::Ok(g)) => {
            if !agree(w, g) { o.fail(format!("result: expected {:?}, got {:?}", w, g)); }
            else if !agree_log(&ran.log, log) { o.fail(format!("effects: expected {:?}, got {:?}", ran.log, log)); }
        }
        (Ok(w), Res::RunErr(e)) => o.fail(format!("expected {:?}, got error {}", w, e)),
        (Err(Stop::Fail(w)), Res::Ok(g)) => o.fail(format!("expected a run-time error ({}), got {:?}", w, g)),
        (Err(_), Res::RunErr(e)) => {
            o.label("run-time error");
            if e.contains("DEBUG: ") { o.fail(format!("variable lookups disagree: {}", e)); }
            else if !agree_log(&ran.log, log) { o.fail(format!("effects before the error: expected {:?}, got {:?}", ran.log, log)); }
        }
        _ => {}
    }
}
/// One scenario program against the model.
pub fn scenario(s: &mut Src, f: fn(&mut Src) -> String) -> Outcome {
    let src = f(s);
    if std::env::var("SHOW_SRC").is_ok() { eprintln!("{}", src); }
    let prog = crate::parse::program(&src);
    let mut o = Outcome::of(src.clone());
    o.label("scenario");
    let ran = run_model(&prog, "start", &[], true);
    match &ran.want {
        Err(Stop::Budget) => { o.discard = true; return o; }
        Err(Stop::Undefined(u)) => { o.discard = true; if std::env::var("SHOW_UNDEF").is_ok() { eprintln!("UNDEF {}\n{}", u, src); } return o; }
        _ => {}
    }
    let (res, log) = dy::run_fn(&src, "start", &[], LOG_LIMIT, true);
    for s in &ran.seen { o.label(s); }
    o.nontrivial = ran.steps > 25;
    verdict(&mut o, &ran, &res, &log);
    o
}
fn mixed(s: &mut Src, p: Prof, of: u64, f: fn(&mut Src) -> String) -> Outcome {
    if s.below(10) < of { scenario(s, f) } else { case(s, p) }
}
/// Loads one program and compares several calls of it with the model.
fn case(s: &mut Src, p: Prof) -> Outcome {
    let mut g = G::new(s, p);
    let (prog, tys) = g.program();
    let src = lang::text(&prog);
    let mut o = Outcome::of(src.clone());
    let n = if tys.is_empty() { 1 } else { 3 };
    let calls: Vec<Vec<V>> = (0..n).map(|_| tys.iter().map(|t| arg_value(s, t)).collect()).collect();
    let mut m = None;
    let mut used = 0;
    for args in &calls {
        let ran = run_model(&prog, "start", args, true);
        match &ran.want {
            Err(Stop::Budget) => continue,
            Err(Stop::Undefined(u)) => { if std::env::var("SHOW_UNDEF").is_ok() { eprintln!("UNDEF {}\n{}", u, src); } continue }
            _ => {}
        }
        used += 1;
        if m.is_none() {
            let t0 = std::time::Instant::now();
            let l = dy::load(&src);
            if std::env::var("SLOW").is_ok() { eprintln!("LOAD {} {}", t0.elapsed().as_micros(), src.len()); if t0.elapsed().as_millis() > 300 { eprintln!("{}", src); } }
            m = Some(match l {
                Err(p) => { o.fail(format!("panic while loading: {}", p)); return o; }
                Ok(Err(e)) => { o.fail(format!("the program is well-formed but was rejected: {}", e)); return o; }
                Ok(Ok(m)) => m,
            });
        }
        let _ = dy::take_log();
        dy::LIMIT.with(|l| l.set(LOG_LIMIT));
        let res = dy::call(&mut dyon::Runtime::new(), m.as_ref().unwrap(), "start", args, true);
        let log = dy::take_log();
        for s in &ran.seen { o.label(s); }
        if ran.steps > 25 { o.nontrivial = true; }
        verdict(&mut o, &ran, &res, &log);
        if o.violation.is_some() { o.desc = format!("start({:?})\n{}", args, src); return o; }
    }
    if used == 0 { o.discard = true; }
    o
}

pub fn flow() -> Prof { Prof { decl: 6, assign: 5, emit: 5, ifs: 4, forn: 3, forc: 2, lp: 2, block: 2, callm: 3, jump: 4, ret: 1, retvar: 1, path: 1, arrs: 1, fold: 1, rich: 2, funs: 3, stmts: 5, depth: 3, ..Prof::NONE } }
pub fn refs() -> Prof { Prof { decl: 7, assign: 5, emit: 2, ifs: 1, forn: 1, block: 1, path: 8, arrs: 6, callm: 4, refs: 7, rich: 8, funs: 2, stmts: 7, depth: 1, ..Prof::NONE } }
pub fn errs() -> Prof { Prof { decl: 6, assign: 3, emit: 3, ifs: 3, forn: 1, callm: 1, ret: 1, retvar: 1, tries: 5, quest: 6, boom: 1, path: 2, arrs: 1, rich: 6, funs: 4, stmts: 4, depth: 2, ..Prof::NONE } }
pub fn clos() -> Prof { Prof { decl: 9, assign: 4, emit: 5, ifs: 1, forn: 2, block: 1, callm: 1, clos: 20, fold: 1, rich: 2, funs: 2, stmts: 6, depth: 2, ..Prof::NONE } }
pub fn cur() -> Prof { Prof { decl: 4, assign: 6, emit: 4, ifs: 2, forn: 2, block: 3, callm: 8, current: 6, jump: 1, ret: 1, tries: 1, path: 2, arrs: 2, rich: 1, funs: 4, stmts: 4, depth: 2, ..Prof::NONE } }
pub fn lazy() -> Prof { Prof { decl: 6, assign: 3, emit: 4, ifs: 1, lazy: 7, rich: 4, tries: 1, funs: 4, stmts: 3, depth: 1, ..Prof::NONE } }
pub fn folds() -> Prof { Prof { decl: 6, assign: 3, emit: 4, ifs: 1, forn: 1, fold: 9, jump: 3, rich: 3, funs: 1, stmts: 5, depth: 2, ..Prof::NONE } }

macro_rules! chks { ($f:ident, $id:expr, $prof:ident, $of:expr, $sc:ident, $q:expr, $t:expr, $rule:expr) => {
    pub fn $f() -> Check { Check { id: $id, quick: $q, thorough: $t, case: |s, _| mixed(s, $prof(), $of, crate::scen::$sc), rule: $rule, probes: no_probes, assumptions: &[] } }
} }
macro_rules! chk { ($f:ident, $id:expr, $prof:ident, $q:expr, $t:expr, $rule:expr) => {
    pub fn $f() -> Check { Check { id: $id, quick: $q, thorough: $t, case: |s, _| case(s, $prof()), rule: $rule, probes: no_probes, assumptions: &[] } }
} }
chk!(c02, "C02", flow, 9_000, 3_000_000, "the model run takes more than 25 steps");
chks!(c04, "C04", refs, 5, heap, 20_000, 3_000_000, "the model run takes more than 25 steps");
chks!(c12, "C12", errs, 5, errors, 6_000, 3_000_000, "the model run takes more than 25 steps");
chks!(c16, "C16", clos, 5, closures, 9_000, 3_000_000, "the model run takes more than 25 steps");
chks!(c17, "C17", cur, 5, currents, 10_000, 3_000_000, "the model run takes more than 25 steps");
chks!(c18, "C18", lazy, 3, lazies, 9_000, 3_000_000, "the model run takes more than 25 steps");
chks!(c03, "C03", folds, 6, folds, 9_000, 3_000_000, "the model run takes more than 25 steps");
