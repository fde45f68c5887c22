//! C13 (a runtime is reusable), C22 (build configurations agree), C23 (notation does not matter).
use super::progs::{self, run_model, verdict, LOG_LIMIT};
use super::*;
use crate::dy::{self, Res, V};
use crate::lang::{self, *};
use crate::model::Stop;
use crate::progen::*;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn any_prof(s: &mut Src) -> Prof {
    let mut p = match s.below(8) { 0 => progs::refs(), 1 => progs::errs(), 2 => progs::clos(), 3 => progs::cur(), 4 => progs::lazy(), 5 => progs::folds(), _ => progs::flow() };
    p.stmts = p.stmts.min(4);
    p.funs = p.funs.min(3);
    p
}

// ---- C13

fn reuse(s: &mut Src, _: &Cfg) -> Outcome {
    let np = 1 + s.us(2);
    let mut mods = vec![];
    let mut all = String::new();
    for _ in 0..np {
        if s.below(3) == 0 {
            // A program with a `main` for the host to run.
            let f: fn(&mut Src) -> String = *s.pick(&[crate::scen::currents as fn(&mut Src) -> String, crate::scen::errors, crate::scen::lazies, crate::scen::closures, crate::scen::inferred]);
            let last = s.pick(&["", "  q := boom(\"end\")\n  emit(q)\n", "  ~ cu := 3\n  q := [1]\n  emit(q[r])\n"]).to_string();
            let src = format!("{}fn main() {{\n  r := start()\n  emit(r)\n{}}}\n", f(s), last);
            all.push_str(&src);
            all.push_str("----\n");
            mods.push((crate::parse::program(&src), vec![], vec![], src));
            continue;
        }
        let mut p = any_prof(s);
        p.boom = 2; p.tries += 1; p.arrs += 1;
        let mut g = G::new(s, p);
        let (prog, tys) = g.program();
        let sigs = g.sigs.clone();
        let src = lang::text(&prog);
        all.push_str(&src);
        all.push_str("----\n");
        mods.push((prog, tys, sigs, src));
    }
    let mut o = Outcome::of(all.clone());
    let mut loaded = vec![];
    for m in &mods {
        match dy::load(&m.3) {
            Err(p) => { o.fail(format!("panic while loading: {}", p)); return o; }
            Ok(Err(e)) => { o.fail(format!("the program is well-formed but was rejected: {}", e)); return o; }
            Ok(Ok(m)) => loaded.push(m),
        }
    }
    let mut rt = dyon::Runtime::new();
    let n = 2 + s.us(8);
    let mut hist = String::new();
    let mut failed = false;
    for _ in 0..n {
        let mi = s.us(np);
        let (prog, tys, sigs, _) = &mods[mi];
        // The entry, or any other function whose arguments are plain values.
        let c: Vec<&Sig> = sigs.iter().filter(|g| !g.params.iter().any(|p| p.1)).collect();
        let (f, ts): (String, Vec<T>) = if !c.is_empty() && s.below(3) == 0 { let g = c[s.us(c.len())]; (g.name.clone(), g.params.iter().map(|p| p.0.clone()).collect()) } else { (if prog.funs.last().map_or(false, |f| f.name == "main") && s.bool() { "main" } else { "start" }.into(), tys.clone()) };
        let args: Vec<V> = ts.iter().map(|t| arg_value(s, t)).collect();
        let ran = run_model(prog, &f, &args, true);
        if let Err(Stop::Budget) | Err(Stop::Undefined(_)) = ran.want { continue; }
        hist.push_str(&format!("#{} {}({:?})\n", mi, f, args));
        let _ = dy::take_log();
        dy::LIMIT.with(|l| l.set(LOG_LIMIT));
        let base = rt.module.clone();
        let has_ret = prog.funs.iter().find(|g| g.name == f).unwrap().ret.is_some();
        let res = if f == "main" && s.below(3) > 0 {
            o.label("run by the host");
            match guard(|| rt.run(&loaded[mi])) { Err(p) => Res::Panic(p), Ok(Err(e)) => Res::RunErr(e), Ok(Ok(())) => Res::Ok(V::Void) }
        } else if has_ret || matches!(ran.want, Err(_)) { dy::call(&mut rt, &loaded[mi], &f, &args, true) } else {
            let a: Vec<dyon::Variable> = args.iter().map(dy::to_var).collect();
            match guard(|| rt.call_str(&f, &a, &loaded[mi])) { Err(p) => Res::Panic(p), Ok(Err(e)) => Res::RunErr(e), Ok(Ok(())) => Res::Ok(V::Void) }
        };
        let log = dy::take_log();
        for l in &ran.seen { o.label(l); }
        if failed { o.label("call after a failed call"); }
        if ran.steps > 15 { o.nontrivial = true; }
        verdict(&mut o, &ran, &res, &log);
        if o.violation.is_none() {
            let d = [rt.stack.len(), rt.call_stack.len(), rt.local_stack.len(), rt.current_stack.len()];
            if d != [0; 4] { o.fail(format!("the call left (stack, calls, locals, currents) = {:?} behind", d)); }
            if !std::sync::Arc::ptr_eq(&base, &rt.module) { o.fail("the call left another module in the runtime"); }
        }
        if let Res::RunErr(_) = res { failed = true; }
        if o.violation.is_some() { o.desc = format!("{}{}", hist, all); return o; }
    }
    if hist.is_empty() { o.discard = true; }
    o
}
pub fn c13() -> Check { Check { id: "C13", quick: 6_000, thorough: 400_000, case: reuse, rule: "some call in the history takes more than 15 model steps", probes: no_probes, assumptions: &[] } }

// ---- C22

/// Everything observable about the program the choices describe.
fn observe(s: &mut Src) -> (String, String) {
    let p = any_prof(s);
    let mut g = G::new(s, p);
    let (prog, tys) = g.program();
    let src = lang::text(&prog);
    let n = if tys.is_empty() { 1 } else { 2 };
    let calls: Vec<Vec<V>> = (0..n).map(|_| tys.iter().map(|t| arg_value(s, t)).collect()).collect();
    let mut r = String::new();
    match dy::load(&src) {
        Err(p) => r.push_str(&format!("panic {}", p)),
        Ok(Err(_)) => r.push_str("rejected"),
        Ok(Ok(m)) => for a in &calls {
            // Long runs are left out in both builds alike.
            if let Err(Stop::Budget) | Err(Stop::Undefined(_)) = run_model(&prog, "start", a, true).want { r.push_str("skipped;"); continue; }
            let _ = dy::take_log();
            dy::LIMIT.with(|l| l.set(LOG_LIMIT));
            let res = dy::call(&mut dyon::Runtime::new(), &m, "start", a, true);
            let log = dy::take_log();
            r.push_str(&match res { Res::RunErr(e) => if e.contains("DEBUG: ") { format!("lookup differs: {}", e) } else { "error".into() }, x => format!("{:?}", x) });
            r.push_str(&format!(" after {:?};", log));
        },
    }
    (src, r.replace('\n', "\\n"))
}
/// Answers choice sequences with what this build observes.
pub fn serve() {
    let i = std::io::stdin();
    let mut out = std::io::stdout();
    for l in i.lock().lines() {
        let l = l.unwrap();
        let c: Vec<u64> = l.split(',').filter_map(|x| x.parse().ok()).collect();
        let r = observe(&mut Src::replay(&c)).1;
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
}
struct Peer { _c: Child, i: ChildStdin, o: BufReader<ChildStdout> }
thread_local! { static PEER: std::cell::RefCell<Option<Peer>> = std::cell::RefCell::new(None); }
fn ask(c: &[u64]) -> Result<String, String> {
    PEER.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            let exe = std::env::var("VERIF_PEER").map_err(|_| "no VERIF_PEER".to_string())?;
            let mut k = Command::new(exe).arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{}", e))?;
            let i = k.stdin.take().unwrap();
            let o = BufReader::new(k.stdout.take().unwrap());
            *p = Some(Peer { _c: k, i, o });
        }
        let q = p.as_mut().unwrap();
        let t = c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        let mut l = String::new();
        let ok = writeln!(q.i, "{}", t).is_ok() && q.i.flush().is_ok() && q.o.read_line(&mut l).unwrap_or(0) > 0;
        if !ok { *p = None; return Ok("process died".into()); }
        Ok(l.trim_end_matches('\n').to_string())
    })
}
fn configs(s: &mut Src, _: &Cfg) -> Outcome {
    let (src, here) = observe(s);
    let mut o = Outcome::of(src);
    let there = match ask(&s.rec) { Ok(x) => x, Err(e) => panic!("cannot reach the other build: {}", e) };
    o.nontrivial = here.contains("Ok(");
    if here.contains("error") { o.label("run-time error"); }
    if here.contains("Ok(") { o.label("value"); }
    if here != there { o.fail(format!("with debug_lookup: {}\nwithout: {}", here, there)); }
    if here.contains("lookup differs") { o.fail(here.clone()); }
    o
}
pub fn c22() -> Check { Check { id: "C22", quick: 3_000, thorough: 400_000, case: configs, rule: "some call of the program gives a value", probes: no_probes, assumptions: &["the other build of the same tree is reached through VERIF_PEER"] } }

// ---- C23

/// Gives some functions names with argument words, so that calls can name their arguments.
fn rename(p: &mut Prog, from: &str, to: &str) { for f in &mut p.funs { if f.name == from { f.name = to.into(); } for e in &mut f.body { ren(e, from, to); } } }
fn ren(e: &mut E, from: &str, to: &str) {
    if let E::Call(n, _) = e { if n == from { *n = to.into(); } }
    lang::kids(e, &mut |x| ren(x, from, to));
}
/// Renames variables, arguments, currents and labels.
fn ren_vars(e: &mut E, f: &dyn Fn(&mut String)) {
    match e {
        E::Var(n, _, _) | E::Mut(n) | E::VecUn(_, n, _) => f(n),
        E::Clo(a, c, _) => { for (n, _) in a { f(n) } for n in c { f(n) } }
        E::ForN(_, l, ixs, _) => { if let Some(l) = l { f(l) } for i in ixs { f(&mut i.name) } }
        E::Loop(Some(l), _) | E::ForC(Some(l), ..) | E::Break(Some(l)) | E::Continue(Some(l)) => f(l),
        _ => {}
    }
    lang::kids(e, &mut |x| ren_vars(x, f));
}
/// Names that contain words of the language, are words of the library, or have unusual characters.
const ODD: &[&str] = &["mutex", "mut_", "returned", "return_", "grabbed", "grab_", "trying", "try_", "inner", "in_", "gone", "go_", "iff", "if_", "breaker", "break_", "continued", "continue_", "somex", "some_", "none1", "okx", "errx", "fnx", "x1", "xq", "y", "z", "w", "truex", "true_", "falsey", "loopy", "loop_", "form", "for_", "sifted", "all_", "anyx", "min_", "maxx", "sum_", "sumx", "prodx", "linkx", "link_", "elsex", "else_", "vec4x", "mat4x", "unsafe", "nsx", "use_", "as_", "andx", "and_", "or_", "orx", "xor_", "clone", "len", "\u{e9}", "\u{4e2d}\u{6587}", "_a", "a_", "e1", "f64", "f64x", "str", "bool_", "infinity", "nan", "react", "ok_", "A", "Z9", "a'", "$", "@q", "ev", "println"];
fn odd_names(s: &mut Src, p: &mut Prog) {
    use std::collections::BTreeMap;
    let used = std::cell::RefCell::new(BTreeMap::new());
    let collect = |n: &mut String| { used.borrow_mut().insert(n.clone(), String::new()); };
    for f in &mut p.funs { for e in &mut f.body { ren_vars(e, &collect) } for q in &mut f.params { collect(&mut q.name) } for c in &mut f.currents { collect(&mut c.1) } }
    let mut used = used.into_inner();
    used.remove("return");
    let mut odd = ODD.to_vec();
    for (_, to) in used.iter_mut() { if odd.is_empty() { break } let i = s.us(odd.len()); *to = odd.swap_remove(i).to_string(); }
    let set = |n: &mut String| if let Some(t) = used.get(n) { if !t.is_empty() { *n = t.clone() } };
    for f in &mut p.funs { for e in &mut f.body { ren_vars(e, &set) } for q in &mut f.params { set(&mut q.name) } for c in &mut f.currents { set(&mut c.1) } }
}
fn styles(s: &mut Src, _: &Cfg) -> Outcome {
    let mut p = any_prof(s);
    p.depth = p.depth.min(2);
    let mut g = G::new(s, p);
    let (mut prog, tys) = g.program();
    const W: [&str; 4] = ["at", "by", "of", "to"];
    for i in 0..prog.funs.len() {
        let f = &prog.funs[i];
        if f.params.is_empty() || f.name == "start" || s.bool() { continue; }
        let to = format!("{}__{}", f.name, (0..f.params.len()).map(|k| W[k]).collect::<Vec<_>>().join("_"));
        let from = f.name.clone();
        rename(&mut prog, &from, &to);
    }
    let plain = lang::text(&prog);
    let mut other = prog.clone();
    if s.bool() { let n = other.funs.len(); for i in (1..n).rev() { let j = s.us(i + 1); other.funs.swap(i, j); } }
    if s.bool() { for f in &mut other.funs { if f.body.len() == 1 && f.currents.is_empty() { if let E::Return(Some(e)) = &f.body[0] { f.body = vec![(**e).clone()]; f.short = true; f.ret = None; } } } }
    let odd = s.chance(1, 3);
    if odd { odd_names(s, &mut other); }
    let sd = s.below(1 << 32);
    let varied = lang::styled(&other, Some(sd));
    let n = if tys.is_empty() { 1 } else { 2 };
    let calls: Vec<Vec<V>> = (0..n).map(|_| tys.iter().map(|t| arg_value(s, t)).collect()).collect();
    let mut o = Outcome::of(format!("{}\n---- as ----\n{}", plain, varied));
    if odd { o.label("renamed variables"); }
    let m = match dy::load(&varied) {
        Err(p) => { o.fail(format!("panic while loading the variant: {}", p)); return o; }
        Ok(Err(e)) => { o.fail(format!("the variant of a well-formed program was rejected: {}", e)); return o; }
        Ok(Ok(m)) => m,
    };
    let m0 = match dy::load(&plain) {
        Err(p) => { o.fail(format!("panic while loading: {}", p)); return o; }
        Ok(Err(e)) => { o.fail(format!("a well-formed program was rejected: {}", e)); return o; }
        Ok(Ok(m)) => m,
    };
    if s.chance(1, 3) {
        // What is not part of a program is not skipped, wherever it stands and whatever is before it.
        o.label("text left over");
        const JUNK: &[&str] = &["}", ")", "9", "fn", "fn f", "fn f(", "fn f() {", "fn f() }", "f() =", "x := 2", "%", "\"", "fn f() {} }", "f", "ns a", "use a as b", "/", "\u{e9}", "fn () {}", "end end end end end end end end"];
        let notes = ["", "// plain\n", "// \u{e9}\u{e9}\u{e9}\n", "/* \u{4e2d}\u{6587}\u{4e2d}\u{6587}\u{4e2d}\u{6587}\u{4e2d}\u{6587}\u{4e2d}\u{6587}\u{4e2d}\u{6587}\u{4e2d}\u{6587}\u{4e2d}\u{6587} */\n", "// \u{1F600}\n"];
        let note = notes[s.us(notes.len())];
        let junk = JUNK[s.us(JUNK.len())];
        let pad = ["\n", "\n\n", "\n  ", " "][s.us(4)];
        let bad = if s.chance(1, 4) { format!("{}{}{}{}", junk, pad, note, plain) } else { format!("{}{}{}{}{}", note, plain.trim_end(), pad, junk, ["", "\n", "\n\n\n\n\n", "  "][s.us(4)]) };
        let head_ok = bad.starts_with("ns a") || bad.starts_with("use a");
        if !head_ok { match dy::load(&bad) {
            Err(p) => { o.fail(format!("panic while loading: {}\n---- text\n{}", p, bad)); return o; }
            Ok(Ok(_)) => { o.fail(format!("text that is not a program was accepted\n---- text\n{}", bad)); return o; }
            Ok(Err(_)) => {}
        } }
    }
    for a in &calls {
        let ran = run_model(&prog, "start", a, true);
        if let Err(Stop::Budget) | Err(Stop::Undefined(_)) = ran.want { continue; }
        let _ = dy::take_log();
        dy::LIMIT.with(|l| l.set(LOG_LIMIT));
        let r = dy::call(&mut dyon::Runtime::new(), &m, "start", a, true);
        let log = dy::take_log();
        let r0 = dy::call(&mut dyon::Runtime::new(), &m0, "start", a, true);
        let log0 = dy::take_log();
        o.nontrivial = true;
        // Texts of run-time errors quote the source and are left out.
        verdict(&mut o, &ran, &r0, &log0);
        if o.violation.is_none() { verdict(&mut o, &ran, &r, &log); if let Some(v) = &mut o.violation { *v = format!("in the variant only: start({:?}): {}", a, v); } }
        if o.violation.is_some() { return o; }
    }
    o
}
pub fn c23() -> Check { Check { id: "C23", quick: 2_500, thorough: 400_000, case: styles, rule: "some call of both programs was compared", probes: no_probes, assumptions: &[] } }
