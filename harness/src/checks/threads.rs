//! C14: threads and channels. Part A: a thread gives what the inline call gives (reference interpreter) and leaves the
//! spawner alone. Part B: generated histories of calls, channels, threads and receives, checked against a
//! happens-before model of what each channel may and must deliver. Holds for every schedule.
use super::*;
use crate::dy::{self, Res, V};
use crate::lang;
use crate::model::Stop;
use crate::progen::*;
use std::fmt::Write;
use std::sync::Arc;

type Bits = Vec<u64>;
fn has(b: &Bits, i: usize) -> bool { b.get(i / 64).map(|w| w >> (i % 64) & 1 == 1).unwrap_or(false) }
fn set(b: &mut Bits, i: usize) { while b.len() <= i / 64 { b.push(0) } b[i / 64] |= 1 << (i % 64) }
fn join(a: &mut Bits, b: &Bits) { for (i, w) in b.iter().enumerate() { if a.len() <= i { a.push(0) } a[i] |= w } }

/// An event: a call of function `f` with a message, or (no `f`) an opening or a receive.
struct Ev { f: Option<usize>, msg: V, pred: Bits }
#[derive(Clone, Copy, PartialEq)]
enum Ty { N, S, A, O, Any }
struct Fun { extra: Vec<Ty>, ret: bool, inner: Option<usize>, early: bool }
struct Ch { f: usize, name: String, open: usize, ub: usize, live: bool, exclusive: bool, closed: bool }
struct Lp { kind: &'static str, jump: u8, x: f64, v: f64 }
enum Op { Val(V), One(usize, usize, bool), Loop(usize, usize, Lp), Join(Option<V>), Consume(usize) }
struct Thread { name: String, known: Bits, want: Option<V>, joined: bool }

struct W { evs: Vec<Ev>, funs: Vec<Fun>, chs: Vec<Ch>, ops: Vec<Op>, next_id: u32, q: String, ws: usize }

impl W {
    fn event(&mut self, known: &mut Bits, f: Option<usize>, msg: V) -> usize {
        let e = self.evs.len();
        self.evs.push(Ev { f, msg, pred: known.clone() });
        set(known, e);
        e
    }
    fn id(&mut self) -> f64 { self.next_id += 1; self.next_id as f64 }
    /// Model of a call; gives the result.
    fn call(&mut self, known: &mut Bits, f: usize, msg: Vec<V>) -> V {
        let id = match msg[0] { V::Num(x) => x, _ => 0.0 };
        self.event(known, Some(f), V::Arr(msg));
        if let Some(g) = self.funs[f].inner {
            let m = self.inner_args(g, id + 0.25);
            self.call(known, g, m);
        }
        if self.funs[f].ret { V::Num(id * 2.0 + if self.funs[f].early && id % 2.0 == 0.0 { 1.0 } else { 0.0 }) } else { V::Void }
    }
    fn inner_args(&self, g: usize, id: f64) -> Vec<V> {
        let mut m = vec![V::Num(id)];
        for t in &self.funs[g].extra { m.push(match t { Ty::N | Ty::Any => V::Num(7.0), Ty::S => V::str("in"), Ty::A => V::Arr(vec![V::Num(id)]), Ty::O => V::Obj([("k".to_string(), V::Num(1.0))].into_iter().collect()) }) }
        m
    }
    fn inner_text(&self, g: usize) -> String {
        let mut r = format!("f{}(id + 0.25", g);
        for t in &self.funs[g].extra { r.push_str(match t { Ty::N | Ty::Any => ", 7", Ty::S => ", \"in\"", Ty::A => ", [id + 0.25]", Ty::O => ", {k: 1}" }) }
        r + ")"
    }
    fn fun_text(&self, i: usize) -> String {
        let f = &self.funs[i];
        let mut r = format!("fn f{}(id: f64", i);
        for (k, t) in f.extra.iter().enumerate() { write!(r, ", p{}{}", k, match t { Ty::N => ": f64", Ty::S => ": str", Ty::A => ": [f64]", Ty::O => ": {}", Ty::Any => "" }).unwrap() }
        r.push_str(if f.ret { ") -> f64 {\n" } else { ") {\n" });
        if let Some(g) = f.inner {
            if self.funs[g].ret { writeln!(r, " z := {}", self.inner_text(g)).unwrap() } else { writeln!(r, " {}", self.inner_text(g)).unwrap() }
        }
        if f.ret {
            if f.early { r.push_str(" if (id % 2) == 0 {\n  return id * 2 + 1\n }\n"); }
            r.push_str(" return id * 2\n");
        }
        r + "}\n"
    }
    /// Arguments of a call: message and text. `v` is the array variable in scope and its value.
    fn args(&mut self, s: &mut Src, f: usize, id: f64, v: &(String, Vec<f64>)) -> (Vec<V>, String) {
        let mut m = vec![V::Num(id)];
        let mut t = format!("{}", id);
        let ex: Vec<Ty> = self.funs[f].extra.clone();
        for e in ex {
            let (val, text) = match e {
                Ty::N => { let x = s.range(0, 9) as f64; (V::Num(x), format!("{}", x)) }
                Ty::S => { let x = *s.pick(&["a", "", "é"]); (V::str(x), format!("{:?}", x)) }
                Ty::O => { let x = s.range(0, 9) as f64; (V::Obj([("k".to_string(), V::Num(x))].into_iter().collect()), format!("{{k: {}}}", x)) }
                Ty::A | Ty::Any => if s.bool() { (V::Arr(v.1.iter().map(|x| V::Num(*x)).collect()), v.0.clone()) } else { let x = s.range(0, 9) as f64; (V::Arr(vec![V::Num(x), V::Num(1.0)]), format!("[{}, 1]", x)) },
            };
            let (val, text) = if e == Ty::Any && s.chance(1, 3) { (V::Arr(vec![val]), format!("[{}]", text)) } else { (val, text) };
            m.push(val);
            write!(t, ", {}", text).unwrap();
        }
        (m, t)
    }
    fn certain(&self, c: &Ch, e: usize) -> bool { self.evs[e].f == Some(c.f) && has(&self.evs[e].pred, c.open) }
}

fn set_var(s: &mut Src, o: &mut String, ind: &str, v: &mut (String, Vec<f64>)) {
    let x = s.range(10, 99) as f64;
    if v.1.is_empty() || s.bool() { if v.1.len() < 4 { writeln!(o, "{}push(mut {}, {})", ind, v.0, x).unwrap(); v.1.push(x); } }
    else { let i = s.us(v.1.len()); writeln!(o, "{}{}[{}] = {}", ind, v.0, i, x).unwrap(); v.1[i] = x; }
}

/// A worker function; gives its text, the events it adds and what join gives.
fn worker(w: &mut W, s: &mut Src, known: &mut Bits, arg: &[f64], depth: usize, texts: &mut Vec<String>) -> (String, Option<V>) {
    let k = w.ws;
    w.ws += 1;
    let named = s.chance(1, 3);
    let mut o = format!("fn w{}{}(b: [f64], h, n: f64) -> [] {{\n out := []\n v := clone(b)\n", k, if named { "__b_h_n" } else { "" });
    let va = V::Arr(arg.iter().map(|x| V::Num(*x)).collect());
    let ob = |x: V| V::Obj([("k".to_string(), x)].into_iter().collect());
    let (ht, hv) = match s.below(6) {
        0 => ("1", V::Num(1.0)), 1 => ("v", va.clone()), 2 => ("[v]", V::Arr(vec![va.clone()])), 3 => ("{k: [1, v]}", ob(V::Arr(vec![V::Num(1.0), va.clone()]))),
        4 => ("some([v])", V::Some(Box::new(V::Arr(vec![va.clone()])))), _ => ("ok({k: v})", V::Ok(Box::new(ob(va.clone())))),
    };
    let bt = if s.chance(1, 3) { "clone(v)" } else { "v" };
    let call = if named { format!("go w{}(b: {}, h: {}, n: {})", k, bt, ht, arg.len()) } else { format!("go w{}({}, {}, {})", k, bt, ht, arg.len()) };
    let mut v = ("v".to_string(), arg.to_vec());
    let mut want = vec![];
    let n = 1 + s.us(5);
    let mut fails = false;
    for _ in 0..n {
        let f = s.us(w.funs.len());
        match s.below(9) {
            0..=3 => {
                let id = w.id();
                let (m, t) = w.args(s, f, id, &v);
                let r = w.call(known, f, m);
                if w.funs[f].ret { writeln!(o, " push(mut out, f{}({}))", f, t).unwrap(); want.push(r) } else { writeln!(o, " f{}({})", f, t).unwrap() }
            }
            4 | 5 => {
                let n = 1 + s.us(6);
                let base = w.next_id as f64 + 1.0;
                w.next_id += n as u32;
                let (m, t) = w.args(s, f, base, &v);
                let t = format!("{} + i{}", t.split(',').next().unwrap(), if t.contains(',') { format!(",{}", t.splitn(2, ',').nth(1).unwrap()) } else { String::new() });
                for i in 0..n {
                    let mut m = m.clone();
                    m[0] = V::Num(base + i as f64);
                    let r = w.call(known, f, m);
                    if w.funs[f].ret { want.push(r) }
                }
                if w.funs[f].ret { writeln!(o, " for i {} {{\n  push(mut out, f{}({}))\n }}", n, f, t).unwrap() } else { writeln!(o, " for i {} {{\n  f{}({})\n }}", n, f, t).unwrap() }
            }
            6 => set_var(s, &mut o, " ", &mut v),
            7 => writeln!(o, " sleep(0.000{})", s.below(4)).unwrap(),
            _ => if depth < 2 {
                let mut kn = known.clone();
                let a = v.1.clone();
                let (call, r) = worker(w, s, &mut kn, &a, depth + 1, texts);
                let j = w.ws;
                w.ws += 1;
                writeln!(o, " t{} := {}", j, call).unwrap();
                set_var(s, &mut o, " ", &mut v);
                if s.chance(2, 3) {
                    let id = w.id();
                    let (m, t) = w.args(s, f, id, &v);
                    let r = w.call(known, f, m);
                    if w.funs[f].ret { writeln!(o, " push(mut out, f{}({}))", f, t).unwrap(); want.push(r) } else { writeln!(o, " f{}({})", f, t).unwrap() }
                }
                writeln!(o, " push(mut out, join(thread: t{}))", j).unwrap();
                crate::checks::threads::join(known, &kn);
                want.push(match r { Some(v) => V::Ok(Box::new(v)), None => V::Err(Box::new(V::str(crate::model::ERR))) });
            },
        }
    }
    if s.chance(1, 6) { fails = true; o.push_str(" if n >= 0 {\n  return [boom(\"no\")]\n }\n"); }
    writeln!(o, " push(mut out, clone(v))\n push(mut out, clone(h))\n push(mut out, n)\n return clone(out)\n}}").unwrap();
    want.push(V::Arr(v.1.iter().map(|x| V::Num(*x)).collect()));
    want.push(hv);
    want.push(V::Num(arg.len() as f64));
    texts.push(o);
    (call, if fails { None } else { Some(V::Arr(want)) })
}

const RECV: &str = "fn recv(c: in) -> any {\n return next(c)\n}\nfn consume(c: in, n: f64) -> [] {\n out := []\n for i n {\n  push(mut out, wait_next(c))\n }\n return clone(out)\n}\n";

fn history(s: &mut Src) -> Outcome {
    let nf = 1 + s.us(3);
    let mut w = W { evs: vec![], funs: vec![], chs: vec![], ops: vec![], next_id: 0, q: String::new(), ws: 0 };
    for i in 0..nf {
        let n = s.us(3);
        let extra = (0..n).map(|_| *s.pick(&[Ty::N, Ty::A, Ty::Any, Ty::S, Ty::O])).collect();
        let ret = s.bool();
        let inner = if i > 0 && s.chance(1, 3) { Some(s.us(i)) } else { None };
        w.funs.push(Fun { extra, ret, inner, early: s.chance(1, 3) });
    }
    let mode = s.below(4);
    if mode == 3 { w.q = "q::".into() }
    let mut known: Bits = vec![];
    let mut v = ("v".to_string(), vec![1.0, 2.0]);
    let mut o = String::from("fn start() -> [] {\n log := []\n v := [1, 2]\n");
    let mut threads: Vec<Thread> = vec![];
    let mut texts = vec![];
    let n = 4 + s.len(24);
    let mut block: Option<usize> = None;
    let mut block_left = 0;
    let mut consumers: Vec<(usize, usize)> = vec![];
    for step in 0..n {
        if block.is_some() {
            if block_left == 0 { let c = block.take().unwrap(); w.chs[c].closed = true; o.push_str(" }\n"); }
            else { block_left -= 1 }
        }
        let f = s.us(nf);
        match if step == 0 && s.chance(3, 4) { 5 } else { s.below(16) } {
            0..=3 => {
                let id = w.id();
                let (m, t) = w.args(s, f, id, &v);
                let r = w.call(&mut known, f, m);
                if w.funs[f].ret { let k = w.ops.len(); writeln!(o, " push(mut log, [{}, f{}({})])", k, f, t).unwrap(); w.ops.push(Op::Val(r)) }
                else { writeln!(o, " f{}({})", f, t).unwrap() }
            }
            4 => {
                // A call whose argument fails makes no message.
                let mut t = String::from("boom(\"x\")");
                for e in w.funs[f].extra.clone() { t.push_str(match e { Ty::N | Ty::Any => ", 1", Ty::S => ", \"\"", Ty::A => ", [1]", Ty::O => ", {k: 1}" }) }
                if !w.funs[f].ret { continue; }
                let k = w.ops.len();
                writeln!(o, " e{} := try f{}({})\n push(mut log, [{}, is_err(e{})])", step, f, t, k, step).unwrap();
                w.ops.push(Op::Val(V::Bool(true)));
            }
            5 | 6 => {
                if w.chs.len() > 6 { continue; }
                let open = w.event(&mut known, None, V::Void);
                let name = format!("c{}", w.chs.len());
                let c = w.chs.len();
                let inblock = block.is_none() && s.chance(1, 3);
                if inblock { o.push_str(" if true {\n"); block = Some(c); block_left = 1 + s.us(6); }
                else if block.is_some() { continue; }
                writeln!(o, " {} := in {}f{}", name, w.q, f).unwrap();
                w.chs.push(Ch { f, name, open, ub: 0, live: true, exclusive: false, closed: false });
            }
            7 | 8 => {
                let Some(c) = chan(&w, s) else { continue };
                let k = w.ops.len();
                // Certainly there?
                let there = (0..w.evs.len()).filter(|&e| has(&known, e) && w.certain(&w.chs[c], e)).count();
                let wait = there > w.chs[c].ub && s.bool();
                let kn = known.clone();
                let r = w.event(&mut known, None, V::Void);
                w.evs[r].pred = kn;
                writeln!(o, " push(mut log, [{}, {}({})])", k, if wait { "wait_next" } else { *s.pick(&["next", "recv"]) }, w.chs[c].name).unwrap();
                w.ops.push(Op::One(c, r, wait));
                w.chs[c].ub += 1;
            }
            9 | 10 => {
                let Some(c) = chan(&w, s) else { continue };
                let k = w.ops.len();
                let r = w.event(&mut known, None, V::Void);
                let kind = *s.pick(&["for", "sum", "prod", "min", "max", "sift", "any", "all"]);
                let lp = Lp { kind, jump: s.below(4) as u8, x: s.range(0, w.next_id as i64 + 2) as f64, v: s.range(0, 12) as f64 };
                let label = s.bool();
                let at = if label { " 'a" } else { "" };
                let mut b = format!("{}{} m in {} {{\n  push(mut log, [{}, clone(m)])\n", if label { "'a: " } else { "" }, kind, w.chs[c].name, k);
                match lp.jump { 2 => write!(b, "  if m[0] > {} {{\n   break{}\n  }}\n", lp.x, at).unwrap(), 3 => write!(b, "  if m[0] > {} {{\n   continue{}\n  }}\n", lp.x, at).unwrap(), _ => {} }
                if lp.jump == 1 && label { write!(b, "  for j 2 {{\n   if m[0] > {} {{\n    break 'a\n   }}\n  }}\n", lp.x).unwrap() }
                let lp = Lp { jump: if lp.jump == 1 && label { 2 } else { lp.jump }, ..lp };
                b.push_str(&match kind { "for" => String::new(), "any" => format!("  m[0] > {}\n", lp.v), "all" => format!("  m[0] < {}\n", lp.v), "sift" => "  m[0] + 1\n".into(), _ => "  m[0]\n".into() });
                b.push_str(" }\n");
                if kind == "for" { writeln!(o, " {} push(mut log, [{}, \"v\", 0])", b, k).unwrap() } else { writeln!(o, " x{} := {} push(mut log, [{}, \"v\", x{}])", step, b, k, step).unwrap() }
                w.ops.push(Op::Loop(c, r, lp));
                w.chs[c].ub = usize::MAX / 2;
            }
            11 | 12 => {
                if block.is_some() || threads.len() > 4 { continue; }
                let j = threads.len();
                let mut kn = known.clone();
                let a = v.1.clone();
                let (call, r) = worker(&mut w, s, &mut kn, &a, 0, &mut texts);
                writeln!(o, " t{} := {}", j, call).unwrap();
                threads.push(Thread { name: format!("t{}", j), known: kn, want: r, joined: false });
            }
            13 => {
                let c: Vec<usize> = (0..threads.len()).filter(|&i| !threads[i].joined).collect();
                if c.is_empty() { continue; }
                let t = *s.pick(&c);
                finish(&mut w, &mut o, &mut threads[t], &mut known);
            }
            14 => set_var(s, &mut o, " ", &mut v),
            _ => {
                if s.bool() { writeln!(o, " sleep(0.000{})", s.below(3)).unwrap(); continue; }
                if block.is_some() || consumers.len() > 1 { continue; }
                let Some(c) = chan(&w, s) else { continue };
                if w.chs[c].ub > 0 { continue; }
                w.chs[c].exclusive = true;
                writeln!(o, " u{} := go consume({}, @{}@)", c, w.chs[c].name, c).unwrap();
                consumers.push((c, 0));
            }
        }
    }
    if let Some(c) = block.take() { w.chs[c].closed = true; o.push_str(" }\n"); }
    for t in 0..threads.len() { if !threads[t].joined { finish(&mut w, &mut o, &mut threads[t], &mut known) } }
    for (c, _) in &consumers {
        let n = (0..w.evs.len()).filter(|&e| w.certain(&w.chs[*c], e)).count();
        o = o.replace(&format!("@{}@", c), &n.to_string());
        let k = w.ops.len();
        writeln!(o, " push(mut log, [{}, join(thread: u{})])", k, c).unwrap();
        w.ops.push(Op::Consume(*c));
        w.chs[*c].live = true;
    }
    // Drain everything that is still open.
    for c in 0..w.chs.len() {
        if w.chs[c].closed { continue; }
        let k = w.ops.len();
        let r = w.event(&mut known, None, V::Void);
        writeln!(o, " for m in {} {{\n  push(mut log, [{}, clone(m)])\n }}\n push(mut log, [{}, \"v\", 0])", w.chs[c].name, k, k).unwrap();
        w.ops.push(Op::Loop(c, r, Lp { kind: "for", jump: 0, x: 0.0, v: 0.0 }));
    }
    writeln!(o, " push(mut log, [{}, clone(v)])\n return clone(log)\n}}", w.ops.len()).unwrap();
    w.ops.push(Op::Val(V::Arr(v.1.iter().map(|x| V::Num(*x)).collect())));

    let lib: String = (0..nf).map(|i| w.fun_text(i)).collect();
    let mut main = String::new();
    for t in &texts { main.push_str(t) }
    main.push_str(RECV);
    main.push_str(&o);
    let desc = match mode {
        0 | 1 => format!("{}{}", lib, main),
        _ => format!("// module lib{}\n{}\n// module main{}\n{}", if mode == 3 { " (ns lib)" } else { "" }, lib, if mode == 3 { " (use lib as q; own functions of the same names)" } else { "" }, main),
    };
    if std::env::var("SHOW_SRC").is_ok() { eprintln!("{}", desc); }
    let mut out = Outcome::of(desc);
    out.label(["one source", "one source", "imported module", "module behind a namespace"][mode as usize]);
    if !threads.is_empty() { out.label("threads") }
    if !consumers.is_empty() { out.label("consumer thread") }
    out.nontrivial = !w.chs.is_empty() && w.evs.iter().filter(|e| e.f.is_some()).count() >= 3;
    let m = match mode {
        0 | 1 => dy::load(&format!("{}{}", lib, main)),
        _ => {
            let l = match dy::load(&format!("{}{}", if mode == 3 { "ns lib\n" } else { "" }, lib)) { Ok(Ok(m)) => m, x => { out.fail(format!("the library module did not load: {:?}", x.map(|x| x.map(|_| ())))); return out } };
            let mut m = dyon::Module::empty();
            m.import(&l);
            if mode == 3 {
                // The same names in the main module stay away from the aliased ones.
                let mut t = String::from("use lib as q\n");
                for i in 0..nf { write!(t, "fn f{}(id) -> any {{\n return \"other\"\n}}\n", i).unwrap(); }
                let body = qualify(&main, nf);
                t.push_str(&body);
                dy::load_in(m, "main.dyon", &t)
            } else { dy::load_in(m, "main.dyon", &main) }
        }
    };
    let m = match m {
        Err(p) => { out.fail(format!("panic while loading: {}", p)); return out }
        Ok(Err(e)) => { out.fail(format!("the program is well-formed but was rejected: {}", e)); return out }
        Ok(Ok(m)) => m,
    };
    match timed(m) {
        None => out.fail("the program did not finish: a message or thread was lost"),
        Some(Res::Ok(V::Arr(log))) => if let Err(e) = judge(&w, &log) { out.fail(format!("{}\nlog: {:?}", e, log)) },
        Some(r) => out.fail(format!("expected the program to finish, got {:?}", r)),
    }
    out
}
/// `f0(` becomes `q::f0(` at calls.
fn qualify(t: &str, nf: usize) -> String {
    let mut r = t.to_string();
    for i in 0..nf {
        for p in [" ", "("] { r = r.replace(&format!("{}f{}(", p, i), &format!("{}q::f{}(", p, i)); }
    }
    r
}
fn chan(w: &W, s: &mut Src) -> Option<usize> {
    let c: Vec<usize> = (0..w.chs.len()).filter(|&i| !w.chs[i].closed && !w.chs[i].exclusive && w.chs[i].live).collect();
    if c.is_empty() { None } else { Some(*s.pick(&c)) }
}
fn finish(w: &mut W, o: &mut String, t: &mut Thread, known: &mut Bits) {
    let k = w.ops.len();
    writeln!(o, " push(mut log, [{}, join(thread: {})])", k, t.name).unwrap();
    t.joined = true;
    join(known, &t.known);
    w.ops.push(Op::Join(t.want.clone()));
}
fn timed(m: Arc<dyon::Module>) -> Option<Res> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let _ = tx.send(dy::call(&mut dyon::Runtime::new(), &m, "start", &[], false)); }).unwrap();
    rx.recv_timeout(std::time::Duration::from_secs(60)).ok()
}
fn judge(w: &W, log: &[V]) -> Result<(), String> {
    let mut got: Vec<Vec<&V>> = vec![vec![]; w.ops.len()];
    let mut order = vec![];
    for e in log {
        let V::Arr(a) = e else { return Err("log entry".into()) };
        let V::Num(k) = a[0] else { return Err("log entry".into()) };
        if order.last() != Some(&(k as usize)) { order.push(k as usize) }
        got[k as usize].push(e);
    }
    // Received events per channel, in order.
    let mut recv: Vec<Vec<usize>> = vec![vec![]; w.chs.len()];
    let at = |v: &V, i: usize| -> V { match v { V::Arr(a) => a[i].clone(), _ => V::Void } };
    fn take(w: &W, recv: &mut Vec<Vec<usize>>, c: usize, r: Option<usize>, m: &V) -> Result<(), String> {
        let ch = &w.chs[c];
        let Some(e) = (0..w.evs.len()).find(|&e| w.evs[e].f == Some(ch.f) && w.evs[e].msg.same(m)) else { return Err(format!("channel {} gave a message {:?} that no call sent", ch.name, m)) };
        if has(&w.evs[ch.open].pred, e) { return Err(format!("channel {} gave {:?}, sent before it was opened", ch.name, m)) }
        if recv[c].contains(&e) { return Err(format!("channel {} gave {:?} twice", ch.name, m)) }
        if let Some(r) = r { if has(&w.evs[e].pred, r) { return Err(format!("channel {} gave {:?} before it was sent", ch.name, m)) } }
        for &b in &recv[c] { if has(&w.evs[b].pred, e) { return Err(format!("channel {} gave {:?} after the later {:?}", ch.name, m, w.evs[b].msg)) } }
        recv[c].push(e);
        Ok(())
    }
    fn empty(w: &W, recv: &Vec<Vec<usize>>, c: usize, known: &Bits) -> Result<(), String> {
        for e in 0..w.evs.len() {
            if has(known, e) && w.certain(&w.chs[c], e) && !recv[c].contains(&e) { return Err(format!("channel {} was empty although {:?} was sent and not received", w.chs[c].name, w.evs[e].msg)) }
        }
        Ok(())
    }
    for (k, op) in w.ops.iter().enumerate() {
        let g = &got[k];
        match op {
            Op::Val(v) => { if g.len() != 1 || !progs::agree(v, &at(g[0], 1)) { return Err(format!("step {}: expected {:?}, got {:?}", k, v, g)) } }
            Op::Join(v) => {
                let want = match v { Some(v) => V::Ok(Box::new(v.clone())), None => V::Err(Box::new(V::str(crate::model::ERR))) };
                if g.len() != 1 || !progs::agree(&want, &at(g[0], 1)) { return Err(format!("step {}: join: expected {:?}, got {:?}", k, want, g)) }
            }
            Op::One(c, r, wait) => {
                if g.len() != 1 { return Err(format!("step {}: {:?}", k, g)) }
                match at(g[0], 1) {
                    V::Some(m) => take(w, &mut recv, *c, Some(*r), &m)?,
                    V::None => { if *wait { return Err("wait_next gave none".into()) } empty(w, &recv, *c, &w.evs[*r].pred)? }
                    x => return Err(format!("step {}: next gave {:?}", k, x)),
                }
            }
            Op::Consume(c) => {
                if g.len() != 1 { return Err(format!("step {}: {:?}", k, g)) }
                let V::Ok(a) = at(g[0], 1) else { return Err(format!("step {}: consumer gave {:?}", k, g)) };
                let V::Arr(a) = *a else { return Err("consumer".into()) };
                for x in a { match x { V::Some(m) => take(w, &mut recv, *c, None, &m)?, x => return Err(format!("wait_next gave {:?}", x)) } }
            }
            Op::Loop(c, r, lp) => {
                let Some((last, msgs)) = g.split_last() else { return Err(format!("step {}: no entries", k)) };
                let mut acc: Vec<f64> = vec![];
                let mut ended = false;
                let mut dec = None;
                for m in msgs {
                    if ended { return Err(format!("step {}: loop went on after it had ended", k)) }
                    let m = at(m, 1);
                    take(w, &mut recv, *c, Some(*r), &m)?;
                    let V::Num(x) = at(&m, 0) else { return Err("id".into()) };
                    if x > lp.x { if lp.jump == 2 { ended = true; continue } if lp.jump == 3 { continue } }
                    match lp.kind { "any" if x > lp.v => { dec = Some(true); ended = true } "all" if !(x < lp.v) => { dec = Some(false); ended = true } _ => {} }
                    acc.push(x);
                }
                if !ended { empty(w, &recv, *c, &w.evs[*r].pred)? }
                let want = match lp.kind {
                    "for" => V::Num(0.0), "sum" => V::Num(acc.iter().fold(0.0, |a, b| a + b)), "prod" => V::Num(acc.iter().fold(1.0, |a, b| a * b)),
                    "min" => V::Num(acc.iter().fold(f64::NAN, |a, b| a.min(*b))), "max" => V::Num(acc.iter().fold(f64::NAN, |a, b| a.max(*b))),
                    "sift" => V::Arr(acc.iter().map(|x| V::Num(x + 1.0)).collect()),
                    _ => V::Bool(dec.unwrap_or(lp.kind == "all")),
                };
                if !want.same(&at(last, 2)) { return Err(format!("step {}: {} over {:?} gave {:?}, expected {:?}", k, lp.kind, acc, at(last, 2), want)) }
            }
        }
    }
    // What is sent after a delivered message is delivered too.
    for (c, ch) in w.chs.iter().enumerate() {
        if ch.closed { continue; }
        for e in 0..w.evs.len() {
            if w.evs[e].f != Some(ch.f) || recv[c].contains(&e) { continue; }
            if w.certain(ch, e) { return Err(format!("channel {} lost {:?}", ch.name, w.evs[e].msg)) }
            if recv[c].iter().any(|&b| has(&w.evs[e].pred, b)) { return Err(format!("channel {} lost {:?}, sent after a delivered one", ch.name, w.evs[e].msg)) }
        }
    }
    Ok(())
}

fn spawned(s: &mut Src) -> Outcome {
    let prof = match s.below(4) { 0 => progs::flow(), 1 => progs::refs(), 2 => progs::errs(), _ => progs::clos() };
    let (prog, tys) = { let mut g = G::new(s, prof); g.program() };
    let args: Vec<V> = tys.iter().map(|t| arg_value(s, t)).collect();
    let args2: Vec<V> = tys.iter().map(|t| arg_value(s, t)).collect();
    let mut src = lang::text(&prog);
    let ps: Vec<String> = tys.iter().enumerate().map(|(i, t)| format!("a{}: {}, b{}: {}", i, t.text(), i, t.text())).collect();
    let two = s.bool();
    let form = s.below(3);
    write!(src, "fn spawned({}) -> [] {{\n", ps.join(", ")).unwrap();
    let n = tys.len();
    for i in 0..n { writeln!(src, " v{} := clone(a{})\n u{} := clone(b{})", i, i, i, i).unwrap(); }
    let vs = |p: &str| (0..n).map(|i| format!("{}{}", p, i)).collect::<Vec<_>>().join(", ");
    match form {
        0 => { writeln!(src, " t := go start({})", vs("v")).unwrap(); }
        1 => { writeln!(src, " t := {{\n  go start({})\n }}", vs("v")).unwrap(); }
        _ => { writeln!(src, " ts := sift i 1 {{\n  go start({})\n }}", vs("v")).unwrap(); }
    }
    if two { writeln!(src, " r := go start({})", vs("u")).unwrap(); }
    // The spawner goes on to change its variables.
    for i in 0..n { if s.bool() { writeln!(src, " v{} = clone(u{})", i, i).unwrap(); } }
    let changed: Vec<bool> = (0..n).map(|i| src.contains(&format!(" v{} = clone(u{})\n", i, i))).collect();
    let second = two && s.bool();
    if second { src.push_str(" y := join(thread: r)\n"); }
    if form == 2 { src.push_str(" t := pop(mut ts)\n x := join(thread: t)\n"); } else { src.push_str(" x := join(thread: t)\n"); }
    if two && !second { src.push_str(" y := join(thread: r)\n"); }
    src.push_str(&format!(" return [clone(x){}{}]\n}}\n", if two { ", clone(y)" } else { "" }, (0..n).map(|i| format!(", clone(v{}), clone(u{})", i, i)).collect::<String>()));
    if std::env::var("SHOW_SRC").is_ok() { eprintln!("{}", src); }
    let mut o = Outcome::of(src.clone());
    o.label("go/join of a generated function");
    let want = |a: &[V]| {
        let ran = progs::run_model(&prog, "start", a, true);
        match ran.want { Ok(v) => Some((V::Ok(Box::new(v)), ran.steps)), Err(Stop::Fail(_)) => Some((V::Err(Box::new(V::str(crate::model::ERR))), ran.steps)), _ => None }
    };
    let Some((w1, n1)) = want(&args) else { o.discard = true; return o };
    let Some((w2, _)) = want(&args2) else { o.discard = true; return o };
    let mut w = vec![w1];
    if two { w.push(w2) }
    for i in 0..n { w.push(if changed[i] { args2[i].clone() } else { args[i].clone() }); w.push(args2[i].clone()); }
    let w = V::Arr(w);
    let call: Vec<V> = args.iter().zip(&args2).flat_map(|(a, b)| [a.clone(), b.clone()]).collect();
    o.nontrivial = n1 > 25;
    match dy::run_fn(&src, "spawned", &call, 5000, true).0 {
        Res::Ok(g) if progs::agree(&w, &g) => {}
        r => o.fail(format!("spawned({:?})\nexpected {:?}\ngot {:?}", call, w, r)),
    }
    o
}

/// Loops over channels in one thread, nested, with labels, against a model of their meaning.
mod loops {
    use super::*;
    use std::collections::VecDeque;
    #[derive(Clone, Debug)]
    pub enum Jump { Break(Option<String>), Continue(Option<String>), Return }
    #[derive(Clone, Debug)]
    pub enum St { Log(usize, String), Jump(String, f64, Jump), Loop(Box<Lo>), Send(String, f64, f64, usize), Bind(String, Box<Lo>), Why(usize, String) }
    #[derive(Clone, Debug)]
    pub enum Fin { None, Expr(String, u8, f64), Loop(Box<Lo>) }
    #[derive(Clone, Debug)]
    pub struct Lo { pub kind: &'static str, pub label: Option<String>, pub ch: usize, pub var: String, pub body: Vec<St>, pub fin: Fin, items: Vec<It> }
    #[derive(Clone, Debug)]
    pub enum It { Text(&'static str), Var(String), Jump(String, f64, Jump), Loop(Box<Lo>) }
    pub type Sec = Option<Vec<f64>>;
    #[derive(Clone, Debug)]
    pub enum Val { N(f64, Sec), B(bool, Sec), A(Vec<f64>), L(String) }
    pub enum Flow { Go, Break(String), Continue(String), Return }
    pub struct G<'a> { pub s: &'a mut Src, pub n: usize, pub fuel: i32, pub labels: Vec<&'static str> }
    const NUM: &[&str] = &["sum", "prod", "min", "max"];
    impl<'a> G<'a> {
        fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
        fn jump(&mut self, vis: &[String]) -> Jump {
            let l = if !vis.is_empty() && self.s.below(2) > 0 { Some(vis[self.s.us(vis.len())].clone()) } else { None };
            if l.is_some() { self.labels.push("labelled jump"); }
            match self.s.below(9) { 0 => Jump::Return, 1..=4 => Jump::Break(l), _ => Jump::Continue(l) }
        }
        fn c(&mut self) -> f64 { self.s.below(6) as f64 }
        pub fn lo(&mut self, kind: &'static str, d: usize, vis: &[String]) -> Lo {
            self.fuel -= 1;
            let label = if self.s.below(3) > 0 { Some(self.fresh("l")) } else { None };
            let mut v2 = vis.to_vec();
            v2.extend(label.clone());
            let var = self.fresh("m");
            let ch = self.s.us(2);
            let mut o = Lo { kind, label, ch, var: var.clone(), body: vec![], fin: Fin::None, items: vec![] };
            if kind == "link" {
                for _ in 0..1 + self.s.us(4) {
                    let it = match self.s.below(7) {
                        0 | 1 => It::Text(*self.s.pick(&["a", "-", "xy"])),
                        2 | 3 => It::Var(var.clone()),
                        4 | 5 => { let c = self.c(); It::Jump(var.clone(), c, self.jump(&v2)) }
                        _ if d > 0 && self.fuel > 0 => It::Loop(Box::new(self.lo("link", d - 1, &v2))),
                        _ => It::Var(var.clone()),
                    };
                    o.items.push(it);
                }
                return o;
            }
            o.body = self.body(d, &v2, Some(&var));
            let num = NUM.contains(&kind) || kind == "sift";
            o.fin = if kind == "for" { Fin::None } else if d > 0 && self.fuel > 0 && self.s.below(3) == 0 {
                let k = if num { NUM[self.s.us(4)] } else { *self.s.pick(&["any", "all"]) };
                self.labels.push("nested value loop");
                Fin::Loop(Box::new(self.lo(k, d - 1, &v2)))
            } else { let c = self.c(); Fin::Expr(var, self.s.below(3) as u8, c) };
            o
        }
        pub fn body(&mut self, d: usize, vis: &[String], var: Option<&String>) -> Vec<St> {
            let mut r = vec![];
            for _ in 0..self.s.us(4) + var.is_none() as usize {
                self.fuel -= 1;
                match (self.s.below(8), var) {
                    (0, Some(v)) => { let k = { self.n += 1; self.n }; r.push(St::Log(k, v.clone())) }
                    (1 | 2, Some(v)) => { let c = self.c(); r.push(St::Jump(v.clone(), c, self.jump(vis))) }
                    (3, Some(v)) => { let (c, x) = (self.s.below(3) as f64, self.s.us(2)); let add = 1.0 + self.s.below(3) as f64; r.push(St::Send(v.clone(), c, add, x)) }
                    (4 | 5, _) if d > 0 && self.fuel > 0 => { let l = self.lo("for", d - 1, vis); r.push(St::Loop(Box::new(l))) }
                    (_, _) if d > 0 && self.fuel > 0 => {
                        let k = *self.s.pick(&["sum", "prod", "min", "max", "any", "all", "sift", "link", "min", "max", "any", "all"]);
                        let l = self.lo(k, d - 1, &[]);
                        let x = self.fresh("x");
                        r.push(St::Bind(x.clone(), Box::new(l)));
                        r.push(St::Log({ self.n += 1; self.n }, x.clone()));
                        if matches!(k, "min" | "max" | "any" | "all") { r.push(St::Why({ self.n += 1; self.n }, x)) }
                    }
                    _ => {}
                }
            }
            r
        }
    }
    fn jt(j: &Jump) -> String {
        let l = |l: &Option<String>| l.as_ref().map_or(String::new(), |l| format!(" '{}", l));
        match j { Jump::Break(x) => format!("break{}", l(x)), Jump::Continue(x) => format!("continue{}", l(x)), Jump::Return => "return clone(log)".into() }
    }
    pub fn st_text(st: &[St], ind: usize, kinds: &mut std::collections::HashMap<String, &'static str>) -> String {
        let p = " ".repeat(ind);
        let mut o = String::new();
        for s in st {
            match s {
                St::Log(k, v) => { if v.starts_with('m') { writeln!(o, "{}push(mut log, [{}, clone({}[0])])", p, k, v).unwrap() } else if kinds.get(v) == Some(&"link") { writeln!(o, "{}push(mut log, [{}, str({})])", p, k, v).unwrap() } else { writeln!(o, "{}push(mut log, [{}, clone({})])", p, k, v).unwrap() } }
                St::Jump(v, c, j) => writeln!(o, "{}if {}[0] == {} {{\n{} {}\n{}}}", p, v, c, p, jt(j), p).unwrap(),
                St::Send(v, c, a, f) => writeln!(o, "{}if {}[0] < {} {{\n{} f{}({}[0] + {})\n{}}}", p, v, c, p, f, v, a, p).unwrap(),
                St::Loop(l) => writeln!(o, "{}{}", p, lo_text(l, ind, kinds)).unwrap(),
                St::Bind(x, l) => { kinds.insert(x.clone(), l.kind); writeln!(o, "{}{} := {}", p, x, lo_text(l, ind, kinds)).unwrap() }
                St::Why(k, x) => {
                    let f = match kinds[x] { "any" => format!("why({})", x), "all" => format!("why(!{})", x), _ => format!("where({})", x) };
                    writeln!(o, "{}w{} := try {}\n{}push(mut log, [{}, clone(w{})])", p, k, f, p, k, k).unwrap()
                }
            }
        }
        o
    }
    fn lo_text(l: &Lo, ind: usize, kinds: &mut std::collections::HashMap<String, &'static str>) -> String {
        let p = " ".repeat(ind + 1);
        let mut o = format!("{}{} {} in c{} {{\n", l.label.as_ref().map_or(String::new(), |l| format!("'{}: ", l)), l.kind, l.var, l.ch);
        o += &st_text(&l.body, ind + 1, kinds);
        for it in &l.items {
            match it {
                It::Text(t) => writeln!(o, "{}\"{}\"", p, t).unwrap(),
                It::Var(v) => writeln!(o, "{}{}[0]", p, v).unwrap(),
                It::Jump(v, c, j) => writeln!(o, "{}if {}[0] == {} {{\n{} {}\n{}}}", p, v, c, p, jt(j), p).unwrap(),
                It::Loop(l) => writeln!(o, "{}{}", p, lo_text(l, ind + 1, kinds)).unwrap(),
            }
        }
        match &l.fin {
            Fin::None => {}
            Fin::Expr(v, k, c) => {
                let e = if matches!(l.kind, "any" | "all") { match k { 0 => format!("{}[0] == {}", v, c), 1 => format!("{}[0] < {}", v, c), _ => format!("{}[0] > {}", v, c) } }
                    else { match k { 0 => format!("{}[0] + 0", v), 1 => format!("{}[0] % 2", v), _ => format!("{} - {}[0]", c, v) } };
                writeln!(o, "{}{}", p, e).unwrap()
            }
            Fin::Loop(l) => writeln!(o, "{}{}", p, lo_text(l, ind + 1, kinds)).unwrap(),
        }
        o + &" ".repeat(ind) + "}"
    }
    pub struct M { pub ch: Vec<VecDeque<f64>>, pub log: Vec<V>, pub vars: std::collections::HashMap<String, Val>, pub steps: usize }
    fn secv(s: &Sec) -> Option<V> { s.as_ref().map(|s| V::Arr(s.iter().rev().map(|x| V::Arr(vec![V::Num(*x)])).collect())) }
    impl M {
        fn num(&self, v: &str) -> f64 { match &self.vars[v] { Val::N(x, _) => *x, _ => unreachable!() } }
        fn jump(&self, v: &str, c: f64, j: &Jump) -> Option<Flow> {
            if self.num(v) != c { return None; }
            Some(match j { Jump::Return => Flow::Return, Jump::Break(l) => Flow::Break(l.clone().unwrap_or_default()), Jump::Continue(l) => Flow::Continue(l.clone().unwrap_or_default()) })
        }
        pub fn run(&mut self, st: &[St]) -> Flow {
            for s in st {
                self.steps += 1;
                match s {
                    St::Log(k, v) => { let x = match &self.vars[v] { Val::N(x, _) => V::Num(*x), Val::B(x, _) => V::Bool(*x), Val::A(a) => V::Arr(a.iter().map(|x| V::Num(*x)).collect()), Val::L(t) => V::str(t) }; self.log.push(V::Arr(vec![V::Num(*k as f64), x])) }
                    St::Jump(v, c, j) => if let Some(f) = self.jump(v, *c, j) { return f },
                    St::Send(v, c, a, f) => { let x = self.num(v); if x < *c { self.ch[*f].push_back(x + a) } }
                    St::Loop(l) => match self.lo(l) { (_, Flow::Go) => {} (_, f) => return f },
                    St::Bind(x, l) => match self.lo(l) { (v, Flow::Go) => { self.vars.insert(x.clone(), v); } (_, f) => return f },
                    St::Why(k, x) => {
                        // `why` and `where` tell which messages decided, outermost first.
                        let r = match &self.vars[x] { Val::N(n, s) if !n.is_nan() => secv(s), Val::N(..) => None, Val::B(_, s) => secv(s), _ => None };
                        self.log.push(V::Arr(vec![V::Num(*k as f64), match r { Some(v) => V::Ok(Box::new(v)), None => V::Err(Box::new(V::str(crate::model::ERR))) }]));
                    }
                }
            }
            Flow::Go
        }
        /// The value of the loop and where control goes on.
        fn lo(&mut self, l: &Lo) -> (Val, Flow) {
            let (mut num, mut sec, mut b, mut arr, mut txt): (f64, Sec, bool, Vec<f64>, String) = (match l.kind { "sum" => 0.0, "prod" => 1.0, _ => f64::NAN }, None, l.kind == "all", vec![], String::new());
            let own = |x: &str| x.is_empty() || l.label.as_deref() == Some(x);
            let mut flow = Flow::Go;
            while let Some(m) = self.ch[l.ch].pop_front() {
                self.vars.insert(l.var.clone(), Val::N(m, None));
                let f = 'it: {
                    match self.run(&l.body) { Flow::Go => {} f => break 'it f }
                    for it in &l.items {
                        match it {
                            It::Text(t) => txt += t,
                            It::Var(v) => txt += &format!("{}", self.num(v)),
                            It::Jump(v, c, j) => if let Some(f) = self.jump(v, *c, j) { break 'it f },
                            It::Loop(n) => match self.lo(n) { (Val::L(t), Flow::Go) => txt += &t, (_, f) => break 'it f },
                        }
                    }
                    let v = match &l.fin {
                        Fin::None => break 'it Flow::Go,
                        Fin::Expr(v, k, c) => { let x = self.num(v); if matches!(l.kind, "any" | "all") { Val::B(match k { 0 => x == *c, 1 => x < *c, _ => x > *c }, None) } else { Val::N(match k { 0 => x, 1 => x % 2.0, _ => c - x }, None) } }
                        Fin::Loop(n) => match self.lo(n) { (v, Flow::Go) => v, (_, f) => break 'it f },
                    };
                    let with = |s: Sec| { let mut s = s.unwrap_or_default(); s.push(m); Some(s) };
                    match (l.kind, v) {
                        ("sum", Val::N(x, _)) => num += x,
                        ("prod", Val::N(x, _)) => num *= x,
                        ("min", Val::N(x, s)) => if num.is_nan() || num > x { num = x; sec = with(s) },
                        ("max", Val::N(x, s)) => if num.is_nan() || num < x { num = x; sec = with(s) },
                        ("sift", Val::N(x, _)) => arr.push(x),
                        ("any", Val::B(x, s)) => if x { b = true; sec = with(s); break 'it Flow::Break(String::new()) },
                        ("all", Val::B(x, s)) => if !x { b = false; sec = with(s); break 'it Flow::Break(String::new()) },
                        _ => unreachable!(),
                    }
                    Flow::Go
                };
                match f {
                    Flow::Go => {}
                    Flow::Break(x) => { if !own(&x) { flow = Flow::Break(x) } break }
                    Flow::Continue(x) => if !own(&x) { flow = Flow::Continue(x); break },
                    Flow::Return => { flow = Flow::Return; break }
                }
            }
            (match l.kind { "any" | "all" => Val::B(b, sec), "sift" => Val::A(arr), "link" => Val::L(txt), _ => Val::N(num, sec) }, flow)
        }
    }
}
fn chan_loops(s: &mut Src) -> Outcome {
    let mut g = loops::G { s, n: 0, fuel: 14, labels: vec![] };
    let mut src = String::from("fn f0(x: f64) {\n}\nfn f1(x: f64) {\n}\nfn start() -> any {\n log := []\n c0 := in f0\n c1 := in f1\n");
    let mut m = loops::M { ch: vec![Default::default(); 2], log: vec![], vars: Default::default(), steps: 0 };
    let mut kinds = Default::default();
    let mut ret = false;
    for _ in 0..1 + g.s.us(3) {
        let mut sent = vec![];
        for c in 0..2 { for _ in 0..g.s.us(6) { let x = g.s.below(6) as f64; sent.push((c, x)); } }
        let st = g.body(2, &[], None);
        for (c, x) in sent { writeln!(src, " f{}({})", c, x).unwrap(); if !ret { m.ch[c].push_back(x) } }
        src += &loops::st_text(&st, 1, &mut kinds);
        if !ret { match m.run(&st) { loops::Flow::Go => {} loops::Flow::Return => ret = true, _ => unreachable!() } }
    }
    src += " return clone(log)\n}\n";
    let labels = std::mem::take(&mut g.labels);
    if std::env::var("SHOW_SRC").is_ok() { eprintln!("{}", src); }
    let mut o = Outcome::of(src.clone());
    o.label("loops over channels in one thread");
    for l in labels { o.label(l) }
    o.nontrivial = m.log.len() >= 3;
    let want = V::Arr(m.log);
    match dy::run_fn(&src, "start", &[], 5000, false).0 {
        Res::Ok(g) if progs::agree(&want, &g) => {}
        r => o.fail(format!("expected {:?}\ngot {:?}", want, r)),
    }
    o
}
fn case(s: &mut Src, _: &Cfg) -> Outcome { match s.below(5) { 0 | 1 => history(s), 2 => spawned(s), _ => chan_loops(s) } }
pub fn check() -> Check { Check { id: "C14", quick: 6_000, thorough: 2_000_000, case, rule: "a history with a channel and at least three calls, a spawned function of more than 25 model steps, or at least three observations of loops over channels", probes: no_probes, assumptions: &["schedules are those the operating system and generated sleeps produce; the verdict holds for any schedule"] } }
