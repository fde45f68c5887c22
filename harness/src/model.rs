//! Reference interpreter for the syntax trees of `lang`.
//!
//! Written over an arena of cells that is never reclaimed, so a reference cannot dangle here:
//! any dangling or misdirected reference in the code under test shows up as a difference.
use crate::dy::V;
use crate::lang::*;
use std::collections::BTreeMap;
use std::rc::Rc;

type Sec = Option<Rc<Vec<M>>>;

#[derive(Clone, Debug)]
pub enum M {
    Void,
    Bool(bool, Sec),
    Num(f64, Sec),
    Str(Rc<String>),
    Vec4([f32; 4]),
    Mat4([[f32; 4]; 4]),
    Arr(Rc<Vec<M>>),
    Obj(Rc<BTreeMap<String, M>>),
    Link(Rc<Vec<M>>),
    None,
    Some(Box<M>),
    Ok(Box<M>),
    Err(Box<M>),
    Clo(Rc<CloVal>),
    Ref(usize),
}
#[derive(Debug)]
pub struct CloVal { args: Vec<String>, currents: Vec<String>, body: E, consts: Vec<M> }

#[derive(Clone, Debug, PartialEq)]
pub enum Flow { Cont, Ret, Brk(Option<String>), Next(Option<String>) }

/// Why evaluation stopped.
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// A run-time error.
    Fail(String),
    /// More steps than the model allows.
    Budget,
    /// The program does something the model does not define.
    Undefined(String),
}
type R<T> = Result<T, Stop>;
type Ev = R<(Option<M>, Flow)>;

pub const ERR: &str = "\u{1}run-time error text";

struct Frame { vars: Vec<(String, usize)>, ret: bool, consts: Rc<CloVal> }

pub struct Model<'a> {
    prog: &'a Prog,
    cells: Vec<M>,
    frames: Vec<Frame>,
    currents: Vec<(String, usize)>,
    pub log: Vec<V>,
    pub steps: u64,
    pub budget: u64,
    pub log_limit: usize,
    empty: Rc<CloVal>,
    depth: usize,
    /// Features that were exercised.
    pub seen: std::collections::BTreeSet<&'static str>,
}

fn fail<T>(s: &str) -> R<T> { Err(Stop::Fail(s.into())) }
fn undef<T>(s: &str) -> R<T> { Err(Stop::Undefined(s.into())) }

pub fn from_v(v: &V) -> M {
    match v {
        V::Void | V::Other(_) => M::Void,
        V::Bool(b) => M::Bool(*b, None),
        V::Num(x) => M::Num(*x, None),
        V::Str(s) => M::Str(Rc::new(s.clone())),
        V::Vec4(x) => M::Vec4(*x),
        V::Mat4(x) => M::Mat4(*x),
        V::Arr(a) => M::Arr(Rc::new(a.iter().map(from_v).collect())),
        V::Obj(o) => M::Obj(Rc::new(o.iter().map(|(k, v)| (k.clone(), from_v(v))).collect())),
        V::Link(l) => M::Link(Rc::new(l.iter().map(from_v).collect())),
        V::None => M::None,
        V::Some(x) => M::Some(Box::new(from_v(x))),
        V::Ok(x) => M::Ok(Box::new(from_v(x))),
        V::Err(x) => M::Err(Box::new(from_v(x))),
        V::Sec(x, s) => { let s = Some(Rc::new(s.iter().map(from_v).collect::<Vec<_>>())); match from_v(x) { M::Bool(b, _) => M::Bool(b, s), M::Num(n, _) => M::Num(n, s), x => x } }
    }
}

impl<'a> Model<'a> {
    pub fn new(prog: &'a Prog) -> Model<'a> {
        Model { prog, cells: vec![], frames: vec![], currents: vec![], log: vec![], steps: 0, budget: 20_000, log_limit: 400, depth: 0,
            empty: Rc::new(CloVal { args: vec![], currents: vec![], body: E::Bool(true), consts: vec![] }), seen: Default::default() }
    }
    fn cell(&mut self, m: M) -> usize { self.cells.push(m); self.cells.len() - 1 }
    fn get(&self, m: &M) -> M { match m { M::Ref(c) => self.cells[*c].clone(), m => m.clone() } }
    pub fn deep(&self, m: &M) -> M {
        match m {
            M::Ref(c) => self.deep(&self.cells[*c]),
            M::Arr(a) => M::Arr(Rc::new(a.iter().map(|x| self.deep(x)).collect())),
            M::Obj(o) => M::Obj(Rc::new(o.iter().map(|(k, x)| (k.clone(), self.deep(x))).collect())),
            m => m.clone(),
        }
    }
    pub fn to_v(&self, m: &M, sec: bool) -> V {
        let f = |x: &M| self.to_v(x, sec);
        let w = |v: V, s: &Sec| match s { Some(s) if sec => V::Sec(Box::new(v), s.iter().map(|x| f(x)).collect()), _ => v };
        match m {
            M::Void => V::Other("return"),
            M::Bool(b, s) => w(V::Bool(*b), s),
            M::Num(x, s) => w(V::Num(*x), s),
            M::Str(s) => V::Str((**s).clone()),
            M::Vec4(x) => V::Vec4(*x),
            M::Mat4(x) => V::Mat4(*x),
            M::Arr(a) => V::Arr(a.iter().map(f).collect()),
            M::Obj(o) => V::Obj(o.iter().map(|(k, x)| (k.clone(), f(x))).collect()),
            M::Link(l) => V::Link(l.iter().map(f).collect()),
            M::None => V::None,
            M::Some(x) => V::Some(Box::new(f(x))),
            M::Ok(x) => V::Ok(Box::new(f(x))),
            M::Err(x) => V::Err(Box::new(f(x))),
            M::Clo(_) => V::Other("closure"),
            M::Ref(c) => f(&self.cells[*c]),
        }
    }
    fn emit(&mut self, v: V) -> R<()> {
        self.log.push(v);
        if self.log.len() > self.log_limit { return Err(Stop::Budget); }
        Ok(())
    }
    fn tick(&mut self) -> R<()> { self.steps += 1; if self.steps > self.budget { Err(Stop::Budget) } else { Ok(()) } }

    /// Calls a function by name with plain values.
    pub fn run(&mut self, f: &str, args: &[V]) -> R<V> { self.run_sec(f, args, true) }
    pub fn run_sec(&mut self, f: &str, args: &[V], sec: bool) -> R<V> {
        let args: Vec<M> = args.iter().map(from_v).collect();
        let i = match self.prog.funs.iter().position(|x| x.name == f) { Some(i) => i, None => return undef("function") };
        let f = &self.prog.funs[i];
        for (p, v) in f.params.iter().zip(&args) { if let Some(r) = lazy_hit(p, v) { self.seen.insert("lazy hit"); return Ok(self.to_v(&r, sec)); } }
        match self.invoke(i, args)? { Some(m) => Ok(self.to_v(&m, sec)), None => Ok(V::Void) }
    }
    fn invoke(&mut self, i: usize, args: Vec<M>) -> R<Option<M>> {
        let prog = self.prog;
        let f: &'a Fun = &prog.funs[i];
        self.tick()?;
        if self.depth > 60 { return Err(Stop::Budget); }
        let ret = f.ret.is_some() || f.short;
        let mut vars = vec![];
        for (_, c) in &f.currents {
            match self.currents.iter().rev().find(|x| &x.0 == c) {
                Some(&(_, cell)) => { vars.push((c.clone(), cell)); self.seen.insert("current"); }
                None => return fail("no current object"),
            }
        }
        let slot = self.cell(M::Void);
        if ret { vars.push(("return".to_string(), slot)); }
        for (p, a) in f.params.iter().zip(args) { let c = self.cell(a); vars.push((p.name.clone(), c)); }
        let cl = self.currents.len();
        let e = self.empty.clone();
        self.frames.push(Frame { vars, ret, consts: e });
        self.depth += 1;
        let r = self.block(&f.body);
        self.depth -= 1;
        self.frames.pop();
        self.currents.truncate(cl);
        let (x, flow) = r?;
        match flow { Flow::Brk(_) | Flow::Next(_) => return undef("loop control leaves function"), _ => {} }
        match (ret, x) {
            (true, None) => match self.cells[slot].clone() { M::Void => fail("no return value"), x => { self.seen.insert("return="); Ok(Some(x)) } },
            (false, Some(_)) => fail("should not return a value"),
            (_, x) => Ok(x),
        }
    }
    fn lookup(&self, n: &str) -> R<usize> {
        match self.frames.last().unwrap().vars.iter().rev().find(|x| x.0 == n) { Some(x) => Ok(x.1), None => undef(&format!("variable {}", n)) }
    }
    /// The cell a variable denotes.
    fn target(&self, n: &str) -> R<usize> { let c = self.lookup(n)?; Ok(match self.cells[c] { M::Ref(d) => d, _ => c }) }

    fn block(&mut self, b: &[E]) -> Ev {
        let (v, c) = (self.frames.last().unwrap().vars.len(), self.currents.len());
        let mut last = None;
        let mut flow = Flow::Cont;
        for e in b {
            let (x, f) = self.eval(e)?;
            last = x;
            if f != Flow::Cont { flow = f; break; }
        }
        self.frames.last_mut().unwrap().vars.truncate(v);
        self.currents.truncate(c);
        Ok((last, flow))
    }
    /// Evaluates an operand: `Ok(Err(..))` leaves the function.
    fn operand(&mut self, e: &E) -> R<Result<M, (Option<M>, Flow)>> {
        match self.eval(e)? {
            (Some(x), Flow::Cont) => Ok(Ok(x)),
            (x, Flow::Ret) => Ok(Err((x, Flow::Ret))),
            _ => undef("operand without value"),
        }
    }
    fn try_msg(&self, v: &M) -> R<Result<M, M>> {
        let s = |t: &str| M::Str(Rc::new(t.to_string()));
        Ok(match v {
            M::Ok(x) => Ok((**x).clone()),
            M::Err(x) => Err((**x).clone()),
            M::Some(x) => Ok((**x).clone()),
            M::None => Err(s(ERR)),
            M::Bool(true, Some(_)) => Ok(v.clone()),
            M::Bool(..) => Err(s(ERR)),
            M::Num(x, Some(_)) if !x.is_nan() => Ok(v.clone()),
            M::Num(..) => Err(s(ERR)),
            _ => return fail("? on other type"),
        })
    }
    fn question(&mut self, v: &M) -> Ev {
        match self.try_msg(v)? {
            Ok(x) => { self.seen.insert("?ok"); Ok((Some(x), Flow::Cont)) }
            Err(m) => {
                if !self.frames.last().unwrap().ret { return fail("requires ->"); }
                self.seen.insert("?err");
                Ok((Some(M::Err(Box::new(m))), Flow::Ret))
            }
        }
    }

    pub fn eval(&mut self, e: &E) -> Ev {
        self.tick()?;
        macro_rules! op { ($e:expr) => { match self.operand($e)? { Ok(x) => x, Err(r) => return Ok(r) } } }
        macro_rules! val { ($e:expr) => { Ok((Some($e), Flow::Cont)) } }
        match e {
            E::Num(x) => val!(M::Num(*x, None)),
            E::Bool(b) => val!(M::Bool(*b, None)),
            E::Str(s) => val!(M::Str(Rc::new(s.clone()))),
            E::Paren(e) => self.eval(e),
            E::Const(i) => { let m = self.frames.last().unwrap().consts.consts[*i].clone(); val!(m) }
            E::Var(n, ids, _) if ids.is_empty() => { let c = self.target(n)?; val!(M::Ref(c)) }
            E::Var(..) => self.item(e),
            // Components that name a variable are read after all of them are evaluated.
            E::Vec4(v) => {
                let mut xs = vec![];
                for a in v {
                    if xs.len() > 3 { break; }
                    if let E::Swizzle(ix, a) = a {
                        let a = op!(a);
                        match self.get(&a) { M::Vec4(q) => for &i in ix { xs.push(M::Num(q[i] as f64, None)) }, _ => return fail("swizzle") }
                    } else {
                        let a = op!(a);
                        xs.push(a);
                    }
                }
                while xs.len() < 4 { xs.push(M::Num(0.0, None)) }
                if xs.len() != 4 { return undef("vec4 arity"); }
                let mut q = [0f32; 4];
                for i in 0..4 { q[i] = match self.get(&xs[i]) { M::Num(x, _) => x as f32, _ => return fail("vec4 component") } }
                val!(M::Vec4(q))
            }
            E::Mat4(rows) => {
                let mut m = [[0f32; 4]; 4];
                let id = [[1f32, 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]];
                let mut xs = vec![];
                for r in rows { let x = op!(r); xs.push(x); }
                for j in 0..4 {
                    let r = if j < xs.len() { match self.get(&xs[j]) { M::Vec4(r) => r, _ => return fail("mat4 row") } } else { id[j] };
                    for i in 0..4 { m[i][j] = r[i] }
                }
                val!(M::Mat4(m))
            }
            E::Arr(v) => { let mut r = vec![]; for a in v { let x = op!(a); if let M::Ref(_) = x { self.seen.insert("ref in array"); } r.push(x); } val!(M::Arr(Rc::new(r))) }
            E::Fill(a, n) => {
                let x = op!(a);
                let n = op!(n);
                let x = self.get(&x);
                match self.get(&n) { M::Num(n, _) => { if n > 1000.0 { return undef("fill size"); } val!(M::Arr(Rc::new(vec![x; n as usize]))) } _ => fail("fill length") }
            }
            E::Obj(kv) => {
                let mut r = BTreeMap::new();
                for (k, a) in kv { let x = op!(a); if r.insert(k.clone(), x).is_some() { return fail("duplicate key"); } }
                val!(M::Obj(Rc::new(r)))
            }
            E::Link(v) => {
                let mut r = vec![];
                for a in v {
                    match self.eval(a)? {
                        (Some(x), Flow::Cont) => { let x = self.get(&x); self.link_push(&mut r, x)?; }
                        (None, Flow::Cont) => {}
                        x => return Ok(x),
                    }
                }
                val!(M::Link(Rc::new(r)))
            }
            E::Bin(Op::And, a, b) | E::Bin(Op::Or, a, b) => {
                let and = matches!(e, E::Bin(Op::And, ..));
                let x = op!(a);
                match self.get(&x) {
                    M::Bool(p, s) => {
                        if p != and { self.seen.insert("lazy skip"); return val!(M::Bool(p, s)); }
                        let y = op!(b);
                        match (self.get(&x), self.get(&y)) {
                            (M::Bool(p, s), M::Bool(q, _)) => val!(M::Bool(if and { p && q } else { p || q }, s)),
                            _ => fail("bool"),
                        }
                    }
                    _ => { let _ = op!(b); fail("bool") }
                }
            }
            E::Bin(o, a, b) => { let x = op!(a); let y = op!(b); let (x, y) = (self.get(&x), self.get(&y)); let r = self.binary(*o, x, y)?; val!(r) }
            E::Neg(a) => {
                let x = op!(a);
                val!(match self.get(&x) {
                    M::Num(x, s) => M::Num(-x, s),
                    M::Vec4(v) => M::Vec4([-v[0], -v[1], -v[2], -v[3]]),
                    M::Mat4(mut m) => { for r in m.iter_mut() { for x in r.iter_mut() { *x = -*x } } M::Mat4(m) }
                    _ => return fail("neg"),
                })
            }
            E::Not(a) => { let x = op!(a); match self.get(&x) { M::Bool(b, s) => val!(M::Bool(!b, s)), _ => fail("not") } }
            E::Norm(a) => { let x = op!(a); match self.get(&x) { M::Vec4(v) => val!(M::Num((v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]).sqrt() as f64, None)), _ => fail("norm") } }
            E::Mut(n) => { let c = self.target(n)?; val!(M::Ref(c)) }
            E::Swizzle(..) => undef("swizzle here"),
            E::Call(n, args) => self.call(n, args),
            E::CloCall(f, args) => {
                let f = op!(f);
                let f = match self.get(&f) { M::Clo(f) => f, _ => return fail("closure") };
                if f.args.len() != args.len() { return fail("closure arity"); }
                let mut xs = vec![];
                for a in args { let x = op!(a); xs.push(x); }
                let mut vars = vec![];
                for c in &f.currents {
                    match self.currents.iter().rev().find(|x| &x.0 == c) { Some(&(_, cell)) => vars.push((c.clone(), cell)), None => return fail("no current object") }
                }
                let slot = self.cell(M::Void);
                vars.push(("return".into(), slot));
                for (p, a) in f.args.iter().zip(xs) { let c = self.cell(a); vars.push((p.clone(), c)); }
                let cl = self.currents.len();
                if self.depth > 60 { return Err(Stop::Budget); }
                self.frames.push(Frame { vars, ret: true, consts: f.clone() });
                self.depth += 1;
                let r = self.eval(&f.body);
                self.depth -= 1;
                self.frames.pop();
                self.currents.truncate(cl);
                self.seen.insert("closure call");
                let (x, fl) = r?;
                match fl { Flow::Brk(_) | Flow::Next(_) => return undef("loop control leaves closure"), _ => {} }
                match x {
                    None => match self.cells[slot].clone() { M::Void => fail("no return value"), x => val!(x) },
                    x => Ok((x, Flow::Cont)),
                }
            }
            E::Clo(args, currents, body) => {
                let mut consts = self.frames.last().unwrap().consts.consts.clone();
                let body = match self.grab(1, body, &mut consts)? { Ok(b) => b, Err(r) => return Ok(r) };
                val!(M::Clo(Rc::new(CloVal { args: args.iter().map(|x| x.0.clone()).collect(), currents: currents.clone(), body, consts })))
            }
            E::Grab(..) => undef("grab outside closure"),
            E::If(cs, el) => {
                for (c, b) in cs {
                    let x = op!(c);
                    match self.get(&x) { M::Bool(true, _) => return self.block(b), M::Bool(..) => {} _ => return fail("if condition") }
                }
                match el { Some(b) => self.block(b), None => Ok((None, Flow::Cont)) }
            }
            E::Block(b) => self.block(b),
            E::Loop(l, b) => {
                loop {
                    self.tick()?;
                    let (x, f) = self.block(b)?;
                    match f {
                        Flow::Cont => {}
                        Flow::Ret => return Ok((x, Flow::Ret)),
                        Flow::Brk(None) => break,
                        Flow::Next(None) => {}
                        Flow::Brk(m) => { self.seen.insert("labelled"); if &m != l { return Ok((None, Flow::Brk(m))); } break; }
                        Flow::Next(m) => { self.seen.insert("labelled"); if &m != l { return Ok((None, Flow::Next(m))); } }
                    }
                }
                Ok((None, Flow::Cont))
            }
            E::ForC(l, init, cond, step, b) => {
                let (v, c) = (self.frames.last().unwrap().vars.len(), self.currents.len());
                let mut out = Flow::Cont;
                match self.eval(init)? { (None, Flow::Cont) => {} (x, Flow::Ret) => return Ok((x, Flow::Ret)), _ => return undef("for init") }
                loop {
                    self.tick()?;
                    let x = op!(cond);
                    match self.get(&x) { M::Bool(true, _) => {} M::Bool(..) => break, _ => return fail("for condition") }
                    let (x, f) = self.block(b)?;
                    match f {
                        Flow::Cont | Flow::Next(None) => {}
                        Flow::Ret => return Ok((x, Flow::Ret)),
                        Flow::Brk(None) => break,
                        Flow::Brk(m) => { self.seen.insert("labelled"); if &m != l { out = Flow::Brk(m); } break; }
                        Flow::Next(m) => { self.seen.insert("labelled"); if &m != l { out = Flow::Next(m); break; } }
                    }
                    match self.eval(step)? { (None, Flow::Cont) => {} (x, Flow::Ret) => return Ok((x, Flow::Ret)), _ => return undef("for step") }
                }
                self.frames.last_mut().unwrap().vars.truncate(v);
                self.currents.truncate(c);
                Ok((None, out))
            }
            E::ForN(k, l, ixs, b) => self.fold(*k, l, ixs, b),
            E::VecUn(n, i, body) => {
                // The body is evaluated once per component with the index as a constant.
                let mut q = [0f32; 4];
                let mut xs = vec![];
                for j in 0..*n {
                    let v = self.frames.last().unwrap().vars.len();
                    let c = self.cell(M::Num(j as f64, None));
                    self.frames.last_mut().unwrap().vars.push((i.clone(), c));
                    let r = self.operand(body)?;
                    let x = match r { Ok(x) => x, Err(r) => return Ok(r) };
                    xs.push(x);
                    self.frames.last_mut().unwrap().vars.truncate(v);
                }
                for (j, x) in xs.iter().enumerate() { q[j] = match self.get(x) { M::Num(x, _) => x as f32, _ => return fail("vec component") } }
                val!(M::Vec4(q))
            }
            E::TryQ(e) => {
                // `?` directly on an item belongs to its last id or to the variable itself.
                let x = op!(e);
                let x = self.get(&x);
                self.question(&x)
            }
            E::TryE(e) => {
                let (fr, de, cu) = (self.frames.len(), self.depth, self.currents.len());
                let v = self.frames.last().unwrap().vars.len();
                match self.eval(e) {
                    Ok((Some(x), Flow::Cont)) => { self.seen.insert("try ok"); let x = self.deep(&x); val!(M::Ok(Box::new(x))) }
                    Ok((None, Flow::Cont)) => fail("expected something"),
                    Ok(x) => Ok(x),
                    Err(Stop::Fail(_)) => {
                        self.seen.insert("try err");
                        self.frames.truncate(fr);
                        self.frames.last_mut().unwrap().vars.truncate(v);
                        self.currents.truncate(cu);
                        self.depth = de;
                        val!(M::Err(Box::new(M::Str(Rc::new(ERR.into())))))
                    }
                    Err(x) => Err(x),
                }
            }
            E::Assign(AOp::Decl, l, r) => {
                let x = op!(r);
                let x = self.get(&x);
                match &**l {
                    E::Var(n, ids, cur) if ids.is_empty() => {
                        let c = self.cell(x);
                        self.frames.last_mut().unwrap().vars.push((n.clone(), c));
                        if *cur { self.currents.push((n.clone(), c)); }
                    }
                    E::Var(..) => {
                        let path = match self.path(l)? { Ok(p) => p, Err(r) => return Ok(r) };
                        self.write(&path, true, |_, slot| { *slot = x; Ok(()) })?;
                    }
                    _ => return undef("left side"),
                }
                Ok((None, Flow::Cont))
            }
            E::Assign(o, l, r) => {
                let x = op!(r);
                let o = *o;
                match &**l {
                    E::Var(n, ids, _) if ids.is_empty() => {
                        let c = self.target(n)?;
                        let x = self.get(&x);
                        let mut old = self.cells[c].clone();
                        compound(o, &mut old, x)?;
                        self.cells[c] = old;
                    }
                    E::Var(..) => {
                        let path = match self.path(l)? { Ok(p) => p, Err(r) => return Ok(r) };
                        let x = self.get(&x);
                        self.seen.insert("path write");
                        self.write(&path, false, move |m, slot| {
                            if let M::Ref(_) = slot { let v = m.get(slot); *slot = v; }
                            compound(o, slot, x)
                        })?;
                    }
                    _ => return undef("left side"),
                }
                Ok((None, Flow::Cont))
            }
            E::Return(None) => Ok((None, Flow::Ret)),
            E::Return(Some(e)) => { let x = op!(e); Ok((Some(x), Flow::Ret)) }
            E::Break(l) => Ok((None, Flow::Brk(l.clone()))),
            E::Continue(l) => Ok((None, Flow::Next(l.clone()))),
            E::Go(_) | E::In(_) => undef("threads"),
        }
    }

    /// Replaces the grabs of this level by constants.
    fn grab(&mut self, level: usize, e: &E, consts: &mut Vec<M>) -> R<Result<E, (Option<M>, Flow)>> {
        macro_rules! g { ($e:expr) => { match self.grab(level, $e, consts)? { Ok(x) => x, Err(r) => return Ok(Err(r)) } } }
        macro_rules! gb { ($e:expr) => { Box::new(g!($e)) } }
        macro_rules! gv { ($v:expr) => {{ let mut r = vec![]; for x in $v { r.push(g!(x)); } r }} }
        Ok(Ok(match e {
            E::Grab(l, x) => {
                if *l != level { return Ok(Ok(e.clone())); }
                let x = match self.operand(x)? { Ok(x) => x, Err(r) => return Ok(Err(r)) };
                let x = self.deep(&x);
                consts.push(x);
                self.seen.insert("grab");
                E::Const(consts.len() - 1)
            }
            E::Num(_) | E::Bool(_) | E::Str(_) | E::Const(_) | E::Mut(_) | E::Break(_) | E::Continue(_) | E::In(_) | E::Return(None) => e.clone(),
            E::Var(n, ids, c) => {
                let mut r = vec![];
                for (id, q) in ids { r.push((match id { Id::E(x) => Id::E(gb!(x)), id => id.clone() }, *q)); }
                E::Var(n.clone(), r, *c)
            }
            E::Vec4(v) => E::Vec4(gv!(v)),
            E::Mat4(v) => E::Mat4(gv!(v)),
            E::Arr(v) => E::Arr(gv!(v)),
            E::Fill(a, b) => E::Fill(gb!(a), gb!(b)),
            E::Obj(kv) => { let mut r = vec![]; for (k, x) in kv { r.push((k.clone(), g!(x))); } E::Obj(r) }
            E::Link(v) => E::Link(gv!(v)),
            E::Bin(o, a, b) => E::Bin(*o, gb!(a), gb!(b)),
            E::Neg(a) => E::Neg(gb!(a)),
            E::Not(a) => E::Not(gb!(a)),
            E::Norm(a) => E::Norm(gb!(a)),
            E::Call(n, v) => E::Call(n.clone(), gv!(v)),
            E::Swizzle(i, a) => E::Swizzle(i.clone(), gb!(a)),
            E::CloCall(f, v) => E::CloCall(gb!(f), gv!(v)),
            E::Clo(a, c, b) => E::Clo(a.clone(), c.clone(), Box::new(match self.grab(level + 1, b, consts)? { Ok(x) => x, Err(r) => return Ok(Err(r)) })),
            E::If(cs, el) => {
                let mut r = vec![];
                for (c, b) in cs { let c = g!(c); let b = gv!(b); r.push((c, b)); }
                let el = match el { Some(b) => Some(gv!(b)), None => None };
                E::If(r, el)
            }
            E::Block(b) => E::Block(gv!(b)),
            E::Loop(l, b) => E::Loop(l.clone(), gv!(b)),
            E::ForC(l, a, b, c, body) => E::ForC(l.clone(), gb!(a), gb!(b), gb!(c), gv!(body)),
            E::ForN(k, l, ixs, body) => {
                let mut r = vec![];
                for ix in ixs {
                    let s = match &ix.start { Some(x) => Some(gb!(x)), None => None };
                    let e = match &ix.end { Some(x) => Some(gb!(x)), None => None };
                    r.push(Ix { name: ix.name.clone(), start: s, end: e });
                }
                E::ForN(*k, l.clone(), r, gv!(body))
            }
            E::VecUn(n, i, b) => E::VecUn(*n, i.clone(), gb!(b)),
            E::TryQ(a) => E::TryQ(gb!(a)),
            E::TryE(a) => E::TryE(gb!(a)),
            E::Assign(o, l, r) => { let l = gb!(l); let r = gb!(r); E::Assign(*o, l, r) }
            E::Return(Some(a)) => E::Return(Some(gb!(a))),
            E::Go(a) => E::Go(gb!(a)),
            E::Paren(a) => E::Paren(gb!(a)),
        }))
    }

    fn link_push(&self, r: &mut Vec<M>, x: M) -> R<()> {
        match x {
            M::Bool(b, _) => r.push(M::Bool(b, None)),
            M::Num(n, _) => r.push(M::Num(n, None)),
            M::Str(s) => r.push(M::Str(s)),
            M::Link(l) => r.extend(l.iter().cloned()),
            _ => return fail("link item"),
        }
        Ok(())
    }

    /// Steps of an item: evaluates the index expressions, in order.
    fn path(&mut self, e: &E) -> R<Result<(usize, Vec<(Step, bool)>), (Option<M>, Flow)>> {
        let (n, ids) = match e { E::Var(n, ids, _) => (n, ids), _ => return undef("item") };
        let c = self.target(n)?;
        let mut r = vec![];
        for (id, q) in ids {
            r.push((match id {
                Id::F(f) => Step::Key(f.clone()),
                Id::N(x) => Step::Ind(vec![*x]),
                Id::E(e) => {
                    let x = match self.operand(e)? { Ok(x) => x, Err(r) => return Ok(Err(r)) };
                    // A variable used as an index is read when the lookup happens.
                    match self.get(&x) {
                        M::Str(s) => Step::Key((*s).clone()),
                        M::Num(x, _) => Step::Ind(vec![x]),
                        M::Arr(a) => { let mut v = vec![]; for x in a.iter() { match self.get(x) { M::Num(x, _) => v.push(x), _ => return undef("index array") } } if v.is_empty() { return fail("index array"); } Step::Ind(v) }
                        _ => Step::Bad,
                    }
                }
            }, *q));
        }
        Ok(Ok((c, r)))
    }
    fn item(&mut self, e: &E) -> Ev {
        let (c, steps) = match self.path(e)? { Ok(p) => p, Err(r) => return Ok(r) };
        let n = steps.len();
        let mut cur = self.cells[c].clone();
        for (i, (s, q)) in steps.iter().enumerate() {
            let last = i + 1 == n;
            let inner: Vec<Step> = match s { Step::Ind(v) => v.iter().map(|x| Step::Ind(vec![*x])).collect(), s => vec![s.clone()] };
            for s in &inner {
                cur = self.get(&cur);
                cur = match (&cur, s) {
                    (M::Obj(o), Step::Key(k)) => match o.get(k) { Some(x) => x.clone(), None => return fail("no key") },
                    (M::Arr(a), Step::Ind(x)) => match a.get(x[0] as usize) { Some(x) => x.clone(), None => return fail("out of bounds") },
                    _ => return fail("lookup"),
                };
            }
            if *q {
                let v = self.get(&cur);
                match self.question(&v)? { (Some(x), Flow::Cont) => cur = x, r => return Ok(r) }
            } else if !last { cur = self.get(&cur); }
        }
        self.seen.insert("path read");
        Ok((Some(cur), Flow::Cont))
    }
    /// Changes the addressed slot; references before the last step are followed.
    fn write<F: FnOnce(&Model, &mut M) -> R<()>>(&mut self, p: &(usize, Vec<(Step, bool)>), insert: bool, f: F) -> R<()> {
        let mut flat: Vec<Step> = vec![];
        for (s, q) in &p.1 {
            if *q { return undef("? on left side"); }
            match s { Step::Ind(v) => for x in v { flat.push(Step::Ind(vec![*x])) }, s => flat.push(s.clone()) }
        }
        // Walk to the last cell on the path.
        let mut cell = p.0;
        let mut from = 0;
        let mut at = self.cells[cell].clone();
        for (i, s) in flat.iter().enumerate() {
            let last = i + 1 == flat.len();
            let next = match (&at, s) {
                (M::Obj(o), Step::Key(k)) => match o.get(k) { Some(x) => x.clone(), None => if insert && last { M::Void } else { return fail("no key") } },
                (M::Arr(a), Step::Ind(x)) => match a.get(x[0] as usize) { Some(x) => x.clone(), None => return fail("out of bounds") },
                _ => return fail("lookup"),
            };
            if !last { if let M::Ref(d) = next { cell = d; from = i + 1; at = self.cells[d].clone(); self.seen.insert("write through ref"); } else { at = next; } }
        }
        let mut root = std::mem::replace(&mut self.cells[cell], M::Void);
        let r = (|| {
            let mut slot = &mut root;
            for s in &flat[from..] {
                slot = match (slot, s) {
                    (M::Obj(o), Step::Key(k)) => Rc::make_mut(o).entry(k.clone()).or_insert(M::Void),
                    (M::Arr(a), Step::Ind(x)) => &mut Rc::make_mut(a)[x[0] as usize],
                    _ => return undef("path"),
                };
            }
            f(self, slot)
        })();
        self.cells[cell] = root;
        r
    }

    fn fold(&mut self, k: LK, l: &Option<String>, ixs: &[Ix], b: &[E]) -> Ev {
        if ixs.len() > 1 && (k == LK::Link || true) {
            // Several indices nest; the label names the outermost loop.
            let inner = E::ForN(k, None, ixs[1..].to_vec(), b.to_vec());
            return self.fold(k, l, &ixs[..1], &[inner]);
        }
        let mut links = vec![];
        let (x, f) = self.fold1(k, l, &ixs[0], b, &mut links)?;
        if f == Flow::Cont && k == LK::Link { return Ok((Some(M::Link(Rc::new(links))), Flow::Cont)); }
        Ok((x, f))
    }
    fn fold1(&mut self, k: LK, l: &Option<String>, ix: &Ix, b: &[E], links: &mut Vec<M>) -> Ev {
        let start = match &ix.start { Some(s) => { let x = match self.operand(s)? { Ok(x) => x, Err(r) => return Ok(r) }; match self.get(&x) { M::Num(x, _) => x, _ => return fail("start") } } None => 0.0 };
        let end = match &ix.end { Some(s) => { let x = match self.operand(s)? { Ok(x) => x, Err(r) => return Ok(r) }; match self.get(&x) { M::Num(x, _) => x, _ => return fail("end") } } None => {
            let e = infer(&ix.name, b).ok_or(Stop::Undefined("no range to infer".into()))?;
            let x = match self.eval_len(&e)? { Ok(x) => x, Err(r) => return Ok(r) };
            self.seen.insert("inferred range");
            x
        } };
        let v = self.frames.last().unwrap().vars.len();
        let cell = self.cell(M::Num(start, None));
        self.frames.last_mut().unwrap().vars.push((ix.name.clone(), cell));
        let mut acc = match k {
            LK::For | LK::Link => M::Void,
            LK::Sum => M::Num(0.0, None), LK::Prod => M::Num(1.0, None),
            LK::Min | LK::Max => M::Num(f64::NAN, None),
            LK::Any => M::Bool(false, None), LK::All => M::Bool(true, None),
            LK::Sift => M::Arr(Rc::new(vec![])),
            LK::SumV => M::Vec4([0.0; 4]), LK::ProdV => M::Vec4([1.0; 4]),
        };
        let mut out = Flow::Cont;
        let mut iters = 0;
        loop {
            self.tick()?;
            let i = match self.cells[cell] { M::Num(x, _) => x, _ => return undef("counter") };
            if !(i < end) { break; }
            iters += 1;
            let (x, f) = if k == LK::Link { self.link_body(b, links)? } else { self.block(b)? };
            match f {
                Flow::Cont => if k != LK::For && k != LK::Link {
                    let x = match x { Some(x) => x, None => return undef("loop body without value") };
                    let keep = x.clone();
                    let x = self.get(&x);
                    let mut done = false;
                    let put = |s: Sec| -> Sec { let mut v = match s { Some(s) => (*s).clone(), None => vec![] }; v.push(M::Num(i, None)); Some(Rc::new(v)) };
                    match (&mut acc, x) {
                        (M::Num(a, s), M::Num(x, xs)) => match k {
                            LK::Sum => *a += x,
                            LK::Prod => *a *= x,
                            LK::Min => if a.is_nan() || *a > x { *a = x; *s = put(xs); },
                            LK::Max => if a.is_nan() || *a < x { *a = x; *s = put(xs); },
                            _ => return undef("fold"),
                        },
                        (M::Bool(a, s), M::Bool(x, xs)) => if x != *a { *a = x; *s = put(xs); done = true; },
                        (M::Arr(v), _) => Rc::make_mut(v).push(keep),
                        (M::Vec4(a), M::Vec4(x)) => for j in 0..4 { if k == LK::SumV { a[j] += x[j] } else { a[j] *= x[j] } },
                        _ => return fail("fold type"),
                    }
                    if done { break; }
                },
                Flow::Ret => return Ok((x, Flow::Ret)),
                Flow::Brk(None) => { self.seen.insert("break in fold"); break }
                Flow::Next(None) => { self.seen.insert("continue in fold"); }
                Flow::Brk(m) => { self.seen.insert("labelled"); if &m != l { out = Flow::Brk(m); } break; }
                Flow::Next(m) => { self.seen.insert("labelled"); if &m != l { out = Flow::Next(m); break; } }
            }
            match &mut self.cells[cell] { M::Num(x, _) => *x += 1.0, _ => return undef("counter") }
        }
        if iters > 1 { self.seen.insert("loop>1"); }
        self.frames.last_mut().unwrap().vars.truncate(v);
        if k == LK::For || k == LK::Link { return Ok((None, out)); }
        Ok((Some(acc), out))
    }
    fn link_body(&mut self, b: &[E], links: &mut Vec<M>) -> Ev {
        if b.len() == 1 {
            if let E::ForN(LK::Link, l, ixs, inner) = &b[0] {
                if ixs.len() > 1 {
                    let e = E::ForN(LK::Link, None, ixs[1..].to_vec(), inner.clone());
                    return self.fold1(LK::Link, l, &ixs[0], &[e], links);
                }
                return self.fold1(LK::Link, l, &ixs[0], inner, links);
            }
        }
        for e in b {
            match self.eval(e)? {
                (Some(x), Flow::Cont) => { let x = self.get(&x); self.link_push(links, x)?; }
                (None, Flow::Cont) => {}
                x => return Ok(x),
            }
        }
        Ok((None, Flow::Cont))
    }
    fn eval_len(&mut self, e: &E) -> R<Result<f64, (Option<M>, Flow)>> {
        let x = match self.operand(e)? { Ok(x) => x, Err(r) => return Ok(Err(r)) };
        match self.get(&x) { M::Arr(a) => Ok(Ok(a.len() as f64)), _ => fail("len") }
    }

    pub fn binary(&self, o: Op, a: M, b: M) -> R<M> {
        fn v4(a: [f32; 4], b: [f32; 4], f: fn(f32, f32) -> f32) -> M { M::Vec4([f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2]), f(a[3], b[3])]) }
        fn m4(a: [[f32; 4]; 4], b: [[f32; 4]; 4], f: fn(f32, f32) -> f32) -> M { let mut r = a; for j in 0..4 { for i in 0..4 { r[j][i] = f(a[j][i], b[j][i]) } } M::Mat4(r) }
        let sp = |x: f64| [x as f32; 4];
        let sm = |x: f64| [[x as f32; 4]; 4];
        match o {
            Op::Eq | Op::Ne => {
                let (r, s) = self.equal(&a, &b)?;
                return Ok(M::Bool(r == (o == Op::Eq), s));
            }
            Op::Lt | Op::Le | Op::Gt | Op::Ge => return Ok(match (a, b) {
                (M::Num(a, s), M::Num(b, _)) => M::Bool(match o { Op::Lt => a < b, Op::Le => a <= b, Op::Gt => a > b, _ => a >= b }, s),
                (M::Str(a), M::Str(b)) => { let c = a.as_bytes().cmp(b.as_bytes()); M::Bool(match o { Op::Lt => c.is_lt(), Op::Le => c.is_le(), Op::Gt => c.is_gt(), _ => c.is_ge() }, None) }
                _ => return fail("compare"),
            }),
            Op::Cross => return match (a, b) {
                (M::Vec4(a), M::Vec4(b)) => Ok(M::Vec4([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0], 0.0])),
                _ => fail("cross"),
            },
            Op::Dot => return Ok(M::Num(match (a, b) {
                (M::Vec4(a), M::Vec4(b)) => (a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]) as f64,
                (M::Vec4(a), M::Num(b, _)) | (M::Num(b, _), M::Vec4(a)) => { let b = b as f32; (a[0] * b + a[1] * b + a[2] * b + a[3] * b) as f64 }
                _ => return fail("dot"),
            }, None)),
            _ => {}
        }
        let f32op: fn(f32, f32) -> f32 = match o { Op::Add => |a, b| a + b, Op::Sub => |a, b| a - b, Op::Mul => |a, b| a * b, Op::Div => |a, b| a / b, Op::Rem => |a, b| a % b, _ => |a: f32, b| a.powf(b) };
        let f64op: fn(f64, f64) -> f64 = match o { Op::Add => |a, b| a + b, Op::Sub => |a, b| a - b, Op::Mul => |a, b| a * b, Op::Div => |a, b| a / b, Op::Rem => |a, b| a % b, _ => |a: f64, b| a.powf(b) };
        let mats = matches!(o, Op::Add | Op::Sub | Op::Mul);
        Ok(match (a, b) {
            (M::Num(a, s), M::Num(b, _)) => M::Num(f64op(a, b), s),
            (M::Vec4(a), M::Vec4(b)) => v4(a, b, f32op),
            (M::Vec4(a), M::Num(b, _)) => v4(a, sp(b), f32op),
            (M::Num(a, _), M::Vec4(b)) => v4(sp(a), b, f32op),
            (M::Mat4(a), M::Mat4(b)) if o == Op::Mul => {
                let mut r = [[0f32; 4]; 4];
                for c in 0..4 { for i in 0..4 { r[c][i] = a[0][i] * b[c][0] + a[1][i] * b[c][1] + a[2][i] * b[c][2] + a[3][i] * b[c][3]; } }
                M::Mat4(r)
            }
            (M::Mat4(a), M::Mat4(b)) if mats => m4(a, b, f32op),
            (M::Mat4(a), M::Num(b, _)) if mats => m4(a, sm(b), f32op),
            (M::Num(a, _), M::Mat4(b)) if mats => m4(sm(a), b, f32op),
            (M::Mat4(a), M::Vec4(v)) if o == Op::Mul => { let mut r = [0f32; 4]; for i in 0..4 { r[i] = a[0][i] * v[0] + a[1][i] * v[1] + a[2][i] * v[2] + a[3][i] * v[3]; } M::Vec4(r) }
            (M::Bool(a, s), M::Bool(b, _)) => M::Bool(match o { Op::Add => a || b, Op::Sub => a && !b, Op::Mul => a && b, Op::Pow => a != b, _ => return fail("bool op") }, s),
            (M::Str(a), M::Str(b)) if o == Op::Add => { if a.len() + b.len() > 4000 { return Err(Stop::Budget); } M::Str(Rc::new(format!("{}{}", a, b))) }
            (M::Link(a), M::Link(b)) if o == Op::Add => { if a.len() + b.len() > 1500 { return Err(Stop::Budget); } let mut v = (*a).clone(); v.extend(b.iter().cloned()); M::Link(Rc::new(v)) }
            _ => return fail("operator"),
        })
    }
    fn equal(&self, a: &M, b: &M) -> R<(bool, Sec)> {
        let has_ref = |m: &M| match m { M::Arr(a) => a.iter().any(|x| matches!(x, M::Ref(_))), M::Obj(o) => o.values().any(|x| matches!(x, M::Ref(_))), _ => false };
        if has_ref(a) || has_ref(b) { return undef("comparing references"); }
        Ok(match (a, b) {
            (M::Num(a, s), M::Num(b, _)) => (a == b, s.clone()),
            (M::Str(a), M::Str(b)) => (a == b, None),
            (M::Bool(a, s), M::Bool(b, _)) => (a == b, s.clone()),
            (M::Vec4(a), M::Vec4(b)) => (a == b, None),
            (M::Obj(a), M::Obj(b)) => {
                let mut r = a.len() == b.len();
                for (k, x) in a.iter() { r = r && match b.get(k) { Some(y) => self.nested(x, y)?, None => false } }
                (r, None)
            }
            (M::Arr(a), M::Arr(b)) => {
                let mut r = a.len() == b.len();
                for (x, y) in a.iter().zip(b.iter()) { r = r && self.nested(x, y)? }
                (r, None)
            }
            (M::None, M::None) => (true, None),
            (M::None, M::Some(_)) | (M::Some(_), M::None) => (false, None),
            (M::Some(a), M::Some(b)) => self.equal(a, b)?,
            _ => return fail("equal"),
        })
    }
    fn nested(&self, a: &M, b: &M) -> R<bool> { match self.equal(a, b) { Ok(x) => Ok(x.0), Err(Stop::Fail(_)) => Ok(false), Err(e) => Err(e) } }

    fn call(&mut self, n: &str, args: &[E]) -> Ev {
        if let Some(i) = self.prog.funs.iter().position(|f| f.name == n) {
            let f = &self.prog.funs[i];
            let mut xs: Vec<M> = vec![];
            for a in args {
                if let E::Swizzle(ix, a) = a {
                    let a = match self.operand(a)? { Ok(x) => x, Err(r) => return Ok(r) };
                    match self.get(&a) { M::Vec4(q) => for &i in ix { xs.push(M::Num(q[i] as f64, None)) }, _ => return fail("swizzle") }
                    continue;
                }
                let x = match self.operand(a)? { Ok(x) => x, Err(r) => return Ok(r) };
                if let Some(p) = f.params.get(xs.len()) {
                    let v = self.get(&x);
                    if let Some(r) = lazy_hit(p, &v) { self.seen.insert("lazy hit"); return Ok((Some(r), Flow::Cont)); }
                }
                xs.push(x);
            }
            self.seen.insert("call");
            return Ok((self.invoke(i, xs)?, Flow::Cont));
        }
        // Built-in lazy functions.
        let mut xs: Vec<M> = vec![];
        for (i, a) in args.iter().enumerate() {
            let x = match self.operand(a)? { Ok(x) => x, Err(r) => return Ok(r) };
            if i == 0 && n == "unwrap_or" {
                match self.get(&x) { M::Ok(x) | M::Some(x) => { self.seen.insert("lazy hit"); return Ok((Some(*x), Flow::Cont)) } _ => {} }
            }
            // Host functions with lazy invariants.
            if n == "hz" || n == "hy" {
                match (n, i, self.get(&x)) {
                    ("hz", 0, M::Err(x)) | ("hz", 1, M::Some(x)) | ("hy", 1, M::Ok(x)) => { self.seen.insert("host lazy hit"); return Ok((Some(*x), Flow::Cont)) }
                    ("hz", 1, v @ M::Num(..)) if matches!(v, M::Num(a, _) if a == 2.0) => { self.seen.insert("host lazy hit"); return Ok((Some(v), Flow::Cont)) }
                    ("hy", 1, v @ M::Bool(true, _)) => { self.seen.insert("host lazy hit"); return Ok((Some(v), Flow::Cont)) }
                    _ => {}
                }
            }
            xs.push(x);
        }
        let r = self.builtin(n, &xs)?;
        Ok((r, Flow::Cont))
    }
    fn builtin(&mut self, n: &str, xs: &[M]) -> R<Option<M>> {
        let g: Vec<M> = xs.iter().map(|x| self.get(x)).collect();
        let num = |i: usize| -> R<f64> { match &g[i] { M::Num(x, _) => Ok(*x), _ => fail("number") } };
        let st = |i: usize| -> R<Rc<String>> { match &g[i] { M::Str(x) => Ok(x.clone()), _ => fail("string") } };
        let s = |t: &str| M::Str(Rc::new(t.to_string()));
        macro_rules! n { ($e:expr) => { Ok(Some(M::Num($e, None))) } }
        macro_rules! b { ($e:expr) => { Ok(Some(M::Bool($e, None))) } }
        macro_rules! arr { ($f:expr) => {{
            let c = match xs[0] { M::Ref(c) => c, _ => return fail("reference to array") };
            let mut root = std::mem::replace(&mut self.cells[c], M::Void);
            let r = match &mut root { M::Arr(a) => { let f: &mut dyn FnMut(&mut Vec<M>) -> R<Option<M>> = &mut $f; f(Rc::make_mut(a)) } _ => fail("array") };
            self.cells[c] = root;
            r
        }} }
        match n {
            "emit" => { let v = self.to_v(&g[0], true); self.emit(v)?; Ok(None) }
            "ev" | "ev_f" | "ev_b" | "ev_s" | "ev_v" | "ev_m" => { let v = self.to_v(&g[0], false); self.emit(v)?; Ok(Some(g[1].clone())) }
            "hz" | "hy" => { self.emit(V::str("hz"))?; let v = xs.iter().map(|x| self.deep(x)).collect(); Ok(Some(M::Arr(Rc::new(v)))) }
            "host_cu" => match self.currents.iter().rev().find(|x| x.0 == "cu").map(|x| x.1) { Some(c) => { let v = self.cells[c].clone(); match self.get(&v) { M::Num(x, _) => { self.seen.insert("host current"); Ok(Some(M::Num(x, None))) } _ => fail("number") } } None => fail("no current object") },
            "boom" => { self.seen.insert("boom"); fail("boom") }
            "clone" => Ok(Some(self.deep(&g[0]))),
            "some" => Ok(Some(M::Some(Box::new(self.deep(&g[0]))))),
            "none" => Ok(Some(M::None)),
            "ok" => Ok(Some(M::Ok(Box::new(self.deep(&g[0]))))),
            "err" => Ok(Some(M::Err(Box::new(self.deep(&g[0]))))),
            "is_ok" => match g[0] { M::Ok(_) => b!(true), M::Err(_) => b!(false), _ => fail("is_ok") },
            "is_err" => match g[0] { M::Ok(_) => b!(false), M::Err(_) => b!(true), _ => fail("is_err") },
            "unwrap" => match &g[0] { M::Ok(x) | M::Some(x) => Ok(Some((**x).clone())), M::Err(_) | M::None => { self.seen.insert("unwrap fails"); fail("unwrap") } _ => fail("unwrap type") },
            "unwrap_or" => match &g[0] { M::Err(_) | M::None => Ok(Some(xs[1].clone())), _ => fail("unwrap_or type") },
            "unwrap_err" => match &g[0] { M::Err(x) => Ok(Some((**x).clone())), _ => fail("unwrap_err") },
            "len" => match &g[0] { M::Arr(a) => n!(a.len() as f64), _ => fail("len") },
            "push" => { let v = self.deep(&xs[1]); arr!(|a: &mut Vec<M>| { a.push(v.clone()); Ok(None) }) }
            "push_ref" => { let v = xs[1].clone(); self.seen.insert("push_ref"); arr!(|a: &mut Vec<M>| { a.push(v.clone()); Ok(None) }) }
            "insert" | "insert_ref" => {
                let i = num(1)? as usize;
                let v = if n == "insert" { self.deep(&xs[2]) } else { xs[2].clone() };
                arr!(|a: &mut Vec<M>| { if i > a.len() { return fail("out of bounds"); } a.insert(i, v.clone()); Ok(None) })
            }
            "pop" => arr!(|a: &mut Vec<M>| match a.pop() { Some(x) => Ok(Some(x)), None => fail("empty") }),
            "remove" => { let i = num(1)? as usize; arr!(|a: &mut Vec<M>| { if i >= a.len() { return fail("out of bounds"); } Ok(Some(a.remove(i))) }) }
            "reverse" => arr!(|a: &mut Vec<M>| { a.reverse(); Ok(None) }),
            "clear" => arr!(|a: &mut Vec<M>| { a.clear(); Ok(None) }),
            "swap" => { let (i, j) = (num(1)? as usize, num(2)? as usize); arr!(|a: &mut Vec<M>| { if i >= a.len() || j >= a.len() { return fail("out of bounds"); } a.swap(i, j); Ok(None) }) }
            "why" => match &g[0] { M::Bool(true, Some(s)) => { self.seen.insert("why"); Ok(Some(M::Arr(Rc::new(s.iter().rev().cloned().collect())))) } _ => fail("why") },
            "where" => match &g[0] { M::Num(x, Some(s)) if !x.is_nan() => { self.seen.insert("why"); Ok(Some(M::Arr(Rc::new(s.iter().rev().cloned().collect())))) } _ => fail("where") },
            "explain_why" => match &g[0] { M::Bool(b, s) => { let mut v = match s { Some(s) => (**s).clone(), None => vec![] }; v.push(self.deep(&xs[1])); Ok(Some(M::Bool(*b, Some(Rc::new(v))))) } _ => fail("explain_why") },
            "explain_where" => match &g[0] { M::Num(b, s) => { let mut v = match s { Some(s) => (**s).clone(), None => vec![] }; v.push(self.deep(&xs[1])); Ok(Some(M::Num(*b, Some(Rc::new(v))))) } _ => fail("explain_where") },
            "has" => match &g[0] { M::Obj(o) => b!(o.contains_key(&*st(1)?)), _ => fail("has") },
            "abs" => n!(num(0)?.abs()), "floor" => n!(num(0)?.floor()), "ceil" => n!(num(0)?.ceil()), "round" => n!(num(0)?.round()),
            "is_nan" => b!(num(0)?.is_nan()),
            "x" | "y" | "z" | "w" => match &g[0] { M::Vec4(v) => n!(v["xyzw".find(n).unwrap()] as f64), _ => fail("vec4") },
            "trim" => Ok(Some(s(st(0)?.trim()))),
            "typeof" => Ok(Some(s(match &g[0] { M::Num(..) => "number", M::Bool(..) => "boolean", M::Str(_) => "string", M::Vec4(_) => "vec4", M::Mat4(_) => "mat4", M::Arr(_) => "array", M::Obj(_) => "object", M::Link(_) => "link", M::None | M::Some(_) => "option", M::Ok(_) | M::Err(_) => "result", M::Clo(_) => "closure", _ => return undef("typeof") }))),
            "head" | "tip" => match &g[0] { M::Link(l) => Ok(Some(match if n == "head" { l.first() } else { l.last() } { Some(x) => M::Some(Box::new(x.clone())), None => M::None })), _ => fail("link") },
            "tail" => match &g[0] { M::Link(l) => Ok(Some(M::Link(Rc::new(l.iter().skip(1).cloned().collect())))), _ => fail("link") },
            "neck" => match &g[0] { M::Link(l) => Ok(Some(M::Link(Rc::new(l[..l.len().saturating_sub(1)].to_vec())))), _ => fail("link") },
            "is_empty" => match &g[0] { M::Link(l) => b!(l.is_empty()), _ => fail("link") },
            "min" | "max" => match &g[0] {
                M::Arr(a) => {
                    let mut r = f64::NAN;
                    for x in a.iter() { match self.get(x) { M::Num(x, _) => if r.is_nan() || (n == "min" && x < r) || (n == "max" && x > r) { r = x }, _ => return fail("min") } }
                    n!(r)
                }
                _ => fail("array"),
            },
            _ => undef(&format!("function {}", n)),
        }
    }
}

/// What a call gives at once because of this argument.
fn lazy_hit(p: &Param, v: &M) -> Option<M> {
    p.lazy.iter().find_map(|z| match (z, v) {
        (Lazy::Ok, M::Ok(x)) | (Lazy::Err, M::Err(x)) | (Lazy::Some, M::Some(x)) => Some((**x).clone()),
        (Lazy::Lit(LazyLit::Num(a)), M::Num(b, _)) if a == b => Some(v.clone()),
        (Lazy::Lit(LazyLit::Bool(a)), M::Bool(b, _)) if a == b => Some(v.clone()),
        (Lazy::Lit(LazyLit::Str(a)), M::Str(b)) if *a == **b => Some(v.clone()),
        _ => None,
    })
}

#[derive(Clone, Debug)]
pub enum Step { Key(String), Ind(Vec<f64>), Bad }

fn compound(o: AOp, old: &mut M, x: M) -> R<()> {
    if let M::Void = old {
        if o != AOp::Set { return fail("no value"); }
        *old = x;
        return Ok(());
    }
    let f: fn(f32, f32) -> f32 = match o { AOp::Add => |a, b| a + b, AOp::Sub => |a, b| a - b, AOp::Mul => |a, b| a * b, AOp::Div => |a, b| a / b, AOp::Rem => |a, b| a % b, _ => |a: f32, b| a.powf(b) };
    let g: fn(f64, f64) -> f64 = match o { AOp::Add => |a, b| a + b, AOp::Sub => |a, b| a - b, AOp::Mul => |a, b| a * b, AOp::Div => |a, b| a / b, AOp::Rem => |a, b| a % b, _ => |a: f64, b| a.powf(b) };
    let set = o == AOp::Set;
    match (&*old, &x) {
        (M::Str(a), M::Str(b)) if a.len() + b.len() > 4000 => return Err(Stop::Budget),
        (M::Link(a), M::Link(b)) if a.len() + b.len() > 1500 => return Err(Stop::Budget),
        _ => {}
    }
    match (old, x) {
        (M::Num(a, s), M::Num(b, t)) => { *a = if set { b } else { g(*a, b) }; *s = t; }
        (M::Vec4(a), M::Num(b, _)) => { if set { return fail("assign"); } for i in 0..4 { a[i] = f(a[i], b as f32) } }
        (M::Vec4(a), M::Vec4(b)) => for i in 0..4 { a[i] = if set { b[i] } else { f(a[i], b[i]) } },
        (M::Mat4(a), M::Mat4(b)) => match o {
            AOp::Set => *a = b,
            AOp::Add | AOp::Sub => for j in 0..4 { for i in 0..4 { a[j][i] = f(a[j][i], b[j][i]) } },
            AOp::Mul => { let q = *a; for c in 0..4 { for i in 0..4 { a[c][i] = q[0][i] * b[c][0] + q[1][i] * b[c][1] + q[2][i] * b[c][2] + q[3][i] * b[c][3]; } } }
            _ => return fail("assign"),
        },
        (M::Bool(a, s), M::Bool(b, t)) if set => { *a = b; *s = t; }
        (M::Str(a), M::Str(b)) => match o { AOp::Set => *a = b, AOp::Add => *a = Rc::new(format!("{}{}", a, b)), _ => return fail("assign") },
        (M::Link(a), M::Link(b)) => match o {
            AOp::Set => *a = b,
            AOp::Add => { let mut v = (**a).clone(); v.extend(b.iter().cloned()); *a = Rc::new(v); }
            AOp::Sub => { let mut v = (*b).clone(); v.extend(a.iter().cloned()); *a = Rc::new(v); }
            _ => return fail("assign"),
        },
        (M::Link(a), x @ (M::Num(..) | M::Bool(..) | M::Str(_))) if o == AOp::Add => Rc::make_mut(a).push(match x { M::Num(n, _) => M::Num(n, None), M::Bool(b, _) => M::Bool(b, None), x => x }),
        (old @ M::Obj(_), x @ M::Obj(_)) | (old @ M::Arr(_), x @ M::Arr(_)) | (old @ (M::None | M::Some(_)), x @ (M::None | M::Some(_)))
            | (old @ (M::Ok(_) | M::Err(_)), x @ (M::Ok(_) | M::Err(_))) | (old @ M::Clo(_), x @ M::Clo(_)) if set => *old = x,
        _ => return fail("assign"),
    }
    Ok(())
}

/// The list whose length a loop without a range takes: the first item in the body, in reading
/// order, that is indexed by the loop variable alone.
pub fn infer(name: &str, b: &[E]) -> Option<E> {
    fn find(name: &str, e: &E) -> Option<E> {
        let many = |v: &[E]| v.iter().find_map(|x| find(name, x));
        match e {
            E::Var(n, ids, c) => {
                for (i, (id, _)) in ids.iter().enumerate() {
                    if let Id::E(x) = id {
                        if let E::Var(m, y, _) = &**x { if m == name && y.is_empty() { return Some(E::Var(n.clone(), ids[..i].to_vec(), *c)); } }
                        if let Some(r) = find(name, x) { return Some(r); }
                    }
                }
                None
            }
            E::Vec4(v) | E::Mat4(v) | E::Arr(v) | E::Link(v) | E::Call(_, v) | E::Block(v) | E::Loop(_, v) => many(v),
            E::Fill(a, b) | E::Bin(_, a, b) => find(name, a).or_else(|| find(name, b)),
            E::Obj(kv) => kv.iter().find_map(|x| find(name, &x.1)),
            E::Neg(a) | E::Not(a) | E::Norm(a) | E::Swizzle(_, a) | E::TryQ(a) | E::TryE(a) | E::Paren(a) | E::Return(Some(a)) | E::VecUn(_, _, a) => find(name, a),
            E::Assign(_, l, r) => find(name, l).or_else(|| find(name, r)),
            E::If(cs, el) => cs.iter().find_map(|(c, b)| find(name, c).or_else(|| many(b))).or_else(|| el.as_ref().and_then(|b| many(b))),
            E::ForN(_, _, ixs, b) => ixs.iter().find_map(|i| i.start.as_ref().and_then(|x| find(name, x)).or_else(|| i.end.as_ref().and_then(|x| find(name, x)))).or_else(|| many(b)),
            _ => None,
        }
    }
    b.iter().find_map(|x| find(name, x))
}
