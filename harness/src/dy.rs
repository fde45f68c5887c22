//! Bridge to the code under test: values, loading, calling, effect log.
use crate::engine::guard;
use dyon::{Module, Runtime, Variable, Dfn, Type};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;

/// Plain comparable value.
#[derive(Clone, Debug)]
pub enum V {
    Void,
    Bool(bool),
    Num(f64),
    Str(String),
    Vec4([f32; 4]),
    Mat4([[f32; 4]; 4]),
    Arr(Vec<V>),
    Obj(BTreeMap<String, V>),
    Link(Vec<V>),
    None,
    Some(Box<V>),
    Ok(Box<V>),
    Err(Box<V>),
    /// Any value carrying a secret.
    Sec(Box<V>, Vec<V>),
    Other(&'static str),
}

pub fn same_num(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a == b && a.is_sign_negative() == b.is_sign_negative())
}
pub fn same_f32(a: f32, b: f32) -> bool { same_num(a as f64, b as f64) }

impl V {
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (V::Void, V::Void) | (V::None, V::None) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Num(a), V::Num(b)) => same_num(*a, *b),
            (V::Str(a), V::Str(b)) => a == b,
            (V::Vec4(a), V::Vec4(b)) => (0..4).all(|i| same_f32(a[i], b[i])),
            (V::Mat4(a), V::Mat4(b)) => (0..4).all(|j| (0..4).all(|i| same_f32(a[j][i], b[j][i]))),
            (V::Arr(a), V::Arr(b)) | (V::Link(a), V::Link(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (V::Obj(a), V::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && x.same(y)),
            (V::Some(a), V::Some(b)) | (V::Ok(a), V::Ok(b)) | (V::Err(a), V::Err(b)) => a.same(b),
            (V::Sec(a, s), V::Sec(b, t)) => a.same(b) && s.len() == t.len() && s.iter().zip(t).all(|(x, y)| x.same(y)),
            (V::Other(a), V::Other(b)) => a == b,
            _ => false,
        }
    }
    pub fn num(x: f64) -> V { V::Num(x) }
    pub fn str<S: Into<String>>(s: S) -> V { V::Str(s.into()) }
}
impl PartialEq for V { fn eq(&self, o: &V) -> bool { self.same(o) } }

/// Variable to value, following references on the runtime's stack. Secrets are kept when `sec`.
pub fn from_var(rt: &Runtime, v: &Variable, sec: bool) -> V {
    from_stack(&rt.stack, v, sec, 0)
}
fn from_stack(st: &[Variable], v: &Variable, sec: bool, depth: usize) -> V {
    if depth > 200 { return V::Other("too deep"); }
    let f = |x: &Variable| from_stack(st, x, sec, depth + 1);
    match v {
        Variable::Ref(i) => match st.get(*i) { Some(x) => f(x), None => V::Other("dangling ref") },
        Variable::Return => V::Other("return"),
        Variable::Bool(b, s) => wrap(V::Bool(*b), s, sec, &f),
        Variable::F64(x, s) => wrap(V::Num(*x), s, sec, &f),
        Variable::Vec4(x) => V::Vec4(*x),
        Variable::Mat4(x) => V::Mat4(**x),
        Variable::Str(s) => V::Str((**s).clone()),
        Variable::Array(a) => V::Arr(a.iter().map(|x| f(x)).collect()),
        Variable::Object(o) => V::Obj(o.iter().map(|(k, x)| ((**k).clone(), f(x))).collect()),
        Variable::Link(l) => V::Link(link_items(l).iter().map(|x| f(x)).collect()),
        Variable::UnsafeRef(_) => V::Other("unsafe_ref"),
        Variable::RustObject(_) => V::Other("rust_object"),
        Variable::Option(None) => V::None,
        Variable::Option(Some(x)) => V::Some(Box::new(f(x))),
        Variable::Result(Ok(x)) => V::Ok(Box::new(f(x))),
        Variable::Result(Err(e)) => V::Err(Box::new(f(&e.message))),
        Variable::Thread(_) => V::Other("thread"),
        Variable::Closure(_, _) => V::Other("closure"),
        Variable::In(_) => V::Other("in"),
    }
}
fn wrap(v: V, s: &Option<Box<Vec<Variable>>>, sec: bool, f: &dyn Fn(&Variable) -> V) -> V {
    match s {
        Some(s) if sec => V::Sec(Box::new(v), s.iter().map(|x| f(x)).collect()),
        _ => v,
    }
}
pub fn link_items(l: &dyon::Link) -> Vec<Variable> {
    let mut r = vec![];
    let mut l = l.clone();
    while let Some(x) = l.head() {
        r.push(*x);
        l = l.tail();
    }
    r
}

pub fn to_var(v: &V) -> Variable {
    match v {
        V::Void => Variable::Return,
        V::Bool(b) => Variable::bool(*b),
        V::Num(x) => Variable::f64(*x),
        V::Str(s) => Variable::Str(Arc::new(s.clone())),
        V::Vec4(x) => Variable::Vec4(*x),
        V::Mat4(x) => Variable::Mat4(Box::new(*x)),
        V::Arr(a) => Variable::Array(Arc::new(a.iter().map(to_var).collect())),
        V::Obj(o) => Variable::Object(Arc::new(o.iter().map(|(k, x)| (Arc::new(k.clone()), to_var(x))).collect())),
        V::Link(l) => {
            let mut k = dyon::Link::new();
            for x in l { k.push(&to_var(x)).unwrap(); }
            Variable::Link(Box::new(k))
        }
        V::None => Variable::Option(None),
        V::Some(x) => Variable::Option(Some(Box::new(to_var(x)))),
        V::Ok(x) => Variable::Result(Ok(Box::new(to_var(x)))),
        V::Err(x) => Variable::Result(Err(Box::new(dyon::Error { message: to_var(x), trace: vec![] }))),
        V::Sec(x, s) => {
            let s: Vec<Variable> = s.iter().map(to_var).collect();
            match **x {
                V::Bool(b) => Variable::Bool(b, Some(Box::new(s))),
                V::Num(n) => Variable::F64(n, Some(Box::new(s))),
                _ => to_var(x),
            }
        }
        V::Other(_) => Variable::Return,
    }
}

thread_local! {
    pub static LOG: RefCell<Vec<V>> = RefCell::new(vec![]);
    pub static LIMIT: std::cell::Cell<usize> = std::cell::Cell::new(100_000);
}
pub const LIMIT_MSG: &str = "EFFECT-LIMIT";

fn log(v: V) -> Result<(), String> {
    let n = LOG.with(|l| { let mut l = l.borrow_mut(); if l.len() < LIMIT.with(|x| x.get()) + 8 { l.push(v); } l.len() });
    if n > LIMIT.with(|x| x.get()) { Err(LIMIT_MSG.into()) } else { Ok(()) }
}
pub fn take_log() -> Vec<V> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }

fn emit(rt: &mut Runtime) -> Result<(), String> {
    let v = rt.stack.pop().expect("arg");
    let v = from_var(rt, &v, true);
    log(v)
}
/// `ev*(k, x)`: logs k, gives x.
fn ev(rt: &mut Runtime) -> Result<Variable, String> {
    let x = rt.stack.pop().expect("arg");
    let k = rt.stack.pop().expect("arg");
    let k = from_var(rt, &k, false);
    let x = rt.get(&x).clone();
    log(k)?;
    Ok(x)
}
/// Fails with the given text.
fn fail(rt: &mut Runtime) -> Result<Variable, String> {
    let x = rt.stack.pop().expect("arg");
    match from_var(rt, &x, false) { V::Str(s) => Err(s), _ => Err("fail".into()) }
}

/// Records its arguments and gives them as an array.
fn all3(rt: &mut Runtime) -> Result<Variable, String> {
    let mut v: Vec<Variable> = vec![];
    for _ in 0..3 { let x = rt.stack.pop().expect("arg"); v.insert(0, to_var(&from_var(rt, &x, true))); }
    log(V::str("hz"))?;
    Ok(Variable::Array(Arc::new(v)))
}
/// Lazy invariants of host functions.
static LAZY_HZ: dyon::LazyInvariant = &[&[dyon::Lazy::UnwrapErr], &[dyon::Lazy::UnwrapSome, dyon::Lazy::Variable(Variable::F64(2.0, None))], &[]];
static LAZY_HY: dyon::LazyInvariant = &[&[], &[dyon::Lazy::Variable(Variable::Bool(true, None)), dyon::Lazy::UnwrapOk]];
/// The innermost current `cu`.
fn host_cu(rt: &mut Runtime) -> Result<Variable, String> { rt.current_object::<f64>("cu").map(Variable::f64) }

/// Standard module plus the harness's external functions.
pub fn base_module() -> Module {
    let mut m = Module::new();
    m.add_str("emit", emit, Dfn::nl(vec![Type::Any], Type::Void));
    for (n, t) in [("ev", Type::Any), ("ev_f", Type::F64), ("ev_b", Type::Bool), ("ev_s", Type::Str), ("ev_v", Type::Vec4), ("ev_m", Type::Mat4)] {
        m.add_str(n, ev, Dfn::nl(vec![Type::F64, t.clone()], t));
    }
    for (n, lazy) in [("hz", LAZY_HZ), ("hy", LAZY_HY)] {
        let mut d = Dfn::nl(vec![Type::Any; 3], Type::Any);
        d.lazy = lazy;
        m.add_str(n, all3, d);
    }
    m.add_str("host_cu", host_cu, Dfn::nl(vec![], Type::F64));
    m.add_str("boom", fail, Dfn::nl(vec![Type::Str], Type::Any));
    m
}

#[derive(Clone, Debug)]
pub enum Res {
    Panic(String),
    LoadErr(String),
    RunErr(String),
    Ok(V),
}

pub fn load(src: &str) -> Result<Result<Arc<Module>, String>, String> {
    load_in(base_module(), "main.dyon", src)
}
pub fn load_in(m: Module, name: &str, src: &str) -> Result<Result<Arc<Module>, String>, String> {
    let s = Arc::new(src.to_string());
    let name = name.to_string();
    guard(move || {
        let mut m = m;
        match dyon::load_str(&name, s, &mut m) {
            Ok(()) => Ok(Arc::new(m)),
            Err(e) => Err(e),
        }
    })
}

/// Loads each text as a module that imports those before it, and gives the last one.
pub fn load_parts(parts: &[&str]) -> Result<Result<Arc<Module>, String>, String> {
    let mut done: Vec<Arc<Module>> = vec![];
    for (i, t) in parts.iter().enumerate() {
        let mut m = base_module();
        for d in &done { m.import(d); }
        match load_in(m, if i + 1 == parts.len() { "main.dyon" } else { "lib.dyon" }, t) {
            Ok(Ok(m)) => done.push(m),
            r => return r,
        }
    }
    Ok(Ok(done.pop().unwrap()))
}
/// Loads, calls `f` with the arguments in a fresh runtime and gives the value, with secrets if `sec`.
pub fn run_fn(src: &str, f: &str, args: &[V], limit: usize, sec: bool) -> (Res, Vec<V>) { run_parts(&[src], f, args, limit, sec) }
pub fn run_parts(parts: &[&str], f: &str, args: &[V], limit: usize, sec: bool) -> (Res, Vec<V>) {
    let _ = take_log();
    LIMIT.with(|l| l.set(limit));
    let m = match load_parts(parts) {
        Err(p) => return (Res::Panic(format!("while loading: {}", p)), vec![]),
        Ok(Err(e)) => return (Res::LoadErr(e), vec![]),
        Ok(Ok(m)) => m,
    };
    let r = call(&mut Runtime::new(), &m, f, args, sec);
    (r, take_log())
}
pub fn call(rt: &mut Runtime, m: &Arc<Module>, f: &str, args: &[V], sec: bool) -> Res {
    let a: Vec<Variable> = args.iter().map(to_var).collect();
    let r = guard(|| {
        let r = rt.call_str_ret(f, &a, m);
        r.map(|v| from_var(rt, &v, sec))
    });
    match r { Err(p) => Res::Panic(p), Ok(Err(e)) => Res::RunErr(e), Ok(Ok(v)) => Res::Ok(v) }
}

/// Text of a value as Dyon source. Numbers must be literals the language reads exactly.
pub fn num_lit(x: f64) -> String { if x < 0.0 || (x == 0.0 && x.is_sign_negative()) { format!("-{}", -x) } else { format!("{}", x) } }
pub fn str_lit(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), '\t' => r.push_str("\\t"), '\r' => r.push_str("\\r"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
