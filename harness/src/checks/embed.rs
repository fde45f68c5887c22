//! Moving values between the host and a program.
use super::*;
use crate::dy::{self, V};
use crate::gen;
use dyon::embed::{PopVariable, PushVariable};
use dyon::{dyon_fn, dyon_fn_pop, dyon_macro_items, dyon_obj};
use dyon::{Call, Dfn, Mat4, Module, Runtime, RustObject, Type, Variable, Vec4};
use std::collections::BTreeMap;
use std::sync::Arc;

/// What popping a script value as a host type has to give.
pub enum Fit { Val(V), No, Skip }

/// A host type with its own idea of what it looks like in a script.
trait Host: PushVariable + PopVariable + Sized + 'static {
    fn gen(s: &mut Src) -> Self;
    fn v(&self) -> V;
    fn fit(v: &V) -> Fit;
}
fn seq(v: &V, f: &[fn(&V) -> Fit]) -> Fit {
    let a = match v { V::Arr(a) => a, _ => return Fit::No };
    if a.len() < f.len() { return Fit::No; }
    let mut r = vec![];
    for (x, f) in a.iter().zip(f) {
        match f(x) { Fit::Val(x) => r.push(x), Fit::No => return Fit::No, Fit::Skip => return Fit::Skip }
    }
    if a.len() > f.len() { return Fit::Skip; }
    Fit::Val(V::Arr(r))
}
impl Host for bool { fn gen(s: &mut Src) -> Self { s.bool() } fn v(&self) -> V { V::Bool(*self) } fn fit(v: &V) -> Fit { match v { V::Bool(b) => Fit::Val(V::Bool(*b)), _ => Fit::No } } }
impl Host for f64 { fn gen(s: &mut Src) -> Self { gen::any_num(s) } fn v(&self) -> V { V::Num(*self) } fn fit(v: &V) -> Fit { match v { V::Num(b) => Fit::Val(V::Num(*b)), _ => Fit::No } } }
impl Host for f32 { fn gen(s: &mut Src) -> Self { gen::any_f32(s) } fn v(&self) -> V { V::Num(*self as f64) } fn fit(v: &V) -> Fit { match v { V::Num(b) => Fit::Val(V::Num(*b as f32 as f64)), _ => Fit::No } } }
fn whole(v: &V, max: f64) -> Fit { match v { V::Num(b) => if *b >= 0.0 && *b <= max && b.floor() == *b { Fit::Val(V::Num(*b + 0.0)) } else { Fit::Skip }, _ => Fit::No } }
impl Host for u32 { fn gen(s: &mut Src) -> Self { match s.below(3) { 0 => s.below(10) as u32, 1 => u32::MAX - s.below(3) as u32, _ => s.below(1 << 32) as u32 } } fn v(&self) -> V { V::Num(*self as f64) } fn fit(v: &V) -> Fit { whole(v, u32::MAX as f64) } }
impl Host for usize { fn gen(s: &mut Src) -> Self { match s.below(3) { 0 => s.us(10), 1 => (1 << 53) - s.us(3), _ => s.us(1 << 40) } } fn v(&self) -> V { V::Num(*self as f64) } fn fit(v: &V) -> Fit { whole(v, (1u64 << 53) as f64) } }
fn str_fit(v: &V) -> Fit { match v { V::Str(b) => Fit::Val(V::Str(b.clone())), _ => Fit::No } }
impl Host for String { fn gen(s: &mut Src) -> Self { gen::any_string(s, 6) } fn v(&self) -> V { V::str(self.clone()) } fn fit(v: &V) -> Fit { str_fit(v) } }
impl Host for Arc<String> { fn gen(s: &mut Src) -> Self { Arc::new(gen::any_string(s, 6)) } fn v(&self) -> V { V::str((**self).clone()) } fn fit(v: &V) -> Fit { str_fit(v) } }
impl Host for Vec4 { fn gen(s: &mut Src) -> Self { Vec4(f4(s)) } fn v(&self) -> V { V::Vec4(self.0) } fn fit(v: &V) -> Fit { match v { V::Vec4(b) => Fit::Val(V::Vec4(*b)), _ => Fit::No } } }
impl Host for Mat4 { fn gen(s: &mut Src) -> Self { Mat4([f4(s), f4(s), f4(s), f4(s)]) } fn v(&self) -> V { V::Mat4(self.0) } fn fit(v: &V) -> Fit { match v { V::Mat4(b) => Fit::Val(V::Mat4(*b)), _ => Fit::No } } }
#[derive(Clone)]
struct Var(Variable);
impl PushVariable for Var { fn push_var(&self) -> Variable { self.0.push_var() } }
impl PopVariable for Var { fn pop_var(rt: &Runtime, v: &Variable) -> Result<Self, String> { Variable::pop_var(rt, v).map(Var) } }
impl Host for Var {
    fn gen(s: &mut Src) -> Self { Var(dy::to_var(&any_v(s, 2))) }
    fn v(&self) -> V { dy::from_var(&Runtime::new(), &self.0, false) }
    fn fit(v: &V) -> Fit { Fit::Val(v.clone()) }
}
impl<T: Host> Host for Option<T> {
    fn gen(s: &mut Src) -> Self { if s.below(3) == 0 { None } else { Some(T::gen(s)) } }
    fn v(&self) -> V { match self { None => V::None, Some(x) => V::Some(Box::new(x.v())) } }
    fn fit(v: &V) -> Fit { match v { V::None => Fit::Val(V::None), V::Some(x) => match T::fit(x) { Fit::Val(x) => Fit::Val(V::Some(Box::new(x))), o => o }, _ => Fit::No } }
}
impl<T: Host, U: Host> Host for Result<T, U> {
    fn gen(s: &mut Src) -> Self { if s.bool() { Err(U::gen(s)) } else { Ok(T::gen(s)) } }
    fn v(&self) -> V { match self { Err(x) => V::Err(Box::new(x.v())), Ok(x) => V::Ok(Box::new(x.v())) } }
    fn fit(v: &V) -> Fit {
        match v {
            V::Ok(x) => match T::fit(x) { Fit::Val(x) => Fit::Val(V::Ok(Box::new(x))), o => o },
            V::Err(x) => match U::fit(x) { Fit::Val(x) => Fit::Val(V::Err(Box::new(x))), o => o },
            _ => Fit::No,
        }
    }
}
impl<T: Host> Host for Vec<T> {
    fn gen(s: &mut Src) -> Self { let n = s.len(5); (0..n).map(|_| T::gen(s)).collect() }
    fn v(&self) -> V { V::Arr(self.iter().map(|x| x.v()).collect()) }
    fn fit(v: &V) -> Fit { match v { V::Arr(a) => { let f: Vec<fn(&V) -> Fit> = vec![T::fit; a.len()]; seq(v, &f) } _ => Fit::No } }
}
impl<T: Host> Host for [T; 2] { fn gen(s: &mut Src) -> Self { [T::gen(s), T::gen(s)] } fn v(&self) -> V { V::Arr(self.iter().map(|x| x.v()).collect()) } fn fit(v: &V) -> Fit { seq(v, &[T::fit, T::fit]) } }
impl<T: Host> Host for [T; 3] { fn gen(s: &mut Src) -> Self { [T::gen(s), T::gen(s), T::gen(s)] } fn v(&self) -> V { V::Arr(self.iter().map(|x| x.v()).collect()) } fn fit(v: &V) -> Fit { seq(v, &[T::fit, T::fit, T::fit]) } }
impl<T: Host> Host for [T; 4] { fn gen(s: &mut Src) -> Self { [T::gen(s), T::gen(s), T::gen(s), T::gen(s)] } fn v(&self) -> V { V::Arr(self.iter().map(|x| x.v()).collect()) } fn fit(v: &V) -> Fit { seq(v, &[T::fit, T::fit, T::fit, T::fit]) } }
impl<T: Host, U: Host> Host for (T, U) { fn gen(s: &mut Src) -> Self { (T::gen(s), U::gen(s)) } fn v(&self) -> V { V::Arr(vec![self.0.v(), self.1.v()]) } fn fit(v: &V) -> Fit { seq(v, &[T::fit, U::fit]) } }
impl<T: Host, U: Host, W: Host> Host for (T, U, W) { fn gen(s: &mut Src) -> Self { (T::gen(s), U::gen(s), W::gen(s)) } fn v(&self) -> V { V::Arr(vec![self.0.v(), self.1.v(), self.2.v()]) } fn fit(v: &V) -> Fit { seq(v, &[T::fit, U::fit, W::fit]) } }
impl<T: Host, U: Host, W: Host, X: Host> Host for (T, U, W, X) { fn gen(s: &mut Src) -> Self { (T::gen(s), U::gen(s), W::gen(s), X::gen(s)) } fn v(&self) -> V { V::Arr(vec![self.0.v(), self.1.v(), self.2.v(), self.3.v()]) } fn fit(v: &V) -> Fit { seq(v, &[T::fit, U::fit, W::fit, X::fit]) } }

fn obj_fit(v: &V, f: &[(&str, fn(&V) -> Fit)]) -> Fit {
    let o = match v { V::Obj(o) => o, _ => return Fit::No };
    let mut r = BTreeMap::new();
    for (k, f) in f {
        match o.get(*k) { None => return Fit::No, Some(x) => match f(x) { Fit::Val(x) => { r.insert(k.to_string(), x); } o => return o } }
    }
    Fit::Val(V::Obj(r))
}
fn obj_v(f: Vec<(&str, V)>) -> V { V::Obj(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }
struct P { x: f64, y: f64, name: String }
dyon_obj! { P { x, y, name } }
impl Host for P {
    fn gen(s: &mut Src) -> Self { P { x: f64::gen(s), y: f64::gen(s), name: String::gen(s) } }
    fn v(&self) -> V { obj_v(vec![("x", self.x.v()), ("y", self.y.v()), ("name", self.name.v())]) }
    fn fit(v: &V) -> Fit { obj_fit(v, &[("x", f64::fit), ("y", f64::fit), ("name", String::fit)]) }
}
struct Q { p: P, tags: Vec<String>, pair: (bool, f32), opt: Option<u32>, pos: Vec4 }
dyon_obj! { Q { p, tags, pair, opt, pos } }
impl Host for Q {
    fn gen(s: &mut Src) -> Self { Q { p: P::gen(s), tags: Host::gen(s), pair: Host::gen(s), opt: Host::gen(s), pos: Host::gen(s) } }
    fn v(&self) -> V { obj_v(vec![("p", self.p.v()), ("tags", self.tags.v()), ("pair", self.pair.v()), ("opt", self.opt.v()), ("pos", self.pos.v())]) }
    fn fit(v: &V) -> Fit { obj_fit(v, &[("p", P::fit), ("tags", <Vec<String>>::fit), ("pair", <(bool, f32)>::fit), ("opt", <Option<u32>>::fit), ("pos", Vec4::fit)]) }
}

fn f4(s: &mut Src) -> [f32; 4] { [gen::any_f32(s), gen::any_f32(s), gen::any_f32(s), gen::any_f32(s)] }
fn any_v(s: &mut Src, d: usize) -> V {
    match s.below(if d == 0 { 6 } else { 13 }) {
        0 => V::Num(gen::any_num(s)), 1 => V::Bool(s.bool()), 2 => V::str(gen::any_string(s, 4)), 3 => V::Num(s.below(10) as f64), 4 => V::Vec4(f4(s)), 5 => V::Mat4([f4(s), f4(s), f4(s), f4(s)]),
        6 => V::None, 7 => V::Some(Box::new(any_v(s, d - 1))), 8 => V::Ok(Box::new(any_v(s, d - 1))), 9 => V::Err(Box::new(any_v(s, d - 1))),
        10 => { let n = s.us(3); V::Obj((0..n).map(|_| (gen::key(s), any_v(s, d - 1))).collect()) }
        _ => { let n = s.us(5); let homo = s.bool(); let first = any_v(s, d - 1); V::Arr((0..n).map(|_| if homo { first.clone() } else { any_v(s, d - 1) }).collect()) }
    }
}
/// Changes one place of a value so that it may no longer fit its type.
fn damage(s: &mut Src, v: &V) -> V {
    match v {
        V::Arr(a) if !a.is_empty() && s.below(4) != 0 => { let mut a = a.clone(); let i = s.us(a.len()); if s.below(3) == 0 { a.remove(i); } else { a[i] = damage(s, &a[i]); } V::Arr(a) }
        V::Obj(o) if !o.is_empty() && s.below(4) != 0 => { let mut o = o.clone(); let k = o.keys().nth(s.us(o.len())).unwrap().clone(); if s.below(3) == 0 { o.remove(&k); } else { let x = damage(s, &o[&k]); o.insert(k, x); } V::Obj(o) }
        V::Some(x) if s.below(4) != 0 => V::Some(Box::new(damage(s, x))),
        V::Ok(x) if s.below(4) != 0 => if s.below(3) == 0 { V::Err(x.clone()) } else { V::Ok(Box::new(damage(s, x))) },
        V::Err(x) if s.below(4) != 0 => if s.below(3) == 0 { V::Ok(x.clone()) } else { V::Err(Box::new(damage(s, x))) },
        _ => any_v(s, 1),
    }
}

fn ext<T: Host>(rt: &mut Runtime) -> Result<Variable, String> { let x: T = rt.pop()?; Ok(x.push_var()) }
fn ext_cur<T: Host>(rt: &mut Runtime) -> Result<Variable, String> { let x: T = rt.current_object("cu")?; Ok(x.push_var()) }

fn num(x: f64) -> String {
    if x.is_nan() { "(0 / 0)".into() } else if x == f64::INFINITY { "(1 / 0)".into() } else if x == f64::NEG_INFINITY { "(-1 / 0)".into() } else if x.is_sign_negative() { format!("(-{})", num(-x)) } else if x >= 1e15 || x < 1e-5 && x != 0.0 { format!("{:e}", x) } else { format!("{}", x) }
}
/// Source text of a value; leaves may be put into variables of their own.
fn text(s: &mut Src, v: &V, decls: &mut String, n: &mut usize, refs: bool) -> String {
    let t = match v {
        V::Num(x) => num(*x),
        V::Bool(b) => b.to_string(),
        V::Str(x) => dy::str_lit(x),
        V::Vec4(x) => format!("({}, {}, {}, {})", num(x[0] as f64), num(x[1] as f64), num(x[2] as f64), num(x[3] as f64)),
        V::Mat4(m) => format!("mat4 {{{}}}", (0..4).map(|j| (0..4).map(|i| num(m[i][j] as f64)).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join("; ")),
        V::None => "none()".into(),
        V::Some(x) => format!("some({})", text(s, x, decls, n, refs)),
        V::Ok(x) => format!("ok({})", text(s, x, decls, n, refs)),
        V::Err(x) => format!("err({})", text(s, x, decls, n, refs)),
        V::Arr(a) => format!("[{}]", a.iter().map(|x| text(s, x, decls, n, refs)).collect::<Vec<_>>().join(", ")),
        V::Obj(o) => format!("{{{}}}", o.iter().map(|(k, x)| format!("{}: {}", dy::str_lit(k), text(s, x, decls, n, refs))).collect::<Vec<_>>().join(", ")),
        _ => unreachable!(),
    };
    if refs && s.below(3) == 0 {
        *n += 1;
        decls.push_str(&format!("  l{} := {}\n", n, t));
        return format!("l{}", n);
    }
    t
}
fn writable(v: &V) -> bool {
    match v {
        V::Obj(o) => o.iter().all(|(k, x)| !k.is_empty() && writable(x)),
        V::Arr(a) => a.iter().all(writable),
        V::Some(x) | V::Ok(x) | V::Err(x) => writable(x),
        V::Mat4(m) => m.iter().all(|r| r.iter().all(|x| x.is_finite())),
        V::Vec4(m) => m.iter().all(|x| x.is_finite()),
        _ => true,
    }
}

fn got<T: Host>(r: Result<Result<T, String>, String>) -> Result<Result<V, String>, String> { r.map(|r| r.map(|x| x.v())) }
fn judge(o: &mut Outcome, how: &str, want: &Fit, r: Result<Result<V, String>, String>) {
    match (want, r) {
        (_, Err(p)) => o.fail(format!("{}: panic: {}", how, p)),
        (Fit::Val(w), Ok(Ok(g))) => if !w.same(&g) { o.fail(format!("{}: expected {:?}, got {:?}", how, w, g)) },
        (Fit::Val(w), Ok(Err(e))) => o.fail(format!("{}: expected {:?}, got error {}", how, w, e)),
        (Fit::No, Ok(Ok(g))) => o.fail(format!("{}: expected an error, got {:?}", how, g)),
        _ => {}
    }
}

fn types<T: Host>(s: &mut Src, name: &str) -> Outcome {
    let kind = s.below(3);
    let x = T::gen(s);
    if kind == 0 {
        // There and back.
        let v = x.v();
        let mut o = Outcome::of(format!("{}: {:?} there and back", name, v));
        o.label("round trip");
        let want = Fit::Val(v.clone());
        let mut rt = Runtime::new();
        let pushed = dy::from_var(&rt, &x.push_var(), false);
        if !pushed.same(&v) { o.fail(format!("pushed as {:?}", pushed)); return o; }
        // Some values below, which must stay.
        let below: Vec<V> = (0..s.us(3)).map(|_| any_v(s, 1)).collect();
        for b in &below { rt.stack.push(dy::to_var(b)); }
        let var = x.push_var();
        judge(&mut o, "var", &want, got::<T>(guard(|| rt.var(&var))));
        rt.push(x);
        judge(&mut o, "pop", &want, got::<T>(guard(|| rt.pop())));
        let left: Vec<V> = rt.stack.iter().map(|v| dy::from_var(&rt, v, false)).collect();
        if left != below { o.fail(format!("the stack was {:?} and is {:?}", below, left)); }
        let mut m = dy::base_module();
        m.add_str("ext", ext::<T>, Dfn::nl(vec![Type::Any], Type::Any));
        m.add_str("ext_cur", ext_cur::<T>, Dfn::nl(vec![], Type::Any));
        let src = "fn id(x) -> { return clone(x) }\nfn host(x) -> { return ext(x) }\nfn local(x) -> {\n  y := x\n  z := [y, 1]\n  return ext(z[0])\n}\nfn cur(x) -> {\n  ~ cu := x\n  return ext_cur()\n}\n";
        let m = match dy::load_in(m, "main.dyon", src) { Ok(Ok(m)) => m, e => { o.fail(format!("could not load: {:?}", e.map(|e| e.err()))); return o; } };
        for f in ["id", "host", "local", "cur"] {
            let r = guard(|| Call::new(f).arg(Var(var.clone())).run_ret::<T>(&mut rt, &m));
            judge(&mut o, f, &want, got(r));
        }
        o.nontrivial = !matches!(v, V::None) && v != V::Arr(vec![]);
        o
    } else {
        // A value of this or another shape, made by the host or by a script.
        let mut v = if s.below(4) == 0 { any_v(s, 2) } else { x.v() };
        for _ in 0..s.us(3) { v = damage(s, &v); }
        let want = T::fit(&v);
        let mut o = Outcome::of(format!("{} from {:?}", name, v));
        o.label(match want { Fit::Val(_) => "fits", Fit::No => "does not fit", Fit::Skip => "unspecified fit" });
        o.nontrivial = !matches!(want, Fit::Skip);
        if kind == 1 || !writable(&v) {
            let mut rt = Runtime::new();
            let var = dy::to_var(&v);
            judge(&mut o, "var", &want, got::<T>(guard(|| rt.var(&var))));
            let r = guard(|| { rt.stack.push(var.clone()); rt.pop() });
            judge(&mut o, "pop", &want, got::<T>(r));
            // Through a variable.
            rt.stack.push(var.clone());
            let i = rt.stack.len() - 1;
            let r = guard(|| { rt.stack.push(Variable::Ref(i)); rt.pop() });
            judge(&mut o, "pop of a reference", &want, got::<T>(r));
        } else {
            o.label("made by a script");
            let mut d = String::new();
            let mut n = 0;
            let t = text(s, &v, &mut d, &mut n, true);
            let (how, call) = match s.below(4) { 0 => ("argument", format!("  return ext({})\n", t)), 1 => ("variable", format!("  x := {}\n  return ext(x)\n", t)), 2 => ("element", format!("  x := [{}]\n  return ext(x[0])\n", t)), _ => ("current object", format!("  ~ cu := {}\n  return ext_cur()\n", t)) };
            let src = format!("fn start() -> {{\n{}{}}}\n", d, call);
            o.desc.push_str(&format!("\n{}", src));
            let mut m = dy::base_module();
            m.add_str("ext", ext::<T>, Dfn::nl(vec![Type::Any], Type::Any));
            m.add_str("ext_cur", ext_cur::<T>, Dfn::nl(vec![], Type::Any));
            let m = match dy::load_in(m, "main.dyon", &src) { Ok(Ok(m)) => m, e => { o.fail(format!("could not load: {:?}", e.map(|e| e.err()))); return o; } };
            let r = match dy::call(&mut Runtime::new(), &m, "start", &[], false) { dy::Res::Panic(p) => Err(p), dy::Res::Ok(v) => Ok(Ok(v)), dy::Res::RunErr(e) | dy::Res::LoadErr(e) => Ok(Err(e)) };
            judge(&mut o, how, &want, r);
        }
        o
    }
}

/// Vector and matrix conversions.
fn vecs(s: &mut Src) -> Outcome {
    let a = f4(s);
    let d: [f64; 4] = [gen::any_num(s), gen::any_num(s), gen::any_num(s), gen::any_num(s)];
    let u: [u32; 2] = [s.below(1 << 24) as u32, s.below(256) as u32];
    let b: [u8; 4] = [s.below(256) as u8, s.below(256) as u8, s.below(256) as u8, s.below(256) as u8];
    let m = [f4(s), f4(s), f4(s), f4(s)];
    let mut o = Outcome::of(format!("conversions of {:?} {:?} {:?} {:?} {:?}", a, d, u, b, m));
    o.label("vector conversions");
    o.nontrivial = true;
    let w = |x: f64| x as f32;
    let mut eq = |n: &str, g: [f32; 4], e: [f32; 4]| if !(0..4).all(|i| dy::same_f32(g[i], e[i])) { o.fail(format!("{}: expected {:?}, got {:?}", n, e, g)) };
    let r = guard(|| {
        let z = 0.0f32;
        eq("[f32;2]", <Vec4 as From<_>>::from([a[0], a[1]]).0, [a[0], a[1], z, z]);
        eq("[f32;3]", <Vec4 as From<_>>::from([a[0], a[1], a[2]]).0, [a[0], a[1], a[2], z]);
        eq("[f32;4]", <Vec4 as From<_>>::from(a).0, a);
        eq("[f64;2]", <Vec4 as From<_>>::from([d[0], d[1]]).0, [w(d[0]), w(d[1]), z, z]);
        eq("[f64;3]", <Vec4 as From<_>>::from([d[0], d[1], d[2]]).0, [w(d[0]), w(d[1]), w(d[2]), z]);
        eq("[f64;4]", <Vec4 as From<_>>::from(d).0, [w(d[0]), w(d[1]), w(d[2]), w(d[3])]);
        eq("(f32,2)", <Vec4 as From<_>>::from((a[0], a[1])).0, [a[0], a[1], z, z]);
        eq("(f32,3)", <Vec4 as From<_>>::from((a[0], a[1], a[2])).0, [a[0], a[1], a[2], z]);
        eq("(f32,4)", <Vec4 as From<_>>::from((a[0], a[1], a[2], a[3])).0, a);
        eq("(f64,2)", <Vec4 as From<_>>::from((d[0], d[1])).0, [w(d[0]), w(d[1]), z, z]);
        eq("(f64,3)", <Vec4 as From<_>>::from((d[0], d[1], d[2])).0, [w(d[0]), w(d[1]), w(d[2]), z]);
        eq("(f64,4)", <Vec4 as From<_>>::from((d[0], d[1], d[2], d[3])).0, [w(d[0]), w(d[1]), w(d[2]), w(d[3])]);
        eq("[u32;2]", <Vec4 as From<_>>::from(u).0, [u[0] as f32, u[1] as f32, z, z]);
        eq("(u32,2)", <Vec4 as From<_>>::from((u[0], u[1])).0, [u[0] as f32, u[1] as f32, z, z]);
        // Back.
        let x: [f32; 2] = Vec4(a).into(); eq("to [f32;2]", [x[0], x[1], z, z], [a[0], a[1], z, z]);
        let x: [f32; 3] = Vec4(a).into(); eq("to [f32;3]", [x[0], x[1], x[2], z], [a[0], a[1], a[2], z]);
        let x: [f32; 4] = Vec4(a).into(); eq("to [f32;4]", x, a);
        let x: [f64; 2] = Vec4(a).into(); eq("to [f64;2]", [w(x[0]), w(x[1]), z, z], [a[0], a[1], z, z]);
        let x: [f64; 3] = Vec4(a).into(); eq("to [f64;3]", [w(x[0]), w(x[1]), w(x[2]), z], [a[0], a[1], a[2], z]);
        let x: [f64; 4] = Vec4(a).into(); eq("to [f64;4]", [w(x[0]), w(x[1]), w(x[2]), w(x[3])], a);
        let x: (f32, f32) = Vec4(a).into(); eq("to (f32,2)", [x.0, x.1, z, z], [a[0], a[1], z, z]);
        let x: (f32, f32, f32) = Vec4(a).into(); eq("to (f32,3)", [x.0, x.1, x.2, z], [a[0], a[1], a[2], z]);
        let x: (f32, f32, f32, f32) = Vec4(a).into(); eq("to (f32,4)", [x.0, x.1, x.2, x.3], a);
        let x: (f64, f64) = Vec4(a).into(); eq("to (f64,2)", [w(x.0), w(x.1), z, z], [a[0], a[1], z, z]);
        let x: (f64, f64, f64) = Vec4(a).into(); eq("to (f64,3)", [w(x.0), w(x.1), w(x.2), z], [a[0], a[1], a[2], z]);
        let x: (f64, f64, f64, f64) = Vec4(a).into(); eq("to (f64,4)", [w(x.0), w(x.1), w(x.2), w(x.3)], a);
        let x: [u32; 2] = Vec4::from(u).into(); eq("u32 back", [x[0] as f32, x[1] as f32, z, z], [u[0] as f32, u[1] as f32, z, z]);
        let x: (u32, u32) = Vec4::from(u).into(); eq("u32 pair back", [x.0 as f32, x.1 as f32, z, z], [u[0] as f32, u[1] as f32, z, z]);
        let bf = [b[0] as f32, b[1] as f32, b[2] as f32, b[3] as f32];
        let v = Vec4::from(b); eq("color", v.0, [bf[0] / 255.0, bf[1] / 255.0, bf[2] / 255.0, bf[3] / 255.0]);
        let v2 = Vec4::from((b[0], b[1], b[2], b[3])); eq("color tuple", v2.0, v.0);
        let x: [u8; 4] = v.into(); eq("color back", [x[0] as f32, x[1] as f32, x[2] as f32, x[3] as f32], bf);
        let x: (u8, u8, u8, u8) = v.into(); eq("color tuple back", [x.0 as f32, x.1 as f32, x.2 as f32, x.3 as f32], bf);
        // Through a runtime and a script.
        let mut rt = Runtime::new();
        rt.push_vec4([a[0], a[1]]); let x: [f32; 4] = rt.pop_vec4().unwrap(); eq("push_vec4 2", x, [a[0], a[1], z, z]);
        rt.push_vec4([a[0], a[1], a[2]]); let x: [f32; 4] = rt.pop_vec4().unwrap(); eq("push_vec4 3", x, [a[0], a[1], a[2], z]);
        rt.push_vec4(a); let x: [f32; 4] = rt.pop_vec4().unwrap(); eq("push_vec4 4", x, a);
        rt.push_vec4(Vec4(a)); let x: Vec4 = rt.pop_vec4().unwrap(); eq("push_vec4 Vec4", x.0, a);
        rt.push_vec4([d[0], d[1]]); let x: [f32; 4] = rt.pop_vec4().unwrap(); eq("push_vec4 f64 2", x, [w(d[0]), w(d[1]), z, z]);
        rt.push_vec4([d[0], d[1], d[2]]); let x: [f32; 4] = rt.pop_vec4().unwrap(); eq("push_vec4 f64 3", x, [w(d[0]), w(d[1]), w(d[2]), z]);
        rt.push_vec4(d); let x: [f32; 4] = rt.pop_vec4().unwrap(); eq("push_vec4 f64 4", x, [w(d[0]), w(d[1]), w(d[2]), w(d[3])]);
        rt.push_vec4(a); let x: [f32; 2] = rt.pop_vec4().unwrap(); eq("pop_vec4 2", [x[0], x[1], z, z], [a[0], a[1], z, z]);
        rt.push_vec4(a); let x: [f32; 3] = rt.pop_vec4().unwrap(); eq("pop_vec4 3", [x[0], x[1], x[2], z], [a[0], a[1], a[2], z]);
        rt.push_vec4(a); let x: [f64; 2] = rt.pop_vec4().unwrap(); eq("pop_vec4 f64 2", [w(x[0]), w(x[1]), z, z], [a[0], a[1], z, z]);
        rt.push_vec4(a); let x: [f64; 3] = rt.pop_vec4().unwrap(); eq("pop_vec4 f64 3", [w(x[0]), w(x[1]), w(x[2]), z], [a[0], a[1], a[2], z]);
        rt.push_vec4(a); let x: [f64; 4] = rt.pop_vec4().unwrap(); eq("pop_vec4 f64 4", [w(x[0]), w(x[1]), w(x[2]), w(x[3])], a);
        let x: [f32; 4] = rt.var_vec4(&Variable::Vec4(a)).unwrap(); eq("var_vec4", x, a);
        let same = |x: [[f32; 4]; 4]| (0..4).all(|j| (0..4).all(|i| dy::same_f32(x[j][i], m[j][i])));
        rt.push_mat4(m); let x: [[f32; 4]; 4] = rt.pop_mat4().unwrap();
        let mut ok = same(x);
        rt.push_mat4(Mat4(m)); let x: Mat4 = rt.pop_mat4().unwrap(); ok &= same(x.0);
        ok &= same(Mat4::from(m).0) && same(dyon::embed::ConvertMat4::to(&Mat4(m))) && same(<Mat4 as dyon::embed::ConvertMat4>::from(m).0);
        let x: [[f32; 4]; 4] = rt.var_mat4(&Variable::Mat4(Box::new(m))).unwrap(); ok &= same(x);
        if !ok { return Err("matrix changed".to_string()); }
        let md = match dy::load("fn id(x) -> { return clone(x) }\n") { Ok(Ok(m)) => m, e => return Err(format!("load: {:?}", e.map(|e| e.err()))) };
        let x: [f32; 4] = Call::new("id").vec4(a).run_vec4(&mut rt, &md)?; eq("call vec4", x, a);
        let x: [f64; 3] = Call::new("id").vec4([d[0], d[1], d[2]]).run_vec4(&mut rt, &md)?; eq("call vec4 f64", [w(x[0]), w(x[1]), w(x[2]), z], [w(d[0]), w(d[1]), w(d[2]), z]);
        let x: Mat4 = Call::new("id").arg(Mat4(m)).run_ret(&mut rt, &md)?;
        if !same(x.0) { return Err("matrix changed by a call".to_string()); }
        // Wrong types.
        if rt.var_vec4::<[f32; 4]>(&Variable::f64(1.0)).is_ok() || rt.var_mat4::<Mat4>(&Variable::Vec4(a)).is_ok() { return Err("wrong type accepted".into()); }
        rt.push_mat4(m); if rt.pop_vec4::<Vec4>().is_ok() { return Err("wrong type accepted".into()); }
        rt.push_vec4(a); if rt.pop_mat4::<Mat4>().is_ok() { return Err("wrong type accepted".into()); }
        if Call::new("id").arg(1.0f64).run_vec4::<Vec4>(&mut rt, &md).is_ok() { return Err("wrong type accepted".into()); }
        if !rt.stack.is_empty() { return Err(format!("{} values left on the stack", rt.stack.len())); }
        Ok(())
    });
    match r { Err(p) => o.fail(format!("panic: {}", p)), Ok(Err(e)) => o.fail(e), Ok(Ok(())) => {} }
    o
}

// Host functions, one for each form the macro has.
thread_local! { static SEEN: std::cell::RefCell<Vec<V>> = std::cell::RefCell::new(vec![]); }
fn saw(name: &str, mut a: Vec<V>) { a.insert(0, V::str(name)); SEEN.with(|s| s.borrow_mut().push(V::Arr(a))); }
#[derive(Clone, Copy)]
struct Cnt(f64);
struct Txt(String);
dyon_fn! { fn mk_zero() -> #Cnt { Cnt(0.0) } }
dyon_fn! { fn mk_cnt(a: f64, b: f64) -> #Cnt { saw("mk_cnt", vec![a.v(), b.v()]); Cnt(a - b) } }
dyon_fn! { fn mk_txt(a: String, n: f64) -> #Txt { saw("mk_txt", vec![a.v(), n.v()]); Txt(a) } }
dyon_fn! { fn next_of(a: #&Cnt) -> #Cnt { Cnt(a.0 + 1.0) } }
dyon_fn! { fn moved(a: #&Cnt, by: f64, f: f64) -> #Cnt { saw("moved", vec![by.v(), f.v()]); Cnt(a.0 * f + by) } }
dyon_fn! { fn both(a: #&Cnt, b: #&Txt) -> (f64, String) { (a.0, b.0.clone()) } }
dyon_fn! { fn both3(a: #&Cnt, b: #&Txt, c: f64, d: bool) -> (f64, String, f64, bool) { (a.0, b.0.clone(), c, d) } }
dyon_fn! { fn peek(a: #&Cnt) -> f64 { a.0 } }
dyon_fn! { fn peek_txt(a: #&Txt) -> String { a.0.clone() } }
dyon_fn! { fn plus(a: #&Cnt, b: f64, c: String) -> (f64, f64, String) { (a.0, b, c) } }
dyon_fn! { fn byval(a: #Cnt, b: f64, c: f64) -> [f64; 3] { [a.0, b, c] } }
dyon_fn! { fn take_from(a: #&mut Cnt, b: #&Txt, n: f64) -> (f64, String) { let x = a.0; a.0 -= n; (x, b.0.clone()) } }
dyon_fn! { fn take_cnt(a: #&mut Txt, b: #Cnt, t: String) -> f64 { a.0.push_str(&t); b.0 } }
dyon_fn! { fn plain3(a: f64, b: String, c: bool) -> (bool, f64, String) { (c, a, b) } }
dyon_fn! { fn plain0() -> f64 { saw("plain0", vec![]); 7.0 } }
dyon_fn! { fn void0() { saw("void0", vec![]); } }
dyon_fn! { fn void3(a: f64, b: String, c: Vec<f64>) { saw("void3", vec![a.v(), b.v(), c.v()]); } }
dyon_fn! { fn append(a: #&mut Txt, b: #&Cnt, t: String) { a.0.push_str(&format!("{}{}", b.0, t)); } }
dyon_fn! { fn bump(a: #&mut Cnt, by: f64, times: f64) { a.0 += by * times; } }
dyon_fn! { fn note(a: #&Cnt, x: f64, y: String) { saw("note", vec![a.0.v(), x.v(), y.v()]); } }
dyon_fn! { fn notev(a: #Cnt, x: f64, y: String) { saw("notev", vec![a.0.v(), x.v(), y.v()]); } }
dyon_fn! { fn only(a: #Cnt, b: #Cnt) { saw("only", vec![a.0.v(), b.0.v()]); } }
dyon_fn! { fn set_from(a: #&mut Cnt, b: #Cnt, x: f64) { a.0 = b.0 * x; } }

fn host_module() -> Module {
    let mut m = dy::base_module();
    use Type::*;
    m.add_str("mk_zero", mk_zero, Dfn::nl(vec![], Any));
    m.add_str("mk_cnt", mk_cnt, Dfn::nl(vec![F64, F64], Any));
    m.add_str("mk_txt", mk_txt, Dfn::nl(vec![Str, F64], Any));
    m.add_str("next_of", next_of, Dfn::nl(vec![Any], Any));
    m.add_str("moved", moved, Dfn::nl(vec![Any, F64, F64], Any));
    m.add_str("both", both, Dfn::nl(vec![Any, Any], Any));
    m.add_str("both3", both3, Dfn::nl(vec![Any, Any, F64, Bool], Any));
    m.add_str("peek", peek, Dfn::nl(vec![Any], F64));
    m.add_str("peek_txt", peek_txt, Dfn::nl(vec![Any], Str));
    m.add_str("plus", plus, Dfn::nl(vec![Any, F64, Str], Any));
    m.add_str("byval", byval, Dfn::nl(vec![Any, F64, F64], Any));
    m.add_str("take_from", take_from, Dfn::nl(vec![Any, Any, F64], Any));
    m.add_str("take_cnt", take_cnt, Dfn::nl(vec![Any, Any, Str], F64));
    m.add_str("plain3", plain3, Dfn::nl(vec![F64, Str, Bool], Any));
    m.add_str("plain0", plain0, Dfn::nl(vec![], F64));
    m.add_str("void0", void0, Dfn::nl(vec![], Void));
    m.add_str("void3", void3, Dfn::nl(vec![F64, Str, Array(Box::new(F64))], Void));
    m.add_str("append", append, Dfn::nl(vec![Any, Any, Str], Void));
    m.add_str("bump", bump, Dfn::nl(vec![Any, F64, F64], Void));
    m.add_str("note", note, Dfn::nl(vec![Any, F64, Str], Void));
    m.add_str("notev", notev, Dfn::nl(vec![Any, F64, Str], Void));
    m.add_str("only", only, Dfn::nl(vec![Any, Any], Void));
    m.add_str("set_from", set_from, Dfn::nl(vec![Any, Any, F64], Void));
    m
}

/// A script working on host objects, against a plain list of objects.
fn objects(s: &mut Src) -> Outcome {
    #[derive(Clone)]
    enum O { C(f64), T(String) }
    let mut objs = vec![O::C(3.0), O::T("t".into()), O::C(-1.5)];
    let mut names: Vec<(String, usize)> = vec![("a".into(), 0), ("b".into(), 1), ("c".into(), 2)];
    let mut want: Vec<V> = vec![];
    let mut emitted: Vec<V> = vec![];
    let mut src = String::from("fn start(a, b, c) -> {\n  arr := [a, b, c]\n  obj := {k: [b, c]}\n");
    for (n, i) in [("arr[0]", 0), ("arr[1]", 1), ("arr[2]", 2), ("obj.k[0]", 1), ("obj.k[1]", 2)] { names.push((n.into(), i)); }
    let mut fresh = 0;
    let n = 3 + s.us(9);
    let lit = |s: &mut Src| s.range(0, 9) as f64;
    let sl = |s: &mut Src| s.pick(&["", "p", "q\n", "é"]).to_string();
    for _ in 0..n {
        let pick = |s: &mut Src, cnt: Option<bool>, objs: &Vec<O>| -> (String, usize) {
            let c: Vec<&(String, usize)> = names.iter().filter(|(_, i)| match cnt { None => true, Some(t) => matches!(objs[*i], O::C(_)) == t }).collect();
            s.pick(&c).clone().clone()
        };
        let cv = |o: &O| match o { O::C(x) => *x, _ => unreachable!() };
        let tv = |o: &O| match o { O::T(x) => x.clone(), _ => unreachable!() };
        match s.below(22) {
            0 | 1 => { let (e, i) = pick(s, Some(true), &objs); src.push_str(&format!("  emit(peek({}))\n", e)); emitted.push(V::Num(cv(&objs[i]))); }
            2 => { let (e, i) = pick(s, Some(false), &objs); src.push_str(&format!("  emit(peek_txt({}))\n", e)); emitted.push(V::str(tv(&objs[i]))); }
            3 | 4 => { let (e, i) = pick(s, Some(true), &objs); let (x, y) = (lit(s), lit(s)); src.push_str(&format!("  bump({}, {}, {})\n", e, x, y)); objs[i] = O::C(cv(&objs[i]) + x * y); }
            5 => { let (e, i) = pick(s, Some(false), &objs); let (f, j) = pick(s, Some(true), &objs); let t = sl(s); src.push_str(&format!("  append({}, {}, {})\n", e, f, dy::str_lit(&t))); objs[i] = O::T(format!("{}{}{}", tv(&objs[i]), cv(&objs[j]), t)); }
            6 => { let (e, i) = pick(s, Some(true), &objs); let (f, j) = pick(s, Some(false), &objs); let x = lit(s); src.push_str(&format!("  emit(take_from({}, {}, {}))\n", e, f, x)); emitted.push(V::Arr(vec![V::Num(cv(&objs[i])), V::str(tv(&objs[j]))])); objs[i] = O::C(cv(&objs[i]) - x); }
            7 => { let (e, i) = pick(s, Some(false), &objs); let (f, j) = pick(s, Some(true), &objs); let t = sl(s); src.push_str(&format!("  emit(take_cnt({}, {}, {}))\n", e, f, dy::str_lit(&t))); emitted.push(V::Num(cv(&objs[j]))); objs[i] = O::T(format!("{}{}", tv(&objs[i]), t)); }
            8 => { let (e, i) = pick(s, Some(true), &objs); let x = lit(s); let t = sl(s); src.push_str(&format!("  emit(plus({}, {}, {}))\n", e, x, dy::str_lit(&t))); emitted.push(V::Arr(vec![V::Num(cv(&objs[i])), V::Num(x), V::str(t)])); }
            9 => { let (e, i) = pick(s, Some(true), &objs); let (x, y) = (lit(s), lit(s)); src.push_str(&format!("  emit(byval({}, {}, {}))\n", e, x, y)); emitted.push(V::Arr(vec![V::Num(cv(&objs[i])), V::Num(x), V::Num(y)])); }
            10 => { let (x, y) = (lit(s), lit(s)); fresh += 1; src.push_str(&format!("  n{} := mk_cnt({}, {})\n", fresh, x, y)); want.push(V::Arr(vec![V::str("mk_cnt"), V::Num(x), V::Num(y)])); names.push((format!("n{}", fresh), objs.len())); objs.push(O::C(x - y)); }
            11 => { let t = sl(s); fresh += 1; src.push_str(&format!("  n{} := mk_txt({}, 4)\n", fresh, dy::str_lit(&t))); want.push(V::Arr(vec![V::str("mk_txt"), V::str(t.clone()), V::Num(4.0)])); names.push((format!("n{}", fresh), objs.len())); objs.push(O::T(t)); }
            12 => { let (e, i) = pick(s, Some(true), &objs); fresh += 1; src.push_str(&format!("  n{} := next_of({})\n", fresh, e)); names.push((format!("n{}", fresh), objs.len())); let x = cv(&objs[i]) + 1.0; objs.push(O::C(x)); }
            13 => { let (e, i) = pick(s, Some(true), &objs); let (x, y) = (lit(s), lit(s)); fresh += 1; src.push_str(&format!("  n{} := moved({}, {}, {})\n", fresh, e, x, y)); want.push(V::Arr(vec![V::str("moved"), V::Num(x), V::Num(y)])); names.push((format!("n{}", fresh), objs.len())); let x = cv(&objs[i]) * y + x; objs.push(O::C(x)); }
            14 => { let (e, i) = pick(s, None, &objs); fresh += 1; src.push_str(&format!("  n{} := {}\n", fresh, e)); names.push((format!("n{}", fresh), i)); }
            15 => { let (e, i) = pick(s, Some(true), &objs); let (f, j) = pick(s, Some(false), &objs); src.push_str(&format!("  emit(both({}, {}))\n", e, f)); emitted.push(V::Arr(vec![V::Num(cv(&objs[i])), V::str(tv(&objs[j]))])); }
            16 => { let (e, i) = pick(s, Some(true), &objs); let (f, j) = pick(s, Some(false), &objs); let x = lit(s); let b = s.bool(); src.push_str(&format!("  emit(both3({}, {}, {}, {}))\n", e, f, x, b)); emitted.push(V::Arr(vec![V::Num(cv(&objs[i])), V::str(tv(&objs[j])), V::Num(x), V::Bool(b)])); }
            17 => { let (x, t, b) = (lit(s), sl(s), s.bool()); src.push_str(&format!("  emit(plain3({}, {}, {}))\n", x, dy::str_lit(&t), b)); emitted.push(V::Arr(vec![V::Bool(b), V::Num(x), V::str(t)])); }
            18 => { let (x, t, y) = (lit(s), sl(s), lit(s)); src.push_str(&format!("  void3({}, {}, [{}, 2])\n  void0()\n  emit(plain0())\n", x, dy::str_lit(&t), y)); want.push(V::Arr(vec![V::str("void3"), V::Num(x), V::str(t), V::Arr(vec![V::Num(y), V::Num(2.0)])])); want.push(V::Arr(vec![V::str("void0")])); want.push(V::Arr(vec![V::str("plain0")])); emitted.push(V::Num(7.0)); }
            19 => { let (e, i) = pick(s, Some(true), &objs); let (x, t) = (lit(s), sl(s)); let f = *s.pick(&["note", "notev"]); src.push_str(&format!("  {}({}, {}, {})\n", f, e, x, dy::str_lit(&t))); want.push(V::Arr(vec![V::str(f), V::Num(cv(&objs[i])), V::Num(x), V::str(t)])); }
            20 => {
                let (e, i) = pick(s, Some(true), &objs); let (f, j) = pick(s, Some(true), &objs);
                if i == j { continue; }
                if s.bool() { src.push_str(&format!("  only({}, {})\n", e, f)); want.push(V::Arr(vec![V::str("only"), V::Num(cv(&objs[i])), V::Num(cv(&objs[j]))])); }
                else { let x = lit(s); src.push_str(&format!("  set_from({}, {}, {})\n", e, f, x)); objs[i] = O::C(cv(&objs[j]) * x); }
            }
            _ => {
                // Wrong kind of object, or no object at all: an error that changes nothing.
                let (f, t) = *s.pick(&[("peek", false), ("peek_txt", true), ("next_of", false)]);
                let e = match s.below(4) { 0 => "3".to_string(), 1 => "[a]".to_string(), _ => pick(s, Some(t), &objs).0 };
                src.push_str(&format!("  emit(is_err(try {}({})))\n", f, e));
                emitted.push(V::Bool(true));
            }
        }
    }
    src.push_str("  return 0\n}\n");
    let mut o = Outcome::of(src.clone());
    o.label("host objects");
    o.nontrivial = true;
    let m = match dy::load_in(host_module(), "main.dyon", &src) { Ok(Ok(m)) => m, e => { o.fail(format!("could not load: {:?}", e.map(|e| e.err()))); return o; } };
    SEEN.with(|s| s.borrow_mut().clear());
    let _ = dy::take_log();
    dy::LIMIT.with(|l| l.set(5000));
    let mut rt = Runtime::new();
    let keep: RustObject = dyon::embed::to_rust_object(Cnt(-1.5));
    let r = guard(|| Call::new("start").rust(Cnt(3.0)).rust(Txt("t".into())).arg(keep.clone()).run_ret::<f64>(&mut rt, &m));
    let log = dy::take_log();
    let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    match r {
        Err(p) => o.fail(format!("panic: {}", p)),
        Ok(Err(e)) => o.fail(format!("error: {}", e)),
        Ok(Ok(_)) => {
            if log != emitted { o.fail(format!("expected {:?}, got {:?}", emitted, log)); }
            if seen != want { o.fail(format!("host functions should have seen {:?}, saw {:?}", want, seen)); }
            let end = keep.lock().unwrap().downcast_ref::<Cnt>().map(|c| c.0);
            match (&objs[2], end) { (O::C(x), Some(y)) if dy::same_num(*x, y) => {} (_, e) => o.fail(format!("the host's own object ends as {:?}", e)) }
            // Nothing in the runtime keeps the object alive.
            if rt.stack.is_empty() && Arc::strong_count(&keep) != 1 { o.fail(format!("{} owners of the host object remain", Arc::strong_count(&keep))); }
        }
    }
    o
}

/// The call builder against the same call written in a script.
fn calls(s: &mut Src) -> Outcome {
    let n = s.us(5);
    // Functions returning references to their arguments.
    let refs = n > 0 && s.below(3) == 0;
    let vals: Vec<V> = (0..n).map(|_| loop { let v = any_v(s, 2); if writable(&v) { break v; } }).collect();
    let mut d = String::new();
    let mut k = 0;
    let ts: Vec<String> = vals.iter().map(|v| text(s, v, &mut d, &mut k, false)).collect();
    let ps: Vec<String> = (0..n).map(|i| format!("a{}", i)).collect();
    let mut sig = ps.join(", ");
    let body = match s.below(4) {
        _ if refs => {
            sig = ps.iter().map(|p| format!("{}: 'return", p)).collect::<Vec<_>>().join(", ");
            let i = s.us(n);
            match s.below(5) { 0 => format!("  return a{}\n", i), 1 => format!("  return [a{}, 1, a{}]\n", i, i), 2 => format!("  return {{k: a{}, l: [[a{}]]}}\n", i, i), 3 => format!("  x := [a{}]\n  return x\n", i).replace("return x", "return clone(x)"), _ => format!("  return [g(a{})]\n", i) }
        }
        0 => format!("  return clone([{}])\n", ps.join(", ")),
        1 if n > 0 => format!("  emit(a0)\n  x := a{}\n  return [x, 1]\n", n - 1).replace("return [x, 1]", "return clone([x, 1])"),
        2 if n > 1 => format!("  b := [a0]\n  b[0] = a{}\n  emit(typeof(a1))\n  return clone(b)\n", n - 1),
        _ => format!("  emit(len([{}]))\n  return {{k: str([{}])}}\n", ps.join(", "), ps.join(", ")),
    };
    let lets: String = if refs { ts.iter().enumerate().map(|(i, t)| format!("  v{} := {}\n", i, t)).collect() } else { String::new() };
    let ret = if refs { format!("{}  return clone(f({}))", lets, (0..n).map(|i| format!("v{}", i)).collect::<Vec<_>>().join(", ")) } else { format!("  return f({})", ts.join(", ")) };
    let src = format!("fn g(x: 'return) -> {{\n  return x\n}}\nfn f({}) -> {{\n{}}}\nfn v({}) {{\n  emit([{}])\n}}\nfn go_f() -> {{\n{}\n}}\nfn go_v() {{\n  v({})\n}}\n", sig, body, ps.join(", "), ps.join(", "), ret, ts.join(", "));
    let mut o = Outcome::of(src.clone());
    o.label("call builder");
    o.nontrivial = n > 0;
    let m = match dy::load(&src) { Ok(Ok(m)) => m, e => { o.fail(format!("could not load: {:?}", e.map(|e| e.err()))); return o; } };
    let build = |name: &str| { let mut c = Call::new(name); for v in &vals { c = match v { V::Vec4(x) => c.vec4(*x), V::Num(x) => c.arg(*x), V::Str(x) => c.arg(x.clone()), V::Bool(x) => c.arg(*x), v => c.arg(Var(dy::to_var(v))) }; } c };
    let mut rt = Runtime::new();
    let _ = dy::take_log();
    dy::LIMIT.with(|l| l.set(5000));
    let objs = vals.iter().any(has_big_obj);
    let mut run = |c: Call, ret: bool| -> (Result<Result<V, String>, String>, Vec<V>) {
        let r = guard(|| if ret { c.run_ret::<Var>(&mut rt, &m).map(|x| x.v()) } else { c.run(&mut rt, &m).map(|_| V::Void) });
        (r, dy::take_log())
    };
    for (a, b, ret) in [("f", "go_f", true), ("v", "go_v", false)] {
        let (x, l) = run(build(a), ret);
        let (y, k) = run(Call::new(b), ret);
        match (&x, &y) {
            (Err(p), _) | (_, Err(p)) => { o.fail(format!("panic: {}", p)); }
            (Ok(Ok(x)), Ok(Ok(y))) => {
                // Text of an object lists its keys in any order.
                if !(x.same(y) || objs && matches!(x, V::Obj(_))) || l != k { o.fail(format!("builder gave {:?} with effects {:?}, script gave {:?} with {:?}", x, l, y, k)); }
            }
            (Ok(Err(_)), Ok(Err(_))) => {}
            _ => o.fail(format!("builder gave {:?}, script gave {:?}", x, y)),
        }
    }
    o
}
fn has_big_obj(v: &V) -> bool {
    match v { V::Obj(o) => o.len() > 1 || o.values().any(has_big_obj), V::Arr(a) => a.iter().any(has_big_obj), V::Some(x) | V::Ok(x) | V::Err(x) => has_big_obj(x), _ => false }
}

macro_rules! tys { ($s:expr, $($t:ty),+ $(,)?) => {{
    let fs: Vec<(fn(&mut Src, &str) -> Outcome, &str)> = vec![$((types::<$t>, stringify!($t))),+];
    let (f, n) = *$s.pick(&fs);
    f($s, n)
}} }
fn case(s: &mut Src, _: &Cfg) -> Outcome {
    match s.below(12) {
        0 => vecs(s),
        1 | 2 => objects(s),
        3 | 4 => calls(s),
        _ => tys!(s, f64, bool, String, u32, f32, usize, Arc<String>, Vec4, Mat4, Var,
            Option<f64>, Option<String>, Option<Option<bool>>, Result<f64, String>, Result<Option<u32>, f64>, Result<Vec<String>, (f64, bool)>,
            [f64; 2], [f64; 3], [f64; 4], [String; 2], [bool; 3], [Option<f64>; 4], [[f64; 2]; 3],
            (f64, String), (String, f64), (bool, f64, String), (f64, bool, Vec4, String), (u32, f32, usize, bool), ((f64, bool), [String; 2]), (Option<f64>, Vec<bool>, P), (Vec4, Mat4),
            Vec<f64>, Vec<String>, Vec<Vec<u32>>, Vec<(bool, f64)>, Vec<Option<f64>>, Vec<P>, P, Q, Option<P>, (P, Q), [P; 2], Vec<Var>, Vec<Result<f64, String>>),
    }
}
pub fn check() -> Check { Check { id: "C19", quick: 25_000, thorough: 20_000_000, case, rule: "the value is not empty and whether it fits the host type is specified", probes: no_probes, assumptions: &["Numbers outside a host integer type and arrays longer than a host array are left unspecified."] } }
