//! C25: the listing of a module's functions against the declarations it was made of, and against what the checker
//! and the run time make of the listed signatures.
use super::*;
use crate::dy::{self, Res, V};
use dyon::{Dfn, Lt, Runtime, Type, Variable};
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
enum T { Any, Bool, F, S, V, M, L, O, Arr(Box<T>), Opt(Box<T>), Res(Box<T>), SecB, SecF, Thr(Box<T>), In(Box<T>), Ad(&'static str, Box<T>), Cl(Vec<T>, Box<T>) }
use T::*;

fn ty(s: &mut Src, d: usize) -> T {
    let k = s.below(if d == 0 { 9 } else { 18 });
    let b = |s: &mut Src| Box::new(ty(s, d.saturating_sub(1)));
    match k {
        0 => Any, 1 => Bool, 2 | 3 => F, 4 => S, 5 => V, 6 => M, 7 => L, 8 => O,
        9 | 10 => Arr(b(s)), 11 => Opt(b(s)), 12 => T::Res(b(s)), 13 => if s.bool() { SecB } else { SecF },
        14 => Thr(b(s)), 15 => In(b(s)), 16 => Ad(s.pick(&["km", "Foo", "unit_x"]), b(s)),
        _ => { let n = s.us(3); let a = (0..n).map(|_| ty(s, d - 1)).collect(); Cl(a, b(s)) }
    }
}
/// One of the spellings of the type.
fn spell(s: &mut Src, t: &T) -> String {
    let sp = |s: &mut Src| s.pick(&["", "", "", " "]).to_string();
    let mut wrap = |s: &mut Src, n: &str, x: &T| if *x == Any && s.bool() { n.to_string() } else { let (a, b, c) = (sp(s), sp(s), sp(s)); format!("{}{}[{}{}{}]", n, a, b, spell(s, x), c) };
    match t {
        Any => "any".into(), Bool => "bool".into(), F => "f64".into(), S => "str".into(), V => "vec4".into(), M => "mat4".into(), L => "link".into(), O => "{}".into(),
        Arr(x) => if **x == Any && s.bool() { "[]".into() } else { let (a, b) = (sp(s), sp(s)); format!("[{}{}{}]", a, spell(s, x), b) },
        Opt(x) => wrap(s, "opt", x), T::Res(x) => wrap(s, "res", x), Thr(x) => wrap(s, "thr", x), In(x) => wrap(s, "in", x),
        SecB => "sec[bool]".into(), SecF => "sec[f64]".into(),
        Ad(n, x) => if **x == O && s.bool() { n.to_string() } else { format!("{} {}", n, spell(s, x)) },
        Cl(a, r) => { let a: Vec<String> = a.iter().map(|x| spell(s, x)).collect(); let sep = format!("{}, {}", sp(s), sp(s)); format!("\\({}){}-> {}", a.join(&sep), s.pick(&[" ", "", "  "]), spell(s, r)) }
    }
}
/// The text the listing documents.
fn text(t: &T) -> String {
    let w = |n: &str, x: &T| if *x == Any { n.to_string() } else { format!("{}[{}]", n, text(x)) };
    match t {
        Any => "any".into(), Bool => "bool".into(), F => "f64".into(), S => "str".into(), V => "vec4".into(), M => "mat4".into(), L => "link".into(), O => "{}".into(),
        Arr(x) => if **x == Any { "[]".into() } else { format!("[{}]", text(x)) },
        Opt(x) => w("opt", x), T::Res(x) => w("res", x), Thr(x) => w("thr", x), In(x) => w("in", x),
        SecB => "sec[bool]".into(), SecF => "sec[f64]".into(),
        Ad(n, x) => format!("{} {}", n, text(x)),
        Cl(a, r) => format!("\\({}) -> {}", a.iter().map(text).collect::<Vec<_>>().join(", "), text(r)),
    }
}
fn host(t: &T) -> Type {
    let b = |x: &T| Box::new(host(x));
    match t {
        Any => Type::Any, Bool => Type::Bool, F => Type::F64, S => Type::Str, V => Type::Vec4, M => Type::Mat4, L => Type::Link, O => Type::Object,
        Arr(x) => Type::Array(b(x)), Opt(x) => Type::Option(b(x)), T::Res(x) => Type::Result(b(x)), Thr(x) => Type::Thread(b(x)), In(x) => Type::In(b(x)),
        SecB => Type::Secret(Box::new(Type::Bool)), SecF => Type::Secret(Box::new(Type::F64)),
        Ad(n, x) => Type::AdHoc(Arc::new(n.to_string()), b(x)),
        Cl(a, r) => Type::Closure(Box::new(Dfn::nl(a.iter().map(host).collect(), host(r)))),
    }
}
fn noop(_: &mut Runtime) -> Result<(), String> { Ok(()) }

/// name, kind, (argument name, lifetime, type), return type.
type Rec = (String, String, Vec<(String, Option<String>, String)>, String);

fn record(v: &V) -> Result<Rec, String> {
    let bad = || format!("not a function record: {:?}", v);
    let o = match v { V::Obj(o) => o, _ => return Err(bad()) };
    let st = |k: &str, o: &BTreeMap<String, V>| match o.get(k) { Some(V::Str(s)) => Ok(s.clone()), _ => Err(bad()) };
    if o.len() != 4 { return Err(bad()) }
    let mut args = vec![];
    match o.get("arguments") { Some(V::Arr(a)) => for x in a { match x {
        V::Obj(x) if x.len() == 3 => { let lt = match x.get("lifetime") { Some(V::None) => None, Some(V::Some(l)) => match &**l { V::Str(s) => Some(s.clone()), _ => return Err(bad()) }, _ => return Err(bad()) }; args.push((st("name", x)?, lt, st("takes", x)?)) }
        _ => return Err(bad()),
    } }, _ => return Err(bad()) }
    Ok((st("name", o)?, st("type", o)?, args, st("returns", o)?))
}
fn records(v: &V) -> Result<Vec<Rec>, String> { match v { V::Arr(a) => a.iter().map(record).collect(), v => Err(format!("not a list: {:?}", v)) } }

const MAIN: &str = "fn list() -> any {\n return functions()\n}\nfn listed(src: str, libs: []) -> any {\n    mods := []\n    for i len(libs) {\n        m := module(in: \"lib\", string: libs[i], imports: clone(mods))\n        push(mut mods, unwrap(m))\n    }\n    m := unwrap(module(in: \"x\", string: src, imports: mods))\n    return functions(module: m)\n}\n";

/// A declaration: its source and what the listing says about it.
fn declare(s: &mut Src, name: &str) -> (String, Rec) {
    let n = s.len(4);
    let names: Vec<String> = (0..n).map(|i| format!("{}{}", s.pick(&["a", "b", "x", "long_name", "mutt", "in_"]), i)).collect();
    let form = s.below(4);
    let mut src = String::new();
    let mut args = vec![];
    let muts: Vec<bool> = (0..n).map(|_| s.chance(1, 4)).collect();
    for i in 0..n {
        if i > 0 { src.push_str(s.pick(&[", ", ",", " , "])); }
        if muts[i] { src.push_str("mut "); }
        src.push_str(&names[i]);
        // A lifetime may name an earlier argument (no cycles), or the result.
        let lt = if s.chance(1, 4) { if i > 0 && s.bool() { Some(names[s.us(i)].clone()) } else if form >= 2 { Some("return".to_string()) } else { None } } else { None };
        let t = if s.chance(1, 4) { Any } else { ty(s, 3) };
        let plain = t == Any && s.bool();
        if lt.is_some() || !plain { src.push_str(s.pick(&[": ", " : ", ":"])); }
        if let Some(l) = &lt { src.push_str(&format!("'{}{}", l, if plain { "" } else { " " })); }
        if !plain { src.push_str(&spell(s, &t)); }
        args.push((names[i].clone(), lt, text(&t)));
    }
    let full = if muts.iter().any(|m| *m) { format!("{}({})", name, muts.iter().map(|m| if *m { "mut" } else { "_" }).collect::<Vec<_>>().join(",")) } else { name.to_string() };
    match form {
        0 => (format!("fn {}({}) {{\n    x := 1\n}}\n", name, src), (full, "loaded".into(), args, "void".into())),
        1 => (format!("fn {}({}) -> {{\n    return boom(\"x\")\n}}\n", name, src), (full, "loaded".into(), args, "any".into())),
        _ => { let r = ty(s, 3); let t = spell(s, &r); (format!("fn {}({}) -> {} {{\n    return boom(\"x\")\n}}\n", name, src, t), (full, "loaded".into(), args, text(&r))) }
    }
}
fn listing(s: &mut Src) -> Outcome {
    const NAMES: &[&str] = &["alpha", "beta", "gamma", "f", "g", "len2", "say_hi", "zz", "Upper", "foo__x_y", "foo__x", "é", "aa", "a1"];
    let mut m = dy::base_module();
    let mut want: Vec<Rec> = vec![];
    let mut d = String::new();
    for _ in 0..s.len(3) {
        let n = s.len(4);
        let mut lts = vec![];
        let mut args = vec![];
        let mut tys = vec![];
        let muts: Vec<bool> = (0..n).map(|_| s.chance(1, 5)).collect();
        for i in 0..n {
            let t = ty(s, 3);
            let (l, lt) = match s.below(5) { 0 if i > 0 => { let k = s.us(i); (Some(format!("arg{}", k)), Lt::Arg(k)) } 1 => (Some("return".into()), Lt::Return), _ => (None, Lt::Default) };
            args.push((format!("arg{}", i), l, text(&t)));
            tys.push(host(&t));
            lts.push(lt);
        }
        let r = if s.chance(1, 4) { None } else { Some(ty(s, 3)) };
        let name = s.pick(NAMES);
        let name = if muts.iter().any(|m| *m) { format!("{}({})", name, muts.iter().map(|m| if *m { "mut" } else { "_" }).collect::<Vec<_>>().join(",")) } else { name.to_string() };
        d.push_str(&format!("external {} {:?} -> {:?}\n", name, args, r.as_ref().map(text)));
        let dfn = Dfn { lts, tys, ret: r.as_ref().map(host).unwrap_or(Type::Void), ext: vec![], lazy: &[] };
        match r { None => m.add(Arc::new(name.clone()), noop as fn(&mut Runtime) -> Result<(), String>, dfn), Some(_) => m.add(Arc::new(name.clone()), nothing as fn(&mut Runtime) -> Result<Variable, String>, dfn) };
        want.push((name, "external".into(), args, r.as_ref().map(text).unwrap_or("void".into())));
    }
    // Declarations of a module: distinct names.
    let module = |s: &mut Src, max: usize, own: &mut Vec<Rec>| {
        let mut names: Vec<&str> = NAMES.to_vec();
        let mut src = String::new();
        for _ in 0..s.len(max) { let i = s.us(names.len()); let n = names.swap_remove(i); let (t, r) = declare(s, n); src.push_str(&t); own.push(r); }
        src
    };
    let dynamic = s.bool();
    let got;
    let mut own = vec![];
    let mut rt = Runtime::new();
    if dynamic {
        let nl = s.us(3);
        // A module lists what it imports and what it declares.
        let mut lists: Vec<Vec<Rec>> = vec![];
        let mut libs = vec![];
        for _ in 0..nl { let mut l: Vec<Rec> = lists.iter().flatten().cloned().collect(); libs.push(V::Str(module(s, 3, &mut l))); lists.push(l); }
        own.extend(lists.into_iter().flatten());
        let src = module(s, 6, &mut own);
        d.push_str(&format!("{:?}\n{}", libs, src));
        let mm = match dy::load_in(m, "main.dyon", MAIN) { Ok(Ok(m)) => m, r => { let mut o = Outcome::of(d); o.fail(format!("main does not load: {:?}", r.map(|x| x.map(|_| ())))); return o } };
        got = dy::call(&mut rt, &mm, "listed", &[V::Str(src), V::Arr(libs)], false);
    } else {
        let src = format!("{}fn list() -> any {{\n    return functions()\n}}\n", module(s, 6, &mut own));
        own.push(("list".into(), "loaded".into(), vec![], "any".into()));
        d.push_str(&src);
        let mm = match dy::load_in(m, "main.dyon", &src) { Ok(Ok(m)) => m, Ok(Err(e)) => { let mut o = Outcome::of(d); o.fail(format!("does not load: {}", e)); return o } Err(p) => { let mut o = Outcome::of(d); o.fail(format!("panic: {}", p)); return o } };
        got = dy::call(&mut rt, &mm, "list", &[], false);
    }
    let mut o = Outcome::of(d);
    o.label(if dynamic { "module made while running" } else { "own module" });
    o.nontrivial = !own.is_empty();
    want.extend(own);
    want.extend(std().iter().cloned());
    let got = match got { Res::Ok(v) => v, r => { o.fail(format!("listing gave {:?}", r)); return o } };
    let got = match records(&got) { Ok(r) => r, Err(e) => { o.fail(e); return o } };
    for w in got.windows(2) { if w[0].0 > w[1].0 { o.fail(format!("not sorted: {} before {}", w[0].0, w[1].0)); return o } }
    let mut g = got;
    g.sort();
    want.sort();
    if g != want {
        let miss: Vec<&Rec> = want.iter().filter(|r| count(&want, r) > count(&g, r)).collect();
        let extra: Vec<&Rec> = g.iter().filter(|r| count(&g, r) > count(&want, r)).collect();
        o.fail(format!("missing {:?}, unexpected {:?}", miss, extra));
    }
    o
}
fn count(l: &[Rec], r: &Rec) -> usize { l.iter().filter(|x| *x == r).count() }
fn nothing(_: &mut Runtime) -> Result<Variable, String> { Ok(Variable::bool(true)) }

/// The listing of a module without functions of its own: the standard library and the harness's functions.
fn std() -> &'static [Rec] {
    static B: OnceLock<Vec<Rec>> = OnceLock::new();
    B.get_or_init(|| {
        let m = dy::load(MAIN).expect("loads").expect("loads");
        match dy::call(&mut Runtime::new(), &m, "list", &[], false) { Res::Ok(v) => records(&v).expect("records").into_iter().filter(|r| r.1 == "external").collect(), r => panic!("{:?}", r) }
    })
}

fn parse(t: &str) -> Option<T> {
    let w = |p: &str, t: &str| if t == p { Some(Any) } else { t.strip_prefix(p)?.strip_prefix('[')?.strip_suffix(']').and_then(parse) };
    Some(match t {
        "any" => Any, "bool" => Bool, "f64" => F, "str" => S, "vec4" => V, "mat4" => M, "link" => L, "{}" => O, "[]" => Arr(Box::new(Any)), "sec[bool]" => SecB, "sec[f64]" => SecF,
        _ => {
            if let Some(x) = t.strip_prefix('[').and_then(|t| t.strip_suffix(']')) { return Some(Arr(Box::new(parse(x)?))) }
            if let Some(x) = w("opt", t) { return Some(Opt(Box::new(x))) }
            if let Some(x) = w("res", t) { return Some(T::Res(Box::new(x))) }
            if let Some(x) = w("thr", t) { return Some(Thr(Box::new(x))) }
            if let Some(x) = w("in", t) { return Some(In(Box::new(x))) }
            return None
        }
    })
}
/// An expression of the type; `u` is the kind used for `any`.
fn lit(s: &mut Src, t: &T, u: &T) -> String {
    match t {
        Any => if *u == Any { "1".into() } else { lit(s, u, u) },
        Bool => s.pick(&["true", "false"]).to_string(),
        F => s.pick(&["0", "1", "2", "3.5", "-4", "100"]).to_string(),
        S => s.pick(&["\"\"", "\"a\"", "\"1\"", "\"a b\"", "\"[1]\"", "\"é\""]).to_string(),
        V => s.pick(&["(1, 2)", "(0, 0, 0, 1)", "(1, 2, 3, 4)"]).to_string(),
        M => s.pick(&["mat4 {1,2,3,4; 5,6,7,8; 9,1,2,3; 4,5,6,7}", "mat4 {1,0,0,0; 0,1,0,0; 0,0,1,0; 0,0,0,1}"]).to_string(),
        L => s.pick(&["link {}", "link {1 \"a\" true}"]).to_string(),
        O => s.pick(&["{}", "{a: 1, b: \"x\"}"]).to_string(),
        Arr(x) => { let n = 1 + s.us(3); format!("[{}]", (0..n).map(|_| lit(s, x, u)).collect::<Vec<_>>().join(", ")) }
        Opt(x) => if s.chance(1, 4) { "none()".into() } else { format!("some({})", lit(s, x, u)) },
        T::Res(x) => if s.chance(1, 4) { "err(\"e\")".into() } else { format!("ok({})", lit(s, x, u)) },
        SecB => s.pick(&["any i 3 { i > 0 }", "all i 3 { i < 1 }"]).to_string(),
        SecF => s.pick(&["min i 3 { i + 1 }", "max i 3 { i }"]).to_string(),
        Thr(_) => "go job()".into(),
        In(_) => "in chan".into(),
        _ => "1".into(),
    }
}
/// A value's type is known not to go with an argument's type.
fn clash(p: &T, v: &T) -> bool {
    match (p, v) {
        (Any, _) | (_, Any) => false,
        // The item type of a literal is not always known.
        (Arr(_), Arr(_)) | (Opt(_), Opt(_)) | (T::Res(_), T::Res(_)) | (Thr(_), Thr(_)) | (In(_), In(_)) => false,
        (Bool, SecB) | (F, SecF) => false,
        (p, v) => p != v,
    }
}
const KINDS: &[T] = &[F, V, Bool, S, L, M, O];
fn arr(t: T) -> T { Arr(Box::new(t)) }
fn other(s: &mut Src, p: &T) -> T {
    loop {
        let t = match s.below(12) { 0 => arr(F), 1 => arr(S), 2 => Opt(Box::new(F)), 3 => T::Res(Box::new(S)), 4 => SecF, _ => s.pick(KINDS).clone() };
        if clash(p, &t) { return t }
    }
}
fn has(v: &V, t: &T) -> bool {
    match (t, v) {
        (_, V::Sec(x, _)) => has(x, t),
        (Any, V::Void) => false,
        (Any, _) | (SecB | Bool, V::Bool(_)) | (SecF | F, V::Num(_)) | (S, V::Str(_)) | (T::V, V::Vec4(_)) | (M, V::Mat4(_)) | (L, V::Link(_)) | (O, V::Obj(_)) => true,
        (Arr(x), V::Arr(a)) => a.iter().all(|v| has(v, x)),
        (Opt(_), V::None) => true,
        (Opt(x), V::Some(v)) | (T::Res(x), V::Ok(v)) => has(v, x),
        (T::Res(_), V::Err(_)) => true,
        (Thr(_) | In(_) | Cl(..), V::Other(_)) => true,
        _ => false,
    }
}
/// A program calling the built-in with locals of the given types.
fn call_src(s: &mut Src, r: &Rec, tys: &[T], u: &T, ret: Option<&str>, body: &dyn Fn(&str) -> String) -> String {
    let base = r.0.split('(').next().unwrap();
    let muts: Vec<bool> = match r.0.find('(') { Some(i) => r.0[i + 1..r.0.len() - 1].split(',').map(|p| p == "mut").collect(), None => vec![] };
    let mut src = format!("fn job() -> f64 {{ return 1 }}\nfn chan(x: any) {{ y := 1 }}\nfn start(){} {{\n", ret.map(|r| format!(" -> {}", r)).unwrap_or_default());
    // Later arguments first, since a lifetime names an earlier argument that is outlived.
    for (i, t) in tys.iter().enumerate().rev() { src.push_str(&format!("    v{} := {}\n", i, lit(s, t, u))); }
    let args: Vec<String> = (0..tys.len()).map(|i| format!("{}v{}", if muts.get(i) == Some(&true) { "mut " } else { "" }, i)).collect();
    src.push_str(&body(&format!("{}({})", base, args.join(", "))));
    src.push_str("}\n");
    src
}
fn loads(src: &str) -> Result<bool, String> { Ok(dy::load(src)?.is_ok()) }

/// The documented signatures of the library, one per line: name, argument types with lifetimes, result.
fn documented() -> &'static BTreeMap<String, Vec<String>> {
    static B: OnceLock<BTreeMap<String, Vec<String>>> = OnceLock::new();
    B.get_or_init(|| {
        let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for l in include_str!("../library.txt").lines() { if let Some((n, r)) = l.split_once('\t') { m.entry(n.to_string()).or_default().push(r.to_string()); } }
        m
    })
}
fn line(r: &Rec) -> String { format!("({}) -> {}", r.2.iter().map(|(_, l, t)| match l { Some(l) => format!("'{} {}", l, t), None => t.clone() }).collect::<Vec<_>>().join(", "), r.3) }
/// Every documented function is there with its signature; others may have been added.
fn library(s: &mut Src) -> Outcome {
    let d = documented();
    let k = s.us(d.len());
    let (n, sigs) = d.iter().nth(k).unwrap();
    let mut got: Vec<String> = std().iter().filter(|r| r.0 == *n).map(line).collect();
    got.sort();
    let mut o = Outcome::of(format!("{} {:?}", n, sigs));
    o.label("documented signature");
    o.nontrivial = true;
    if got != *sigs { o.fail(format!("listed as {:?}", got)) }
    o
}
pub fn table() -> String { let mut v: Vec<String> = std().iter().map(|r| format!("{}\t{}", r.0, line(r))).collect(); v.sort(); v.join("\n") + "\n" }

/// What the listing says about a built-in is what the checker enforces and the run time gives.
fn signature(s: &mut Src) -> Outcome {
    let r = &std()[s.us(std().len())];
    let tys: Option<Vec<T>> = r.2.iter().map(|a| parse(&a.2)).collect();
    let (tys, ret) = match (tys, parse(&r.3)) { (Some(t), x) if x.is_some() || r.3 == "void" => (t, x), _ => { let mut o = Outcome::of(format!("{:?}", r)); o.fail("a listed type is not one of the language's"); return o } };
    let mode = s.weighted(&[3, 2, 3, 2, 2, 4]);
    let void = ret.is_none();
    let to_return = r.2.iter().any(|a| a.1.as_deref() == Some("return"));
    let stmt = |c: &str| if void { format!("    {}\n", c) } else { format!("    x := {}\n", c) };
    let mut src = String::new();
    macro_rules! done { ($o:ident, $l:expr) => {{ $o.label($l); $o.nontrivial = true; return $o }} }
    macro_rules! verdict { ($src:expr) => { match loads(&$src) { Ok(x) => x, Err(p) => { let mut o = Outcome::of($src.clone()); o.fail(format!("panic: {}", p)); return o } } } }
    match mode {
        0 => {
            // Arguments of the listed types are accepted, for some choice of what `any` stands for.
            let mut any = false;
            for u in KINDS.iter().chain(&[arr(F), T::Res(Box::new(F)), Opt(Box::new(F))]) { src = call_src(s, r, &tys, u, None, &stmt); if verdict!(src) { any = true; break } }
            let mut o = Outcome::of(format!("{:?}\n{}", r, src));
            if !any { o.fail("arguments of the listed types are not accepted") }
            done!(o, "listed types accepted")
        }
        1 => {
            let mut t = tys.clone();
            if s.bool() && !t.is_empty() { t.pop(); } else { t.push(F) }
            // Another listed function may have that number of arguments.
            src = call_src(s, r, &t, &F, None, &stmt);
            let mut o = Outcome::of(format!("{:?}\n{}", r, src));
            if verdict!(src) { o.fail("a wrong number of arguments is accepted") }
            done!(o, "wrong number rejected")
        }
        2 => {
            let c: Vec<usize> = (0..tys.len()).filter(|i| tys[*i] != Any).collect();
            let mut o = Outcome::of(format!("{:?}", r));
            if c.is_empty() { o.discard = true; return o }
            let i = *s.pick(&c);
            let mut t = tys.clone();
            t[i] = other(s, &tys[i]);
            src = call_src(s, r, &t, &F, None, &stmt);
            let mut o = Outcome::of(format!("{:?}\n{}", r, src));
            if verdict!(src) { o.fail(format!("argument {} of type {} is accepted", i, text(&t[i]))) }
            done!(o, "wrong type rejected")
        }
        3 => {
            // A call as a statement is for functions that give nothing.
            let mut any = false;
            for u in KINDS.iter().chain(&[arr(F), T::Res(Box::new(F)), Opt(Box::new(F))]) { src = call_src(s, r, &tys, u, None, &|c| format!("    {}\n", c)); if verdict!(src) { any = true; break } }
            let mut o = Outcome::of(format!("{:?}\n{}", r, src));
            if any != void { o.fail(format!("as a statement: accepted {}, listed as returning {}", any, r.3)) }
            done!(o, "statement")
        }
        4 => {
            let mut o = Outcome::of(format!("{:?}", r));
            let ret = match &ret { Some(t) if *t != Any && !to_return => t.clone(), _ => { o.discard = true; return o } };
            let wrong = s.bool();
            let d = if wrong { other(s, &ret) } else { ret.clone() };
            // A secret may be given where a plain value is declared.
            let wrong = wrong && clash(&d, &ret);
            let mut any = false;
            for u in KINDS.iter().chain(&[arr(F), T::Res(Box::new(F)), Opt(Box::new(F))]) { src = call_src(s, r, &tys, u, Some(&text(&d)), &|c| format!("    return {}\n", c)); if verdict!(src) { any = true; break } }
            o = Outcome::of(format!("{:?}\n{}", r, src));
            if any == wrong { o.fail(format!("returned as {}: accepted {}", text(&d), any)) }
            done!(o, "result type")
        }
        _ => {
            let mut o = Outcome::of(format!("{:?}", r));
            let ret = match &ret { Some(t) if !super::fuzz::SKIP.contains(&r.0.split('(').next().unwrap()) => t.clone(), _ => { o.discard = true; return o } };
            let u = s.pick(KINDS).clone();
            src = call_src(s, r, &tys, &u, Some("any"), &|c| format!("    return clone({})\n", c));
            o = Outcome::of(format!("{:?}\n{}", r, src));
            let m = match dy::load(&src) { Ok(Ok(m)) => m, Ok(Err(_)) => { o.discard = true; return o } Err(p) => { o.fail(format!("panic: {}", p)); return o } };
            match dy::call(&mut Runtime::new(), &m, "start", &[], false) {
                Res::Ok(v) => { if !has(&v, &ret) { o.fail(format!("gave {:?}, listed as returning {}", v, r.3)) } done!(o, "result is of the listed type") }
                Res::RunErr(_) => o.label("run-time error"),
                x => o.fail(format!("{:?}", x)),
            }
            o
        }
    }
}

fn case(s: &mut Src, _: &Cfg) -> Outcome { let o = match s.below(20) { 0..=10 => listing(s), 11..=17 => signature(s), _ => library(s) }; let _ = dy::take_log(); o }

pub fn check() -> Check { Check { id: "C25", quick: 20_000, thorough: 5_000_000, case, rule: "a module with functions of its own is listed, or a verdict or result is compared with a listed signature", probes: no_probes, assumptions: &["functions that wait, read the input of the process, reach the network or write files are judged at load only"] } }
