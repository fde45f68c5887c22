//! C15: which function a call reaches. Random graphs of modules (namespaces, aliases, renames, imports, transitive
//! modules, modules made by functions while running, external functions), built by the host or by a script; every
//! function gives a tree of tags, so the result shows every function that was reached. The oracle is a small model of
//! the visible function lists.
use super::*;
use crate::dy::{self, V};
use crate::engine::guard;
use dyon::{Dfn, Module, Runtime, Type, Variable};
use std::fmt::Write;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Arg { No, F, S, Mut }
#[derive(Clone, Debug)]
enum How { Plain, Closure, Go, Try }
#[derive(Clone, Debug)]
enum Item {
    Call { alias: Option<String>, name: String, arg: Arg, k: u32, how: How },
    /// Makes a module while running and calls a function of it.
    Load { spec: Rc<Spec>, mode: Mode, call: String, arg: Arg, k: u32 },
    Boom,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Plain, Tr(bool, bool) }
#[derive(Clone, Debug)]
struct FSpec { name: String, arg: Arg, items: Vec<Item> }
#[derive(Clone, Debug)]
struct Use { ns: String, fns: Vec<(String, Option<String>)>, alias: String }
#[derive(Clone, Debug)]
struct Spec { tag: String, ns: String, uses: Vec<Use>, fns: Vec<FSpec> }

/// A resolved function.
#[derive(Debug)]
struct F { name: String, ns: String, arg: Arg, tag: String, spec: FSpec, calls: Vec<Option<Tgt>> }
#[derive(Clone, Debug)]
enum Tgt { Fun(Rc<Cellf>), Ext(usize) }
/// Functions of one module refer to each other.
#[derive(Debug)]
struct Cellf(std::cell::OnceCell<F>);
impl Cellf { fn f(&self) -> &F { self.0.get().expect("resolved") } }
#[derive(Clone, Default)]
struct Mod { funs: Vec<Rc<Cellf>>, ext: Vec<usize>, tr: usize }

/// External functions: namespace, name, argument.
const EXT: &[(&str, &str, Arg)] = &[("hosta", "n0", Arg::F), ("hostb", "n0", Arg::S), ("hosta", "n1", Arg::No), ("hostb", "n2", Arg::F), ("hosta", "n3", Arg::Mut), ("hostb::deep", "n3", Arg::Mut)];
fn ext_tag(i: usize) -> String { format!("X{}", i) }
fn e_ret<const I: usize>(rt: &mut Runtime) -> Result<Variable, String> {
    let mut r = vec![Variable::Str(Arc::new(ext_tag(I)))];
    if EXT[I].2 != Arg::No { let x = rt.stack.pop().expect("arg"); r.push(rt.get(&x).clone()) }
    Ok(Variable::Array(Arc::new(r)))
}
fn e_mut<const I: usize>(rt: &mut Runtime) -> Result<(), String> {
    let x = rt.stack.pop().expect("arg");
    if let Variable::Ref(i) = x { if let Variable::Array(a) = &mut rt.stack[i] { Arc::make_mut(a).push(Variable::Str(Arc::new(ext_tag(I)))); return Ok(()) } }
    Err("expected a variable".into())
}
fn lookup_name(n: &str, a: Arg) -> String { if a == Arg::Mut { format!("{}(mut)", n) } else { n.into() } }
fn host_base(which: &[usize]) -> Module {
    let mut m = dy::base_module();
    for &i in which {
        m.no_ns();
        let parts: Vec<&str> = EXT[i].0.split("::").collect();
        match parts.len() { 1 => m.ns(parts[0]), _ => m.ns(EXT[i].0) }
        let ty = match EXT[i].2 { Arg::No => vec![], Arg::F => vec![Type::F64], Arg::S => vec![Type::Str], Arg::Mut => vec![Type::array()] };
        let d = Dfn::nl(ty.clone(), Type::Any);
        let v = Dfn::nl(ty, Type::Void);
        let n = lookup_name(EXT[i].1, EXT[i].2);
        match i { 0 => m.add_str(&n, e_ret::<0>, d), 1 => m.add_str(&n, e_ret::<1>, d), 2 => m.add_str(&n, e_ret::<2>, d), 3 => m.add_str(&n, e_ret::<3>, d), 4 => m.add_str(&n, e_mut::<4>, v), _ => m.add_str(&n, e_mut::<5>, v) }
    }
    m.no_ns();
    m
}

enum Why { Rejected(String), Ambiguous }

fn tgt_arg(t: &Tgt) -> Arg { match t { Tgt::Fun(f) => f.f().arg, Tgt::Ext(i) => EXT[*i].2 } }

/// What a name without alias means.
fn plain(list: &[(String, String, Tgt)], ext: &[usize], name: &str) -> Option<Tgt> {
    if let Some(x) = list.iter().rev().find(|x| x.0 == name) { return Some(x.2.clone()) }
    ext.iter().rev().find(|&&i| lookup_name(EXT[i].1, EXT[i].2) == name).map(|&i| Tgt::Ext(i))
}
fn same(a: &Tgt, b: &Tgt) -> bool { match (a, b) { (Tgt::Fun(a), Tgt::Fun(b)) => Rc::ptr_eq(a, b), (Tgt::Ext(a), Tgt::Ext(b)) => a == b, _ => false } }
/// What an aliased name means. `name` carries the mutability.
fn aliased(list: &[(String, String, Tgt)], ext: &[usize], uses: &[Use], alias: &str, name: &str) -> Result<Option<Tgt>, Why> {
    let (base, suf) = match name.find('(') { Some(i) => (&name[..i], &name[i..]), None => (name, "") };
    let in_ns = |ns: &str, n: &str| -> Vec<Tgt> {
        let mut r: Vec<Tgt> = list.iter().filter(|x| x.1 == ns && x.0 == n).map(|x| x.2.clone()).collect();
        r.extend(ext.iter().filter(|&&i| EXT[i].0 == ns && lookup_name(EXT[i].1, EXT[i].2) == n).map(|&i| Tgt::Ext(i)));
        r
    };
    let mut spec = vec![];
    let mut glob = vec![];
    for u in uses.iter().filter(|u| u.alias == alias) {
        if u.fns.is_empty() { glob.extend(in_ns(&u.ns, name)) }
        for (f, as_) in &u.fns { if as_.as_ref().unwrap_or(f) == base { spec.extend(in_ns(&u.ns, &format!("{}{}", f, suf))) } }
    }
    let c = if spec.is_empty() { glob } else { spec };
    if c.windows(2).any(|w| !same(&w[0], &w[1])) { return Err(Why::Ambiguous) }
    Ok(c.first().cloned())
}

/// Resolves a module over the functions it can see.
fn build(spec: &Spec, tr: &[Rc<Cellf>], ext0: &[usize], imports: &[&Mod]) -> Result<Mod, Why> {
    let mut funs: Vec<Rc<Cellf>> = tr.to_vec();
    let mut ext = ext0.to_vec();
    for m in imports {
        for e in &m.ext { if !ext.contains(e) { ext.push(*e) } }
        funs.extend(m.funs.iter().cloned());
    }
    let mut list: Vec<(String, String, Tgt)> = funs.iter().map(|f| (f.f().name.clone(), f.f().ns.clone(), Tgt::Fun(f.clone()))).collect();
    let own: Vec<Rc<Cellf>> = spec.fns.iter().map(|_| Rc::new(Cellf(std::cell::OnceCell::new()))).collect();
    let args: Vec<Arg> = spec.fns.iter().map(|f| f.arg).collect();
    // The namespace lookup also sees the functions of the module itself.
    for (f, c) in spec.fns.iter().zip(&own) { list.push((lookup_name(&f.name, f.arg), spec.ns.clone(), Tgt::Fun(c.clone()))); }
    let arg_of = |t: &Tgt| match t { Tgt::Fun(c) => own.iter().position(|o| Rc::ptr_eq(o, c)).map(|i| args[i]).unwrap_or_else(|| c.f().arg), Tgt::Ext(i) => EXT[*i].2 };
    let mut done = vec![];
    for f in &spec.fns {
        let mut calls = vec![];
        for it in &f.items {
            calls.push(match it {
                Item::Call { alias, name, arg, .. } => {
                    let n = lookup_name(name, *arg);
                    let t = match alias { None => plain(&list, &ext, &n), Some(a) => aliased(&list, &ext, &spec.uses, a, &n)? };
                    let Some(t) = t else { return Err(Why::Rejected(format!("{} calls {} which is not visible", f.name, n))) };
                    if arg_of(&t) != *arg { return Err(Why::Rejected(format!("{} calls {} with a wrong argument", f.name, n))) }
                    Some(t)
                }
                _ => None,
            });
        }
        done.push(calls);
    }
    for ((f, c), calls) in spec.fns.iter().zip(&own).zip(done) {
        c.0.set(F { name: lookup_name(&f.name, f.arg), ns: spec.ns.clone(), arg: f.arg, tag: format!("{}.{}", spec.tag, f.name), spec: f.clone(), calls }).ok().expect("once");
        funs.push(c.clone());
    }
    Ok(Mod { funs, ext, tr: tr.len() })
}

struct Eval { steps: u32, seen: Vec<&'static str> }
enum Bad { Budget, Ambiguous, Fail }
impl Eval {
    /// Runs `f` while `m` is the running module.
    fn run(&mut self, f: &Rc<Cellf>, m: &Mod, arg: Option<V>) -> Result<Vec<V>, Bad> {
        self.steps += 1;
        if self.steps > 400 { return Err(Bad::Budget) }
        let f = f.f();
        let mut out = vec![V::str(f.tag.clone())];
        if let Some(a) = arg { out.push(a) }
        for (it, t) in f.spec.items.iter().zip(&f.calls) {
            match it {
                Item::Call { arg, k, how, .. } => {
                    let a = val(*arg, *k);
                    match (t.as_ref().unwrap(), arg) {
                        (Tgt::Ext(i), Arg::Mut) => out.push(V::str(ext_tag(*i))),
                        (Tgt::Fun(g), Arg::Mut) => { let r = self.run(g, m, None)?; out.extend(r) }
                        (Tgt::Ext(i), _) => { let mut r = vec![V::str(ext_tag(*i))]; r.extend(a); out.push(wrap(how, Ok(V::Arr(r)))?) }
                        (Tgt::Fun(g), _) => { let r = self.run(g, m, a); out.push(wrap(how, match r { Err(Bad::Fail) => Err(()), Err(e) => return Err(e), Ok(r) => Ok(V::Arr(r)) })?) }
                    }
                }
                Item::Boom => return Err(Bad::Fail),
                Item::Load { spec, mode, call, arg, k } => {
                    self.seen.push("module made while running");
                    let usetr = match mode { Mode::Plain => true, Mode::Tr(_, u) => *u };
                    let tr = if usetr { &m.funs[..m.tr] } else { &[] };
                    out.push(match build(spec, tr, &m.ext, &[]) {
                        Err(Why::Ambiguous) => return Err(Bad::Ambiguous),
                        Err(Why::Rejected(_)) => { self.seen.push("rejected at run time"); V::str("rejected") }
                        Ok(mut n) => {
                            if let Mode::Tr(true, _) = mode { n.tr = n.funs.len() }
                            match self.dynamic(&n, call, *arg, *k)? { Some(v) => V::Ok(Box::new(v)), None => V::Err(Box::new(V::str(crate::model::ERR))) }
                        }
                    });
                }
            }
        }
        Ok(out)
    }
    /// Calls by name; `None` is an error.
    fn dynamic(&mut self, m: &Mod, name: &str, arg: Arg, k: u32) -> Result<Option<V>, Bad> {
        let Some(f) = m.funs.iter().rev().find(|f| f.f().name == name) else { return Ok(None) };
        let f = f.clone();
        if (f.f().arg == Arg::No) != (arg == Arg::No) { return Ok(None) }
        match self.run(&f, m, val(arg, k)) { Ok(v) => Ok(Some(V::Arr(v))), Err(Bad::Fail) => Ok(None), Err(e) => Err(e) }
    }
}
fn wrap(how: &How, r: Result<V, ()>) -> Result<V, Bad> {
    match (how, r) {
        (How::Plain | How::Closure, Ok(v)) => Ok(v),
        (How::Plain | How::Closure, Err(())) => Err(Bad::Fail),
        (_, Ok(v)) => Ok(V::Ok(Box::new(v))),
        (_, Err(())) => Ok(V::Err(Box::new(V::str(crate::model::ERR)))),
    }
}
fn val(a: Arg, k: u32) -> Option<V> { match a { Arg::F => Some(V::Num(k as f64)), Arg::S => Some(V::Str(format!("s{}", k))), _ => None } }
fn lit(a: Arg, k: u32) -> String { match a { Arg::No => String::new(), Arg::F => k.to_string(), Arg::S => format!("\"s{}\"", k), Arg::Mut => "mut out".into() } }

fn text(s: &Spec) -> String {
    let mut o = String::new();
    if !s.ns.is_empty() { writeln!(o, "ns {}", s.ns).unwrap() }
    for u in &s.uses {
        write!(o, "use {}", u.ns).unwrap();
        if !u.fns.is_empty() { write!(o, "::{{{}}}", u.fns.iter().map(|(f, a)| match a { Some(a) => format!("{} as {}", f, a), None => f.clone() }).collect::<Vec<_>>().join(", ")).unwrap() }
        writeln!(o, " as {}", u.alias).unwrap();
    }
    for f in &s.fns {
        if f.arg == Arg::Mut { writeln!(o, "fn {}(mut out: []) {{\n push(mut out, \"{}.{}\")", f.name, s.tag, f.name).unwrap() }
        else {
            writeln!(o, "fn {}({}) -> [] {{\n out := []\n push(mut out, \"{}.{}\")", f.name, match f.arg { Arg::No => "", Arg::F => "x: f64", _ => "x: str" }, s.tag, f.name).unwrap();
            if f.arg != Arg::No { o.push_str(" push(mut out, clone(x))\n") }
        }
        for (i, it) in f.items.iter().enumerate() {
            match it {
                Item::Boom => o.push_str(" push(mut out, boom(\"no\"))\n"),
                Item::Call { alias, name, arg, k, how } => {
                    let c = format!("{}{}({})", alias.as_ref().map(|a| format!("{}::", a)).unwrap_or_default(), name, lit(*arg, *k));
                    if *arg == Arg::Mut { writeln!(o, " {}", c).unwrap() } else {
                        match how {
                            How::Plain => writeln!(o, " push(mut out, {})", c).unwrap(),
                            How::Closure => writeln!(o, " c{} := \\() = {}\n push(mut out, \\c{}())", i, c, i).unwrap(),
                            How::Go => writeln!(o, " t{} := go {}\n push(mut out, join(thread: t{}))", i, c, i).unwrap(),
                            How::Try => writeln!(o, " e{} := try {}\n push(mut out, e{})", i, c, i).unwrap(),
                        }
                    }
                }
                Item::Load { spec, mode, call, arg, k } => {
                    let src = dy::str_lit(&text(spec));
                    match mode {
                        Mode::Plain => writeln!(o, " m{} := module__in_string_imports(\"in{}\", {}, [])", i, i, src).unwrap(),
                        Mode::Tr(t, u) => writeln!(o, " m{} := module__in_string_imports_tr_usetr(\"in{}\", {}, [], {}, {})", i, i, src, t, u).unwrap(),
                    }
                    writeln!(o, " if is_ok(m{}) {{\n  r := try call_ret(unwrap(m{}), \"{}\", [{}])\n  push(mut out, r)\n }} else {{\n  push(mut out, \"rejected\")\n }}", i, i, call, lit(*arg, *k)).unwrap();
                }
            }
        }
        o.push_str(if f.arg == Arg::Mut { "}\n" } else { " return clone(out)\n}\n" });
    }
    o
}

const NAMES: &[&str] = &["n0", "n1", "n2", "n3", "n4"];
struct Gen { k: u32, tags: u32 }
impl Gen {
    fn spec(&mut self, s: &mut Src, tr: &[Rc<Cellf>], ext: &[usize], imports: &[&Mod], depth: u32) -> Spec {
        self.tags += 1;
        let tag = format!("M{}", self.tags);
        let ns = if s.bool() { if s.chance(1, 3) { format!("a{}::b", self.tags) } else { format!("a{}", self.tags) } } else { String::new() };
        let mut spec = Spec { tag, ns, uses: vec![], fns: vec![] };
        // Names by number of seeing.
        let mut seen: Vec<(String, String, Arg)> = vec![];
        for f in tr.iter().chain(imports.iter().flat_map(|m| m.funs.iter())) { let f = f.f(); let n = f.name.split('(').next().unwrap().to_string(); seen.push((f.ns.clone(), n, f.arg)); }
        for e in ext.iter().chain(imports.iter().flat_map(|m| m.ext.iter())) { seen.push((EXT[*e].0.into(), EXT[*e].1.into(), EXT[*e].2)) }
        let spaces: Vec<String> = { let mut v: Vec<String> = seen.iter().map(|x| x.0.clone()).filter(|n| !n.is_empty()).collect(); v.dedup(); v };
        if !spaces.is_empty() {
            for _ in 0..s.us(4) {
                let ns = s.pick(&spaces).clone();
                let alias = s.pick(&["q", "r"]).to_string();
                let mut fns: Vec<(String, Option<String>)> = vec![];
                if s.bool() {
                    for _ in 0..1 + s.us(2) {
                        let c: Vec<&str> = seen.iter().filter(|x| x.0 == ns).map(|x| &x.1[..]).collect();
                        let n = s.pick(&c).to_string();
                        fns.push((n, if s.bool() { Some(s.pick(&["k0", "k1", "n0", "n2"]).to_string()) } else { None }));
                    }
                }
                spec.uses.push(Use { ns, fns, alias });
            }
        }
        let nf = 1 + s.us(4);
        let mut names: Vec<&str> = NAMES.to_vec();
        for _ in 0..nf {
            let i = s.us(names.len());
            let name = names.remove(i).to_string();
            let arg = *s.pick(&[Arg::No, Arg::F, Arg::S, Arg::Mut]);
            spec.fns.push(FSpec { name, arg, items: vec![] });
        }
        for i in 0..spec.fns.len() {
            let n = s.us(4);
            let mut items = vec![];
            for _ in 0..n {
                self.k += 1;
                let k = self.k;
                if spec.fns[i].arg != Arg::Mut && depth < 2 && s.chance(1, 7) {
                    let mode = match s.below(5) { 0 | 1 => Mode::Plain, 2 => Mode::Tr(false, true), 3 => Mode::Tr(true, true), _ => Mode::Tr(s.bool(), false) };
                    // Sometimes written as if the functions of this module were visible.
                    let as_if: Vec<Rc<Cellf>> = if s.chance(2, 3) { tr.to_vec() } else { vec![] };
                    let bet: Vec<&Mod> = if s.chance(1, 2) { imports.to_vec() } else { vec![] };
                    let inner = Rc::new(self.spec(s, &as_if, ext, &bet, depth + 1));
                    let f = &inner.fns[s.us(inner.fns.len())];
                    let (call, arg) = if s.chance(1, 10) { (s.pick(&["n4", "nope", "n0"]).to_string(), Arg::F) } else if f.arg == Arg::Mut { (f.name.clone(), Arg::No) } else { (f.name.clone(), f.arg) };
                    items.push(Item::Load { spec: inner, mode, call, arg, k });
                    continue;
                }
                if spec.fns[i].arg != Arg::Mut && s.chance(1, 20) { items.push(Item::Boom); break; }
                // Calls of own functions go forward only.
                let own: Vec<(String, Arg)> = spec.fns.iter().map(|f| (f.name.clone(), f.arg)).collect();
                let bad = s.chance(1, 40);
                let how = match s.below(8) { 0 => How::Closure, 1 => How::Go, 2 => How::Try, _ => How::Plain };
                let it = if !spec.uses.is_empty() && s.bool() {
                    let u = s.pick(&spec.uses).clone();
                    let c: Vec<(String, Arg)> = if u.fns.is_empty() { seen.iter().filter(|x| x.0 == u.ns).map(|x| (x.1.clone(), x.2)).collect() } else { u.fns.iter().flat_map(|(f, a)| seen.iter().filter(|x| x.0 == u.ns && x.1 == *f).map(|x| (a.clone().unwrap_or(f.clone()), x.2)).collect::<Vec<_>>()).collect() };
                    if c.is_empty() { continue; }
                    let (name, arg) = s.pick(&c).clone();
                    Item::Call { alias: Some(u.alias.clone()), name: if bad { "n9".into() } else { name }, arg, k, how }
                } else {
                    let mut c: Vec<(String, Arg)> = own[i + 1..].to_vec();
                    c.extend(seen.iter().filter(|x| !own.iter().any(|o| o.0 == x.1 && lookup_name(&o.0, o.1) == lookup_name(&x.1, x.2))).map(|x| (x.1.clone(), x.2)));
                    if c.is_empty() { continue; }
                    let (name, arg) = s.pick(&c).clone();
                    if own[..=i].iter().any(|o| o.0 == name && lookup_name(&o.0, o.1) == lookup_name(&name, arg)) { continue; }
                    Item::Call { alias: None, name: if bad { "n9".into() } else { name }, arg, k, how }
                };
                items.push(it);
            }
            spec.fns[i].items = items;
        }
        // The argument of a plain call follows what the name means here, unless the case is to be rejected.
        if !s.chance(1, 12) { repair(&mut spec, tr, ext, imports); }
        let n = spec.fns.len();
        for i in (1..n).rev() { let j = s.us(i + 1); spec.fns.swap(i, j); }
        spec
    }
}
/// Drops calls that would be rejected.
fn repair(spec: &mut Spec, tr: &[Rc<Cellf>], ext: &[usize], imports: &[&Mod]) {
    for i in 0..spec.fns.len() {
        let mut j = 0;
        while j < spec.fns[i].items.len() {
            let mut one = spec.clone();
            for (a, f) in one.fns.iter_mut().enumerate() { if a == i { f.items = vec![f.items[j].clone()] } else { f.items.clear() } }
            match build(&one, tr, ext, imports) {
                Err(_) => { spec.fns[i].items.remove(j); }
                Ok(_) => j += 1,
            }
        }
    }
}

struct Node { spec: Spec, imports: Vec<usize>, mode: Mode, model: Option<Mod> }

/// Closures made in one module and called in another reach the functions of the module they were made in.
fn wandering(s: &mut Src) -> Outcome {
    const N: usize = 4;
    #[derive(Clone)]
    enum C { Own(usize, usize, usize), Add(usize, usize, f64), Over(usize, usize, usize) }
    fn fun(m: usize, f: usize, x: f64) -> Result<V, ()> { if f == 3 && x > 6.0 { Err(()) } else { Ok(V::Arr(vec![V::str(format!("M{}.n{}", m, f)), V::Num(x)])) } }
    fn apply(cs: &[C], c: usize, x: f64) -> Result<V, ()> {
        Ok(V::Arr(match cs[c] {
            C::Own(m, a, b) => vec![fun(m, a, x)?, fun(m, b, x + 1.0)?],
            C::Add(m, a, y) => vec![fun(m, a, x + y)?, V::str("t")],
            C::Over(m, a, d) => vec![fun(m, a, x)?, apply(cs, d, x)?, fun(m, a, x)?],
        }))
    }
    // Module 0 is the driver.
    let n = 2 + s.us(3);
    let mut texts = vec![];
    let mut makers: Vec<(usize, usize, usize)> = vec![];
    for m in 0..n {
        let (a, b, c) = (s.us(N), s.us(N), s.us(N));
        makers.push((a, b, c));
        let mut fs: Vec<String> = (0..N).map(|f| format!("fn n{}(x: f64) -> {{\n{} return [\"M{}.n{}\", x + 0]\n}}\n", f, if f == 3 { " if x > 6 {\n  return boom(\"far\")\n }\n" } else { "" }, m, f)).collect();
        fs.push(format!("fn own() -> {{\n return \\(x: f64) = [n{}(x), n{}(x + 1)]\n}}\n", a, b));
        fs.push(format!("fn plus(y: f64) -> {{\n return \\(x: f64) = [n{}(x + grab y), \"t\"]\n}}\n", a));
        fs.push(format!("fn over(f) -> {{\n return \\(x: f64) = {{\n  h := grab f\n  p := n{}(x)\n  q := \\h(x)\n  clone([p, q, n{}(x)])\n }}\n}}\n", c, c));
        fs.push(format!("fn app(f, x: f64) -> {{\n r := \\f(x)\n return clone([\"M{}.app\", r, n{}(1)])\n}}\n", m, b));
        for i in (1..fs.len()).rev() { let j = s.us(i + 1); fs.swap(i, j); }
        // Other functions before move the places of the rest.
        let extra = s.us(3);
        texts.push(format!("{}{}", (0..extra).map(|i| format!("fn z{}_{}() -> f64 {{\n return {}\n}}\n", m, i, i)).collect::<String>(), fs.concat()));
    }
    let mut t = texts[0].clone();
    t.push_str("fn start() -> {\n out := []\n");
    let tr = s.below(3) == 0;
    for i in 1..n { let src = dy::str_lit(&texts[i]); writeln!(t, " m{} := unwrap(module__in_string_imports{}(\"m{}\", {}, []{}))", i, if tr { "_tr_usetr" } else { "" }, i, src, if tr { ", true, false" } else { "" }).unwrap(); }
    let mut cs: Vec<C> = vec![];
    let mut want = vec![];
    for j in 0..4 + s.us(8) {
        let m = s.us(n);
        let (a, b, c) = makers[m];
        let get = |f: &str, args: &str| if m == 0 { format!("{}({})", f, args) } else { format!("call_ret(m{}, \"{}\", [{}])", m, f, args) };
        match s.below(6) {
            0 => { writeln!(t, " c{} := {}", cs.len(), get("own", "")).unwrap(); cs.push(C::Own(m, a, b)); }
            1 => { let y = s.range(0, 4); writeln!(t, " c{} := {}", cs.len(), get("plus", &y.to_string())).unwrap(); cs.push(C::Add(m, a, y as f64)); }
            2 if !cs.is_empty() => { let d = s.us(cs.len()); writeln!(t, " c{} := {}", cs.len(), get("over", &format!("c{}", d))).unwrap(); cs.push(C::Over(m, c, d)); }
            3 if !cs.is_empty() => { let d = s.us(cs.len()); let x = s.range(0, 7); writeln!(t, " r{} := try \\c{}({})\n push(mut out, r{})", j, d, x, j).unwrap(); want.push(apply(&cs, d, x as f64)); }
            4 | 5 if !cs.is_empty() => { let d = s.us(cs.len()); let x = s.range(0, 7); writeln!(t, " r{} := try {}\n push(mut out, r{})", j, get("app", &format!("c{}, {}", d, x)), j).unwrap(); want.push(apply(&cs, d, x as f64).and_then(|v| Ok(V::Arr(vec![V::str(format!("M{}.app", m)), v, fun(m, b, 1.0)?])))); }
            _ => { let f = s.us(N); writeln!(t, " r{} := try {}\n push(mut out, r{})", j, get(&format!("n{}", f), "2"), j).unwrap(); want.push(fun(m, f, 2.0)); }
        }
    }
    t.push_str(" return clone(out)\n}\n");
    let mut o = Outcome::of(t.clone());
    o.label("closures in other modules");
    o.nontrivial = !want.is_empty();
    let w = V::Arr(want.into_iter().map(|r| match r { Ok(v) => V::Ok(Box::new(v)), Err(()) => V::Err(Box::new(V::str(crate::model::ERR))) }).collect());
    match dy::load(&t) {
        Err(p) => o.fail(format!("panic while loading: {}", p)),
        Ok(Err(e)) => o.fail(format!("rejected: {}", e)),
        Ok(Ok(m)) => judge(&mut o, "start", &Some(w), &dy::call(&mut Runtime::new(), &m, "start", &[], false)),
    }
    o
}

fn case(s: &mut Src, _: &Cfg) -> Outcome {
    if s.below(6) == 0 { return wandering(s); }
    let mut g = Gen { k: 0, tags: 0 };
    let mut ext: Vec<usize> = (0..EXT.len()).filter(|_| s.chance(2, 3)).collect();
    for i in (1..ext.len()).rev() { let j = s.us(i + 1); ext.swap(i, j); }
    let script = s.bool();
    let trdriver = script && s.chance(1, 3);
    // The driver's own functions are seen by the modules it makes when it is transitive.
    let driver = g.spec(s, &[], &ext, &[], 1);
    let dm = match build(&driver, &[], &ext, &[]) { Ok(m) => Some(m), Err(Why::Ambiguous) => return Outcome { discard: true, ..Outcome::of("ambiguous".into()) }, Err(_) => None };
    let n = 1 + s.us(4);
    let mut nodes: Vec<Node> = vec![];
    let none: Vec<Rc<Cellf>> = vec![];
    let dfuns: Vec<Rc<Cellf>> = dm.as_ref().map(|m| m.funs.clone()).unwrap_or_default();
    let mut why = vec![];
    for i in 0..n {
        let imports: Vec<usize> = (0..i).filter(|&j| nodes[j].model.is_some() && s.bool()).collect();
        let mode = if script { match s.below(3) { 0 => Mode::Plain, _ => Mode::Tr(s.bool(), s.bool()) } } else { Mode::Tr(s.chance(1, 3), false) };
        let usetr = trdriver && match mode { Mode::Plain => true, Mode::Tr(_, u) => u };
        let tr = if usetr { &dfuns } else { &none };
        let ms: Vec<&Mod> = imports.iter().map(|&j| nodes[j].model.as_ref().unwrap()).collect();
        let spec = g.spec(s, tr, &ext, &ms, 0);
        let model = match build(&spec, tr, &ext, &ms) {
            Ok(mut m) => { if let Mode::Tr(true, _) = mode { m.tr = m.funs.len() } Some(m) }
            Err(Why::Rejected(w)) => { why.push(w); None }
            Err(Why::Ambiguous) => return Outcome { discard: true, ..Outcome::of("ambiguous".into()) },
        };
        nodes.push(Node { spec, imports, mode, model });
    }
    // Calls by name.
    let mut calls: Vec<(usize, String, Arg, u32)> = vec![];
    let mut want: Vec<Option<V>> = vec![];
    let mut ev = Eval { steps: 0, seen: vec![] };
    for _ in 0..2 + s.us(5) {
        let i = s.us(n);
        let Some(m) = &nodes[i].model else { continue };
        let (name, arg) = match s.below(10) {
            0 => (s.pick(&["n0", "n1", "n2", "zz", "sqrt"]).to_string(), Arg::F),
            1 => { let f = s.pick(&m.funs).f(); if f.arg == Arg::Mut { continue } (f.name.clone(), if f.arg == Arg::No { Arg::F } else { Arg::No }) }
            _ => { let f = s.pick(&m.funs).f(); if f.arg == Arg::Mut { continue } let l = m.funs.iter().rev().find(|x| x.f().name == f.name).unwrap().f(); (f.name.clone(), l.arg) }
        };
        // The host can call external functions by name; scripts can not.
        if !script && !m.funs.iter().any(|f| f.f().name == name) && (name == "sqrt" || m.ext.iter().any(|&e| EXT[e].1 == name)) { continue; }
        let k = 900 + calls.len() as u32;
        match ev.dynamic(m, &name, arg, k) {
            Ok(v) => { want.push(v); calls.push((i, name, arg, k)) }
            Err(_) => return Outcome { discard: true, ..Outcome::of("budget".into()) },
        }
    }
    let mut desc = format!("{} external {:?}\n", if script { "script" } else { "host" }, ext);
    for (i, x) in nodes.iter().enumerate() { write!(desc, "// module m{} imports {:?} {:?}\n{}", i, x.imports, x.mode, text(&x.spec)).unwrap(); }
    writeln!(desc, "// calls {:?}", calls).unwrap();
    if script { write!(desc, "// driver, transitive {}\n{}", trdriver, text(&driver)).unwrap(); }
    if std::env::var("SHOW_SRC").is_ok() { eprintln!("{}\n{:?}\n{:?}", desc, want, why); }
    let mut o = Outcome::of(desc);
    o.label(if script { "built by a script" } else { "built by the host" });
    for l in ev.seen { o.label(l) }
    if nodes.iter().any(|n| n.model.is_none()) { o.label("rejected module") }
    if nodes.iter().any(|n| !n.imports.is_empty()) { o.label("imports") }
    if want.iter().any(|w| w.is_none()) { o.label("failing call") }
    o.nontrivial = ev.steps > 3 || nodes.iter().any(|n| n.model.is_none());
    if script { by_script(&mut o, &driver, dm.is_some(), trdriver, &ext, &nodes, &calls, &want) } else { by_host(&mut o, &ext, &nodes, &calls, &want) }
    o
}

fn by_host(o: &mut Outcome, ext: &[usize], nodes: &[Node], calls: &[(usize, String, Arg, u32)], want: &[Option<V>]) {
    let mut mods: Vec<Option<Arc<Module>>> = vec![];
    for (i, n) in nodes.iter().enumerate() {
        let mut m = host_base(ext);
        for &j in &n.imports { m.import(mods[j].as_ref().unwrap()) }
        let src = text(&n.spec);
        let tr = n.mode == Mode::Tr(true, false);
        let r = guard(move || { let r = dyon::load_str("m.dyon", Arc::new(src), &mut m); if tr { m.make_transitive() } r.map(|_| Arc::new(m)) });
        match (r, n.model.is_some()) {
            (Err(p), _) => { o.fail(format!("panic while loading m{}: {}", i, p)); return }
            (Ok(Err(e)), true) => { o.fail(format!("module m{} is well-formed but was rejected: {}", i, e)); return }
            (Ok(Ok(_)), false) => { o.fail(format!("module m{} was accepted although a call in it can not be resolved", i)); return }
            (Ok(r), _) => mods.push(r.ok()),
        }
    }
    let mut rt = Runtime::new();
    for ((i, name, arg, k), w) in calls.iter().zip(want) {
        let m = mods[*i].as_ref().unwrap();
        let args: Vec<V> = val(*arg, *k).into_iter().collect();
        let _ = dy::take_log();
        let got = dy::call(&mut rt, m, name, &args, false);
        judge(o, name, w, &got);
        // The call builder and a call without result reach the same function.
        let mut c = dyon::Call::new(name);
        for a in &args { c = match a { V::Num(x) => c.arg(*x), V::Str(x) => c.arg(x.clone()), _ => c } }
        match guard(|| c.run(&mut rt, m)) {
            Err(p) => o.fail(format!("{}: panic {}", name, p)),
            Ok(r) => if r.is_ok() != w.is_some() { o.fail(format!("{} through the call builder: {:?}, expected {:?}", name, r, w)) },
        }
    }
}
fn judge(o: &mut Outcome, name: &str, w: &Option<V>, got: &dy::Res) {
    match (w, got) {
        (Some(w), dy::Res::Ok(g)) if progs::agree(w, g) => {}
        (None, dy::Res::RunErr(_)) => {}
        _ => o.fail(format!("{}: expected {:?}, got {:?}", name, w, got)),
    }
}
fn by_script(o: &mut Outcome, driver: &Spec, driver_ok: bool, tr: bool, ext: &[usize], nodes: &[Node], calls: &[(usize, String, Arg, u32)], want: &[Option<V>]) {
    let mut t = text(driver);
    t.push_str("fn start() -> [] {\n out := []\n");
    for (i, n) in nodes.iter().enumerate() {
        let src = dy::str_lit(&text(&n.spec));
        let im = n.imports.iter().map(|j| format!("m{}", j)).collect::<Vec<_>>().join(", ");
        match n.mode {
            Mode::Plain => writeln!(t, " r{} := module__in_string_imports(\"m{}\", {}, [{}])", i, i, src, im).unwrap(),
            Mode::Tr(a, b) => writeln!(t, " r{} := module__in_string_imports_tr_usetr(\"m{}\", {}, [{}], {}, {})", i, i, src, im, a, b).unwrap(),
        }
        if n.model.is_some() { writeln!(t, " m{} := unwrap(r{})", i, i).unwrap() } else { writeln!(t, " push(mut out, is_ok(r{}))", i).unwrap() }
    }
    for (j, (i, name, arg, k)) in calls.iter().enumerate() {
        if j % 2 == 0 { writeln!(t, " c{} := try call_ret(m{}, \"{}\", [{}])\n push(mut out, c{})", j, i, name, lit(*arg, *k), j).unwrap() }
        else { writeln!(t, " c{} := try {{\n  call(m{}, \"{}\", [{}])\n  1\n }}\n push(mut out, is_ok(c{}))", j, i, name, lit(*arg, *k), j).unwrap() }
    }
    t.push_str(" return clone(out)\n}\n");
    let mut m = host_base(ext);
    let r = guard(move || { let r = dyon::load_str("driver.dyon", Arc::new(t), &mut m); if tr { m.make_transitive() } r.map(|_| Arc::new(m)) });
    let m = match (r, driver_ok) {
        (Err(p), _) => { o.fail(format!("panic while loading the driver: {}", p)); return }
        (Ok(Err(_)), false) => return,
        (Ok(Ok(_)), false) => { o.fail("the driver was accepted although a call in it can not be resolved"); return }
        (Ok(Err(e)), true) => { o.fail(format!("the driver is well-formed but was rejected: {}", e)); return }
        (Ok(Ok(m)), true) => m,
    };
    let mut w: Vec<V> = nodes.iter().filter(|n| n.model.is_none()).map(|_| V::Bool(false)).collect();
    for (j, x) in want.iter().enumerate() {
        w.push(if j % 2 == 1 { V::Bool(x.is_some()) } else { match x { Some(v) => V::Ok(Box::new(v.clone())), None => V::Err(Box::new(V::str(crate::model::ERR))) } });
    }
    let mut rt = Runtime::new();
    judge(o, "start", &Some(V::Arr(w)), &dy::call(&mut rt, &m, "start", &[], false));
}

pub fn check() -> Check { Check { id: "C15", quick: 7_000, thorough: 3_000_000, case, rule: "more than three functions run, or a module must be rejected", probes: no_probes, assumptions: &["two different functions of the same name in one namespace are left open"] } }
