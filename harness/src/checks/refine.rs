//! C26: extra signatures of functions and ad-hoc types, against a reference of the refinement rules.
use super::types::{b, fits, name, Ty, Ty::*};
use super::*;
use crate::dy;

/// `all T, U { args -> ret }` when quantified (the ad-hoc names in `vars` are the variables), else closed.
#[derive(Clone, Debug)]
struct Sig { vars: Vec<&'static str>, args: Vec<Ty>, ret: Ty }
type Env = Vec<(&'static str, Option<&'static str>)>;
fn env(s: &Sig) -> Env { s.vars.iter().map(|&v| (v, None)).collect() }
enum Ref { Ret(Ty), Unknown, Reject }

/// A value type not yet precise enough to decide against the signature's type.
fn unclear(p: &Ty, v: &Ty) -> bool {
    match (p, v) {
        (Ad(n, x), Ad(m, y)) if n == m => unclear(x, y),
        (Ad(_, x), y) if fits(x, y) => true,
        (Arr(x), Arr(y)) | (Opt(x), Opt(y)) | (Res(x), Res(y)) => unclear(x, y),
        (Any, _) | (O, _) => false,
        (_, Any) => true,
        _ => false,
    }
}
/// The signature's argument type with the variables bound; Err when the value clashes with a binding.
fn bind(p: &Ty, v: &Ty, e: &mut Env) -> Result<Ty, ()> {
    let at = |n: &str, e: &Env| e.iter().position(|x| x.0 == n);
    match (p, v) {
        (Ad(q, x), Ad(m, y)) => {
            let inner = bind(x, y, e)?;
            match at(q, e) {
                None => Ok(Ad(q, b(inner))),
                Some(i) => match e[i].1 {
                    Some(n) if n != *m && fits(&inner, y) && !unclear(&inner, y) => Err(()),
                    Some(n) => Ok(Ad(n, b(inner))),
                    None => { e[i].1 = Some(m); Ok(Ad(m, b(inner))) }
                },
            }
        }
        (Ad(q, x), _) => {
            let inner = bind(x, v, e)?;
            if at(q, e).map_or(false, |i| e[i].1.is_some()) && fits(&inner, v) && !unclear(&inner, v) { return Err(()); }
            Ok(inner)
        }
        _ => Ok(p.clone()),
    }
}
/// Bound variables become their names, unbound ones go away.
fn subst(t: &Ty, e: &Env) -> Ty {
    match t {
        Ad(n, x) => match e.iter().find(|v| v.0 == *n) { Some((_, Some(m))) => Ad(m, b(subst(x, e))), Some((_, None)) => subst(x, e), None => Ad(n, b(subst(x, e))) },
        x => x.clone(),
    }
}
fn refine(sigs: &[Sig], args: &[Ty]) -> Ref {
    'sig: for s in sigs {
        let mut e = env(s);
        for (p, v) in s.args.iter().zip(args) {
            let p = if s.vars.is_empty() { p.clone() } else { match bind(p, v, &mut e) { Err(()) => return Ref::Reject, Ok(p) => p } };
            if !fits(&p, v) { continue 'sig; }
            if unclear(&p, v) { return Ref::Unknown; }
        }
        return Ref::Ret(subst(&s.ret, &e));
    }
    if sigs.is_empty() { Ref::Unknown } else { Ref::Reject }
}
fn ops(op: &str) -> Vec<Sig> {
    let a = |x: Ty, y: Ty, r: Ty| { let t = |x| Ad("T", b(x)); Sig { vars: vec!["T"], args: vec![t(x), t(y)], ret: t(r) } };
    let c = |x: Ty, y: Ty, r: Ty| Sig { vars: vec![], args: vec![x, y], ret: r };
    match op {
        "+" => vec![a(F, F, F), a(V, V, V), a(V, F, V), a(F, V, V), a(M, M, M), a(F, M, M), a(M, F, M), a(B, B, B), a(S, S, S), a(L, L, L)],
        "-" => vec![a(F, F, F), a(V, V, V), a(V, F, V), a(F, V, V), a(M, M, M), a(F, M, M), a(M, F, M), a(B, B, B)],
        "*" => vec![c(F, F, F), c(V, V, V), c(V, F, V), c(F, V, V), c(M, M, M), c(F, M, M), c(M, F, M), c(M, V, V), a(B, B, B)],
        "/" => vec![c(F, F, F), c(V, V, V), c(V, F, V), c(F, V, V)],
        _ => vec![c(F, F, F), c(V, V, V), c(V, F, V), c(F, V, V), a(B, B, B)],
    }
}
const AD: &[&str] = &["km", "mile", "hour"];
fn bty(s: &mut Src) -> Ty { match s.below(7) { 0 | 1 => F, 2 => V, 3 => S, 4 => B, 5 => M, _ => L } }
/// A declared type; ad-hoc often.
fn vty(s: &mut Src, any: bool) -> Ty {
    let t = bty(s);
    match s.below(12) {
        0..=4 => Ad(AD[s.us(2)], b(t)),
        5 => Arr(b(if s.bool() { Ad(AD[s.us(2)], b(t)) } else { t })),
        6 => Opt(b(if s.bool() { Ad(AD[s.us(2)], b(t)) } else { t })),
        7 if any => Any,
        8 if any => Arr(b(Any)),
        9 => Ad(AD[s.us(2)], b(Ad("unit", b(t)))),
        _ => t,
    }
}
struct Fun { name: String, params: Vec<Ty>, ret: Ty, sigs: Vec<Sig> }
struct G<'a> { s: &'a mut Src, out: Vec<String>, ks: Vec<(Ty, String)>, funs: Vec<Fun>, bad: Vec<String>, n: usize, seen: Vec<&'static str> }
impl<'a> G<'a> {
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
    fn konst(&mut self, t: &Ty) -> String {
        if let Some(x) = self.ks.iter().find(|x| x.0 == *t) { return x.1.clone(); }
        let n = self.fresh("k");
        self.ks.push((t.clone(), n.clone()));
        self.out.push(format!("fn {}() -> {} {{\n    x := 0\n    return clone(x)\n}}", n, name(t)));
        n
    }
    fn sig(&mut self, n: usize, params: &[Ty], ret: &Ty) -> Sig {
        let vars: Vec<&'static str> = match self.s.below(5) { 0 | 1 => vec![], 2 => vec!["T"], _ => vec!["T", "U"] };
        let vs = vars.clone();
        let base = bty(self.s);
        let pick = |s: &mut Src, d: &Ty, ret: bool| -> Ty {
            if *d != Any { return d.clone(); }
            if vs.is_empty() { return vty(s, true); }
            let t = if s.below(3) > 0 { base.clone() } else { bty(s) };
            let v = |s: &mut Src| vs[s.us(vs.len())];
            match s.below(10) {
                0..=4 => Ad(v(s), b(t)),
                // A variable within itself has no stated meaning for an argument.
                5 => { let (x, y) = (v(s), v(s)); if x == y && !ret { Ad(x, b(t)) } else { Ad(x, b(Ad(y, b(t)))) } }
                6 => Ad(v(s), b(Ad("unit", b(t)))),
                7 => Ad("unit", b(Ad(v(s), b(t)))),
                8 => Ad(AD[s.us(2)], b(t)),
                _ => t,
            }
        };
        let args = (0..n).map(|i| pick(self.s, &params[i], false)).collect();
        Sig { vars, args, ret: pick(self.s, ret, true) }
    }
    fn sig_text(s: &Sig) -> String {
        let x = format!("({}) -> {}", s.args.iter().map(name).collect::<Vec<_>>().join(", "), name(&s.ret));
        if s.vars.is_empty() { format!("    {}", x) } else { format!("    all {} {{ {} }}", s.vars.join(", "), x) }
    }
    fn fun(&mut self) {
        let n = 1 + self.s.us(3);
        let params: Vec<Ty> = (0..n).map(|_| if self.s.below(4) == 0 { bty(self.s) } else { Any }).collect();
        let ret = if self.s.below(4) == 0 { bty(self.s) } else { Any };
        let k = self.s.us(4);
        let mut sigs: Vec<Sig> = vec![];
        for _ in 0..k {
            let mut g = self.sig(n, &params, &ret);
            if !sigs.is_empty() && self.s.bool() {
                // The same types under other names, so that what one signature turns down may go to the next.
                g.args = sigs[sigs.len() - 1].args.clone();
                g.vars = vec!["T", "U"];
                for t in g.args.iter_mut() {
                    let names: Env = [("T", *self.s.pick(&[None, Some("T"), Some("U")])), ("U", *self.s.pick(&[None, Some("T"), Some("U")]))].to_vec();
                    let u = subst(t, &names);
                    if !matches!(&u, Ad(x, y) if matches!(&**y, Ad(z, _) if x == z)) { *t = u; }
                }
                g.ret = if ret == Any { let t = bty(self.s); if self.s.bool() { Ad("T", b(t)) } else { t } } else { ret.clone() };
            }
            sigs.push(g);
        }
        let f = self.fresh("f");
        let mut decl = format!(" -> {}", name(&ret));
        // Faults in the declaration itself.
        let mut text: Vec<String> = sigs.iter().map(Self::sig_text).collect();
        if !sigs.is_empty() && self.s.below(16) == 0 {
            let i = self.s.us(sigs.len());
            let mut g = sigs[i].clone();
            match self.s.below(4) {
                0 => { g.args.push(F); self.bad.push("a signature with an argument too many".into()); }
                1 => { g.args.pop(); self.bad.push("a signature with an argument too few".into()); }
                2 => { let j = self.s.us(n); let u = vty(self.s, false); if !fits(&params[j], &u) { self.bad.push(format!("signature argument `{}` for declared `{}`", name(&u), name(&params[j]))); } g.args[j] = u; }
                _ => { let u = vty(self.s, false); if !fits(&ret, &u) { self.bad.push(format!("signature return `{}` for declared `{}`", name(&u), name(&ret))); } g.ret = u; }
            }
            let e = env(&g);
            g.vars = vec![];
            g.args = g.args.iter().map(|t| subst(t, &e)).collect();
            g.ret = subst(&g.ret, &e);
            text[i] = Self::sig_text(&g);
            sigs[i] = g;
        } else if !sigs.is_empty() && self.s.below(40) == 0 {
            decl = String::new();
            self.bad.push("extra signatures on a function that returns nothing".into());
        }
        let ps: Vec<String> = params.iter().enumerate().map(|(i, t)| format!("a{}: {}", i, name(t))).collect();
        let body = if decl.is_empty() { "emit(1)".to_string() } else { "x := 0\n    return clone(x)".into() };
        self.out.push(format!("fn {}({}){} {{\n    {}\n}}\n{}", f, ps.join(", "), decl, body, text.join("\n")));
        if !decl.is_empty() { self.funs.push(Fun { name: f, params, ret, sigs }); }
    }
    /// An expression and its type as the rules give it.
    fn expr(&mut self, d: usize) -> (String, Ty) {
        match self.s.weighted(&if d == 0 || self.funs.is_empty() { [3, 0, 0] } else { [3, 4, 4] }) {
            0 => { let t = vty(self.s, true); (format!("{}()", self.konst(&t)), t) }
            1 => {
                let i = self.s.us(self.funs.len());
                let n = self.funs[i].params.len();
                // Aim at one of the signatures.
                let aim = if self.funs[i].sigs.is_empty() { None } else { let j = self.s.us(self.funs[i].sigs.len()); Some(self.funs[i].sigs[j].clone()) };
                // Names for the variables; now and then an argument departs from them.
                let q: Env = ["T", "U"].iter().map(|&v| (v, match self.s.below(4) { 0 => None, k => Some(AD[k as usize - 1]) })).collect();
                let mut a = vec![];
                let mut ts = vec![];
                for j in 0..n {
                    let (x, t) = match &aim {
                        Some(g) if j < g.args.len() && self.s.below(5) > 0 => { let mut q = q.clone(); if self.s.below(6) == 0 { let i = self.s.us(2); q[i].1 = *self.s.pick(&[None, Some("km"), Some("mile")]); } let t = subst(&g.args[j], &q); (format!("{}()", self.konst(&t)), t) }
                        _ => self.expr(d - 1),
                    };
                    a.push(x); ts.push(t);
                }
                let f = &self.funs[i];
                let txt = format!("{}({})", f.name, a.join(", "));
                if let Some(j) = (0..n).find(|&j| !fits(&f.params[j], &ts[j])) { self.bad.push(format!("{}: argument {} declared `{}`", txt, j, name(&f.params[j]))); return (txt, f.ret.clone()); }
                let what = |k: &str| format!("{} with ({}): {}", txt, ts.iter().map(name).collect::<Vec<_>>().join(", "), k);
                match refine(&f.sigs, &ts) {
                    Ref::Ret(t) => { self.seen.push("signature decided"); (txt, t) }
                    Ref::Unknown => { self.seen.push("left to the declared type"); (txt, f.ret.clone()) }
                    Ref::Reject => { let w = what("no signature"); let r = f.ret.clone(); self.bad.push(w); (txt, r) }
                }
            }
            _ => {
                let op = *self.s.pick(&["+", "-", "*", "/", "^"]);
                let g = ops(op);
                let g = &g[self.s.us(g.len())];
                let (none, q): (Env, Env) = (vec![("T", None)], vec![("T", match self.s.below(3) { 0 => None, k => Some(AD[k as usize - 1]) })]);
                let mut one = |me: &mut Self, j: usize| -> (String, Ty) { if me.s.below(4) > 0 { let t = subst(&g.args[j], if me.s.below(6) == 0 { &none } else { &q }); (format!("{}()", me.konst(&t)), t) } else { me.expr(d - 1) } };
                let (a, x) = one(self, 0);
                let (c, y) = one(self, 1);
                let p = |s: String| if s.ends_with(')') && !s.contains(' ') { s } else { format!("({})", s) };
                let txt = format!("{} {} {}", p(a), op, p(c));
                match refine(&ops(op), &[x.clone(), y.clone()]) {
                    Ref::Ret(t) => { self.seen.push("operator decided"); (txt, t) }
                    Ref::Unknown => (txt, Any),
                    Ref::Reject => { self.bad.push(format!("`{} {} {}`", name(&x), op, name(&y))); (txt, Any) }
                }
            }
        }
    }
}
fn case(s: &mut Src, _: &Cfg) -> Outcome {
    let mut g = G { s, out: vec![], ks: vec![], funs: vec![], bad: vec![], n: 0, seen: vec![] };
    for _ in 0..1 + g.s.us(2) { g.fun(); }
    let mut body = vec![];
    let n = 1 + g.s.us(3);
    let mut tries = 0;
    while body.len() < n && tries < 12 {
        tries += 1;
        // Mostly accepted statements, so that one rejected one decides.
        let mark = (g.bad.len(), g.out.len(), g.ks.len(), g.n);
        let line = match g.s.below(5) {
            0 | 1 | 2 => {
                let (x, t) = g.expr(2);
                let u = if g.s.below(3) > 0 { match &t { Any => vty(g.s, false), t => t.clone() } } else { vty(g.s, false) };
                if !fits(&u, &t) { g.bad.push(format!("`{}` passed as `{}`", name(&t), name(&u))); }
                if g.s.bool() {
                    let f = g.fresh("use");
                    g.out.push(format!("fn {}(x: {}) {{\n    emit(x)\n}}", f, name(&u)));
                    format!("    {}({})", f, x)
                } else {
                    let f = g.fresh("ret");
                    if x.starts_with('(') { g.out.push(format!("fn {}() -> {} {{\n    return = {}\n}}", f, name(&u), x)); }
                    else { g.out.push(format!("fn {}() -> {} {{\n    return {}\n}}", f, name(&u), x)); }
                    format!("    emit({}())", f)
                }
            }
            3 => {
                let t = vty(g.s, false);
                let u = if g.s.below(3) > 0 { t.clone() } else { vty(g.s, false) };
                let ok = match (&t, &u) { (Ad(n, x), Ad(m, y)) => n == m && fits(x, y) && !matches!((&**x, &**y), (Ad(..), Ad(..)) if x != y) && (matches!(**x, Ad(..)) == matches!(**y, Ad(..))), (Ad(..), _) | (_, Ad(..)) => false, _ => true };
                if !ok { g.bad.push(format!("`{}` += `{}`", name(&t), name(&u))); }
                let v = g.fresh("v");
                let (k, l) = (g.konst(&t), g.konst(&u));
                let op = *g.s.pick(&["+=", "-="]);
                format!("    {} := {}()\n    {} {} {}()", v, k, v, op, l)
            }
            _ => {
                // The type goes through a variable.
                let (x, t) = g.expr(1);
                let u = if g.s.below(3) > 0 { match &t { Any => vty(g.s, false), t => t.clone() } } else { vty(g.s, false) };
                if !fits(&u, &t) { g.bad.push(format!("variable of type `{}` passed as `{}`", name(&t), name(&u))); }
                let (f, v) = (g.fresh("use"), g.fresh("v"));
                g.out.push(format!("fn {}(x: {}) {{\n    emit(x)\n}}", f, name(&u)));
                format!("    {} := {}\n    {}({})", v, x, f, v)
            }
        };
        if g.bad.len() > mark.0 && (g.bad.len() > 1 || g.s.below(3) > 0) { g.bad.truncate(mark.0); g.out.truncate(mark.1); g.ks.truncate(mark.2); continue; }
        body.push(line);
    }
    g.out.push(format!("fn start() {{\n{}\n}}", if body.is_empty() { "    emit(0)".into() } else { body.join("\n") }));
    let src = g.out.join("\n") + "\n";
    let fault = g.bad.first().cloned();
    if std::env::var("SHOW_SRC").is_ok() { eprintln!("// {:?}\n{}", fault, src); }
    let mut o = Outcome::of(format!("{}{}", fault.as_ref().map_or(String::new(), |f| format!("// fault: {}\n", f)), src));
    o.label(if fault.is_some() { "to be rejected" } else { "to be accepted" });
    for l in &g.seen { o.label(l); }
    o.nontrivial = !g.seen.is_empty();
    match (fault, dy::load(&src)) {
        (_, Err(p)) => o.fail(format!("panic while loading: {}", p)),
        (Some(f), Ok(Ok(_))) => o.fail(format!("accepted in spite of {}", f)),
        (None, Ok(Err(e))) => o.fail(format!("the types agree but the program was rejected: {}", e)),
        _ => {}
    }
    o
}
pub fn check() -> Check { Check { id: "C26", quick: 40_000, thorough: 3_000_000, case, rule: "a call or operator is decided by an extra signature or left to the declared type", probes: no_probes, assumptions: &[] } }
