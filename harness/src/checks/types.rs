//! C08: types are checked at every checked position. Programs are generated with every type known to the
//! generator; a faulty program has one position filled with an expression of a type that does not fit.
use super::*;
use crate::dy::{self, Res, V};

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { F, B, S, V, M, L, O, SecF, SecB, Any, Arr(Box<Ty>), Opt(Box<Ty>), Res(Box<Ty>), Thr(Box<Ty>), Cl(Vec<Ty>, Box<Ty>), Ad(&'static str, Box<Ty>) }
use Ty::*;

pub fn b(t: Ty) -> Box<Ty> { Box::new(t) }

/// Whether a value of type `v` goes where `p` is expected.
pub fn fits(p: &Ty, v: &Ty) -> bool {
    match (p, v) {
        (Any, _) | (_, Any) => true,
        (Ad(n, a), Ad(m, c)) => n == m && fits(a, c),
        (Ad(_, a), c) => fits(a, c),
        (a, Ad(_, c)) => fits(c, a),
        (F, SecF) | (B, SecB) => true,
        (Arr(a), Arr(c)) | (Opt(a), Opt(c)) | (Res(a), Res(c)) | (Thr(a), Thr(c)) => fits(a, c),
        (Cl(xs, x), Cl(ys, y)) => xs.len() == ys.len() && xs.iter().zip(ys).all(|(a, c)| fits(a, c)) && fits(x, y),
        (a, c) => a == c,
    }
}
pub fn name(t: &Ty) -> String {
    match t {
        F => "f64".into(), B => "bool".into(), S => "str".into(), V => "vec4".into(), M => "mat4".into(), L => "link".into(), O => "{}".into(),
        SecF => "sec[f64]".into(), SecB => "sec[bool]".into(), Any => "any".into(),
        Arr(x) => if **x == Any { "[]".into() } else { format!("[{}]", name(x)) },
        Opt(x) => if **x == Any { "opt".into() } else { format!("opt[{}]", name(x)) },
        Res(x) => if **x == Any { "res".into() } else { format!("res[{}]", name(x)) },
        Thr(x) => if **x == Any { "thr".into() } else { format!("thr[{}]", name(x)) },
        Cl(a, r) => format!("\\({}) -> {}", a.iter().map(name).collect::<Vec<_>>().join(", "), name(r)),
        Ad(n, x) => format!("{} {}", n, name(x)),
    }
}
/// What `typeof` says of a value of the type.
fn kind(t: &Ty) -> &'static str {
    match t {
        F | SecF => "number", B | SecB => "boolean", S => "string", V => "vec4", M => "mat4", L => "link", O => "object",
        Arr(_) => "array", Opt(_) => "option", Res(_) => "result", Thr(_) => "thread", Cl(..) => "closure", Any => "any", Ad(_, x) => kind(x),
    }
}
fn base(t: &Ty) -> Ty { match t { SecF => F, SecB => B, x => x.clone() } }

/// Type of `a op b` by the table of operators.
pub fn bin_ty(op: &str, a: &Ty, c: &Ty) -> Option<Ty> {
    let (x, y) = (base(a), base(c));
    Some(match op {
        "+" => match (&x, &y) { (F, F) => F, (V, V) | (V, F) | (F, V) => V, (M, M) | (F, M) | (M, F) => M, (B, B) => B, (S, S) => S, (L, L) => L, _ => return None },
        "-" => match (&x, &y) { (F, F) => F, (V, V) | (V, F) | (F, V) => V, (M, M) | (F, M) | (M, F) => M, (B, B) => B, _ => return None },
        "*" => match (&x, &y) { (F, F) => F, (V, V) | (V, F) | (F, V) | (M, V) => V, (M, M) | (F, M) | (M, F) => M, (B, B) => B, _ => return None },
        "/" | "%" => match (&x, &y) { (F, F) => F, (V, V) | (V, F) | (F, V) => V, _ => return None },
        "^" => match (&x, &y) { (F, F) => F, (V, V) | (V, F) | (F, V) => V, (B, B) => B, _ => return None },
        "*." => match (&x, &y) { (V, V) | (V, F) | (F, V) => F, _ => return None },
        "x" => match (&x, &y) { (V, V) => V, _ => return None },
        "<" | "<=" | ">" | ">=" => match (&x, &y) { (F, F) if *a == SecF => SecB, (F, F) | (S, S) => B, _ => return None },
        "==" | "!=" => match (&x, &y) {
            (F, F) if *a == SecF => SecB, (B, B) if *a == SecB => SecB,
            (F, F) | (S, S) | (B, B) | (V, V) | (O, O) | (Arr(_), Arr(_)) | (Opt(_), Opt(_)) => B, _ => return None },
        "&&" | "||" => match (&x, &y) { (B, B) => if *a == SecB { SecB } else { B }, _ => return None },
        _ => return None,
    })
}
const OPS: &[&str] = &["+", "-", "*", "/", "%", "^", "*.", "x", "<", "<=", ">", ">=", "==", "!=", "&&", "||"];

#[derive(Clone)]
struct Fun { name: String, params: Vec<Ty>, ret: Option<Ty>, cu: Option<(String, Ty)> }

struct P<'a> {
    s: &'a mut Src,
    /// A fault is still to be planted.
    want: bool,
    /// What the planted fault is.
    fault: Option<String>,
    out: Vec<String>,
    consts: Vec<(Ty, String)>,
    ids: Vec<(Ty, String)>,
    unwraps: Vec<(Ty, String)>,
    funs: Vec<Fun>,
    vars: Vec<(String, Ty)>,
    n: usize,
    fuel: i32,
    in_ret: bool,
    /// The last argument list names its arguments.
    named: bool,
    /// Text of the fault and what a sound program has in its place.
    pair: (String, String),
}
const MARK: &str = "\u{1}";

impl<'a> P<'a> {
    /// Plants the fault here.
    fn plant(&mut self, what: String, bad: String, good: String) -> String {
        self.want = false;
        self.fault = Some(what);
        self.pair = (bad, good);
        MARK.into()
    }
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
    fn ty(&mut self, d: usize) -> Ty {
        match self.s.weighted(&[6, 4, 4, 4, 2, 2, 2, 3, 3, 2, 1, 1, 1, 1]) {
            0 => F, 1 => B, 2 => S, 3 => V, 4 => M, 5 => L, 6 => O,
            7 if d > 0 => Arr(b(self.ty(d - 1))), 8 if d > 0 => Opt(b(self.ty(d - 1))), 9 if d > 0 => Res(b(self.ty(d - 1))),
            10 if d > 0 => { let n = self.s.us(3); Cl((0..n).map(|_| self.ty(0)).collect(), b(self.ty(0))) }
            11 if d > 0 => Thr(b(self.ty(0))),
            12 => SecF, 13 => SecB,
            _ => F,
        }
    }
    /// Plain literal.
    fn lit(&mut self, t: &Ty) -> String {
        match t {
            F | SecF => self.s.pick(&["1.5", "0", "2", "0.25", "3"]).to_string(),
            B | SecB => self.s.pick(&["true", "false"]).to_string(),
            S => self.s.pick(&["\"a\"", "\"\"", "\"xyz\""]).to_string(),
            V => self.s.pick(&["(1, 2)", "(1, 2, 3)", "(0, 1, 0, 1)", "#ff8800"]).to_string(),
            M => self.s.pick(&["mat4 {1, 2; 3, 4}", "mat4 {1, 0, 0, 0; 0, 1, 0, 0; 0, 0, 1, 0; 0, 0, 0, 1}"]).to_string(),
            L => self.s.pick(&["link {}", "link { 1 \"a\" true }"]).to_string(),
            O => self.s.pick(&["{}", "{a: 1}", "{a: \"x\", b: [1, 2]}"]).to_string(),
            Arr(x) => { let a = self.lit(x); if self.s.bool() { format!("[{}]", a) } else { "[]".into() } }
            Opt(x) => { let a = self.lit(x); if self.s.bool() { format!("some({})", a) } else { "none()".into() } }
            Res(x) => { let a = self.lit(x); format!("ok({})", a) }
            Thr(x) => { let k = self.konst(x); format!("go {}()", k) }
            Cl(a, r) => {
                let ps: Vec<String> = a.iter().enumerate().map(|(i, t)| format!("a{}: {}", i, name(t))).collect();
                let k = self.konst(r);
                format!("\\({}) = {}()", ps.join(", "), k)
            }
            Any => "1".into(),
            Ad(_, x) => self.lit(x),
        }
    }
    /// Name of a function giving a value of exactly this declared type.
    fn konst(&mut self, t: &Ty) -> String {
        if let Some(x) = self.consts.iter().find(|x| x.0 == *t) { return x.1.clone(); }
        let n = self.fresh("k");
        self.consts.push((t.clone(), n.clone()));
        let l = match t { SecF => "max i 3 { i }".to_string(), SecB => "any i 3 { i > 1 }".to_string(), _ => self.lit(t) };
        let plain = matches!(t, F | B | S | V | M | L | O | SecF | SecB);
        if plain && self.s.below(3) == 0 { self.out.push(format!("{}() = {}", n, l)); }
        else if let Thr(_) = t { self.out.push(format!("fn {}() -> {} {{\n    return {}\n}}", n, name(t), l)); }
        else { self.out.push(format!("fn {}() -> {} {{\n    x := {}\n    return clone(x)\n}}", n, name(t), l)); }
        n
    }
    fn id(&mut self, t: &Ty) -> String {
        if let Some(x) = self.ids.iter().find(|x| x.0 == *t) { return x.1.clone(); }
        let n = self.fresh("id");
        self.ids.push((t.clone(), n.clone()));
        self.out.push(format!("fn {}(x: {}) -> {} {{\n    return clone(x)\n}}", n, name(t), name(t)));
        n
    }
    /// Name of a function giving `res[T]` or `opt[T]` that holds a value.
    fn wrapped(&mut self, t: &Ty) -> String {
        if let Some(x) = self.unwraps.iter().find(|x| x.0 == *t) { return x.1.clone(); }
        let n = self.fresh("w");
        self.unwraps.push((t.clone(), n.clone()));
        let k = self.konst(t);
        if self.s.bool() { self.out.push(format!("fn {}() -> res[{}] {{\n    return ok({}())\n}}", n, name(t), k)); }
        else { self.out.push(format!("fn {}() -> opt[{}] {{\n    return some({}())\n}}", n, name(t), k)); }
        n
    }
    /// An expression for a position where `t` is expected; in a faulty program perhaps of another type.
    fn hole(&mut self, t: &Ty, d: usize, what: &str) -> String {
        if self.want && self.s.below(4) == 0 {
            for _ in 0..4 {
                let u = self.ty(1);
                if fits(t, &u) { continue; }
                let keep = std::mem::replace(&mut self.want, false);
                let (x, k) = self.expr(&u, d);
                if fits(t, &k) { self.want = keep; continue; }
                let good = format!("{}()", self.konst(t));
                return self.plant(format!("{}: `{}` where `{}` is expected", what, name(&k), name(t)), x, good);
            }
        }
        for _ in 0..6 {
            let (x, k) = self.expr(t, d);
            if fits(t, &k) { return x; }
            if self.fault.is_some() { return x; }
        }
        format!("{}()", self.konst(t))
    }
    fn paren(x: String) -> String {
        let c = x.chars().next().unwrap();
        let plain = x.chars().all(|c| c.is_alphanumeric() || c == '.' || c == '_') || (c == '"' && x[1..].find('"') == Some(x.len() - 2));
        if plain || (x.ends_with(')') && c.is_alphabetic() && x.find('(').map_or(false, |i| x[..i].chars().all(|c| c.is_alphanumeric() || c == '_') && closes_last(&x, i))) { x } else { format!("({})", x) }
    }
    /// An expression and the type the checker can see it has.
    fn expr(&mut self, t: &Ty, d: usize) -> (String, Ty) {
        self.fuel -= 1;
        if d == 0 || self.fuel < 0 {
            return match self.s.below(3) {
                0 => self.leaf(t),
                1 => (format!("{}()", self.konst(t)), t.clone()),
                _ => self.var(t),
            };
        }
        match self.s.weighted(&[3, 3, 3, 7, 4, 3, 3, 4, 3, 2]) {
            0 => self.leaf(t),
            1 => (format!("{}()", self.konst(t)), t.clone()),
            2 => self.var(t),
            3 => self.op(t, d),
            4 => self.call(t, d),
            5 => {
                // Both branches must agree; the first one decides.
                let c = self.hole(&B, d - 1, "condition");
                let x = self.expr(t, d - 1);
                let y = self.hole(&x.1.clone(), d - 1, "branch");
                let y = if y.contains('\n') || y.starts_with("if ") { Self::paren(y) } else { y };
                if self.s.below(3) == 0 {
                    let c2 = self.hole(&B, d - 1, "else-if condition");
                    let z = self.hole(&x.1.clone(), d - 1, "else-if branch");
                    (format!("if {} {{ {} }} else if {} {{ {} }} else {{ {} }}", Self::paren(c), Self::paren(x.0), Self::paren(c2), Self::paren(z), y), x.1)
                } else { (format!("if {} {{ {} }} else {{ {} }}", Self::paren(c), Self::paren(x.0), y), x.1) }
            }
            6 => self.fold(t, d),
            7 if self.in_ret => { let w = self.wrapped(t); (format!("{}()?", w), t.clone()) }
            8 => {
                let f = self.fresh("g");
                let n = self.s.us(3);
                let ps: Vec<Ty> = (0..n).map(|_| self.ty(0)).collect();
                let k = self.konst(t);
                // A closure called where it is declared as an argument.
                let cl = Cl(ps.clone(), b(t.clone()));
                let host = self.fresh("h");
                let args: Vec<String> = ps.iter().map(|p| format!("{}()", self.konst(p))).collect();
                let _ = k;
                self.out.push(format!("fn {}({}: {}) -> {} {{\n    return \\{}({})\n}}", host, f, name(&cl), name(t), f, args.join(", ")));
                let c = self.hole(&cl, d - 1, "closure argument");
                (format!("{}({})", host, c), t.clone())
            }
            _ => (format!("{}()", self.konst(t)), t.clone()),
        }
    }
    fn leaf(&mut self, t: &Ty) -> (String, Ty) {
        match t {
            SecF => (format!("{}()", self.konst(t)), SecF), SecB => (format!("{}()", self.konst(t)), SecB),
            Arr(_) => (self.lit(t), Arr(b(Any))), Opt(_) => (self.lit(t), Opt(b(Any))), Res(_) => (self.lit(t), Res(b(Any))),
            V => { if self.s.bool() { (self.lit(t), V) } else { let a = self.hole(&F, 0, "vec4 component"); let c = self.hole(&F, 0, "vec4 component"); (format!("({}, {})", a, c), V) } }
            M if self.s.bool() => { let a = self.hole(&F, 0, "mat4 component"); let c = self.hole(&F, 0, "mat4 component"); (format!("mat4 {{{}, 0; 0, {}}}", a, c), M) }
            _ => (self.lit(t), t.clone()),
        }
    }
    fn var(&mut self, t: &Ty) -> (String, Ty) {
        let c: Vec<String> = self.vars.iter().filter(|v| v.1 == *t).map(|v| v.0.clone()).collect();
        if c.is_empty() { return (format!("{}()", self.konst(t)), t.clone()); }
        let v = c[self.s.us(c.len())].clone();
        (format!("{}({})", self.id(t), v), t.clone())
    }
    fn op(&mut self, t: &Ty, d: usize) -> (String, Ty) {
        match t {
            F | V | M if self.s.below(5) == 0 => {
                if self.want && self.s.below(4) == 0 {
                    let u = self.ty(1);
                    if !matches!(u, F | V | M | SecF) {
                        self.want = false;
                        let bad = self.sure(&u, d - 1);
                        let good = format!("{}()", self.konst(t));
                        let m = self.plant(format!("-{}", name(&u)), bad, good);
                        return (format!("-({})", m), t.clone());
                    }
                }
                let a = self.sure(t, d - 1);
                return (format!("-{}", Self::paren(a)), t.clone());
            }
            B | SecB if self.s.below(5) == 0 => { let a = if *t == B && self.s.bool() { self.hole(&B, d - 1, "operand of !") } else { self.sure(t, d - 1) }; return (format!("!{}", Self::paren(a)), t.clone()); }
            _ => {}
        }
        let cands: Vec<(&str, Ty, Ty)> = {
            let ts = [F, V, M, B, S, L, O, Arr(b(F)), Opt(b(S)), SecF, SecB];
            let mut r = vec![];
            for op in OPS { for x in &ts { for y in &ts { // Whether a comparison keeps the secret is seen late by the checker; not relied on.
                if bin_ty(op, x, y).as_ref() == Some(t) && (*t != SecB || *op == "&&" || *op == "||") { r.push((*op, x.clone(), y.clone())); } } } }
            r
        };
        if cands.is_empty() { return self.leaf(t); }
        let (op, x, y) = cands[self.s.us(cands.len())].clone();
        // A wrong operand must leave no signature matching.
        if self.want && self.s.below(4) == 0 {
            let left = self.s.bool();
            for _ in 0..4 {
                let u = self.ty(1);
                let m = if left { bin_ty(op, &u, &y) } else { bin_ty(op, &x, &u) };
                if m.is_some() { continue; }
                self.want = false;
                let what = if left { format!("`{} {} {}`", name(&u), op, name(&y)) } else { format!("`{} {} {}`", name(&x), op, name(&u)) };
                let bad = self.sure(&u, d - 1);
                let good = format!("{}()", self.konst(if left { &x } else { &y }));
                let m = self.plant(what, bad, good);
                let (a, c) = if left { (m, self.sure(&y, d - 1)) } else { (self.sure(&x, d - 1), m) };
                return (format!("{} {} {}", Self::paren(a), op, Self::paren(c)), t.clone());
            }
        }
        let a = self.sure(&x, d - 1);
        let c = self.sure(&y, d - 1);
        (format!("{} {} {}", Self::paren(a), op, Self::paren(c)), t.clone())
    }
    /// An expression certainly of this very type.
    fn sure(&mut self, t: &Ty, d: usize) -> String {
        for _ in 0..4 { let (x, k) = self.expr(t, d); if k == *t || self.fault.is_some() && fits(t, &k) { return x; } }
        format!("{}()", self.konst(t))
    }
    fn call(&mut self, t: &Ty, d: usize) -> (String, Ty) {
        // Library functions with fixed argument types.
        let lib: &[(&str, &[Ty], Ty)] = &[
            ("sqrt", &[F], F), ("floor", &[F], F), ("atan2", &[F, F], F), ("norm", &[V], F), ("det", &[M], F), ("x", &[V], F), 
            ("is_nan", &[F], B), ("trim", &[S], S), ("json_string", &[S], S), ("inv", &[M], M), ("mov", &[V], M), ("rx", &[M], V), 
            ("cross", &[V, V], V), ("tail", &[L], L), ("neck", &[L], L), ("is_empty", &[L], B), ("scale", &[V], M), ("str__color", &[V], S), ("dir__angle", &[F], V),
        ];
        let c: Vec<usize> = (0..lib.len()).filter(|&i| lib[i].2 == *t).collect();
        let own: Vec<Fun> = self.funs.iter().filter(|f| f.ret.as_ref() == Some(t)).cloned().collect();
        let k = self.s.below(3);
        if k == 0 && !c.is_empty() {
            let (n, ps, r) = &lib[c[self.s.us(c.len())]];
            let a = self.args(ps, d, n);
            let q = if self.s.below(3) == 0 { "q::" } else { "" };
            return (format!("{}{}({})", q, n, a), r.clone());
        }
        if k == 1 && !own.is_empty() {
            let f = own[self.s.us(own.len())].clone();
            let a = self.args(&f.params, d, &f.name);
            let n = self.misname(&f.name);
            return (format!("{}({})", n, a), t.clone());
        }
        if let Thr(x) = t {
            let own: Vec<Fun> = self.funs.iter().filter(|f| f.ret.as_ref() == Some(&**x)).cloned().collect();
            let void: Vec<Fun> = self.funs.iter().filter(|f| f.ret.is_none()).cloned().collect();
            if self.want && !void.is_empty() && self.s.below(3) == 0 {
                let f = void[self.s.us(void.len())].clone();
                self.want = false;
                let a = self.args(&f.params, 0, "");
                let k = self.konst(x);
                let m = self.plant(format!("go `{}` that returns nothing", f.name), format!("{}({})", f.name, a), format!("{}()", k));
                return (format!("go {}", m), t.clone());
            }
            if !own.is_empty() {
                let f = own[self.s.us(own.len())].clone();
                let a = self.args(&f.params, d, &f.name);
                let n = self.misname(&f.name);
                return (format!("go {}({})", n, a), t.clone());
            }
        }
        let i = self.id(t);
        let a = self.hole(t, d - 1, "argument");
        (format!("{}({})", i, a), t.clone())
    }
    fn misname(&mut self, n: &str) -> String {
        let n = if self.named { &n[..n.find("__").unwrap()] } else { n };
        if self.want && self.s.below(8) == 0 { let m = self.plant(format!("unknown function `{}_`", n), format!("{}_", n), n.to_string()); m } else { n.to_string() }
    }
    fn args(&mut self, ps: &[Ty], d: usize, f: &str) -> String {
        let named = f.contains("__p0") && self.s.bool();
        self.named = named;
        let mut a: Vec<String> = vec![];
        let mut i = 0;
        while i < ps.len() {
            let p = &ps[i];
            let run = ps[i..].iter().take_while(|x| **x == F).count().min(4);
            if run > 0 && run < 4 && !named && i + run < ps.len() && self.want && self.s.below(4) == 0 {
                // A swizzle that covers an argument of another type.
                let k = run + 1;
                let sw: String = (0..k).map(|_| *self.s.pick(&['x', 'y', 'z', 'w'])).collect();
                let v = self.konst(&V);
                let fill: Vec<String> = ps[i..i + k].iter().map(|t| self.konst(t) + "()").collect();
                if !fits(&ps[i + run], &F) {
                    let m = self.plant(format!("a swizzle where {} expects `{}`", f, name(&ps[i + run])), format!("{} ({}())", sw, v), fill.join(", "));
                    a.push(m);
                    i += k;
                    continue;
                }
            }
            if run > 1 && !named && self.s.below(2) == 0 {
                let k = if self.s.bool() { run } else { 2 + self.s.us(run - 1) };
                let sw: String = (0..k).map(|_| *self.s.pick(&['x', 'y', 'z', 'w'])).collect();
                let v = self.hole(&V, d.saturating_sub(1), "swizzled value");
                a.push(format!("{} ({})", sw, v));
                i += k;
                continue;
            }
            i += 1;
            if self.s.below(3) == 0 {
                let ok: Vec<String> = self.vars.iter().filter(|v| fits(p, &v.1)).map(|v| v.0.clone()).collect();
                let no: Vec<(String, Ty)> = self.vars.iter().filter(|v| !fits(p, &v.1)).cloned().collect();
                if self.want && !no.is_empty() && self.s.below(3) == 0 {
                    let v = no[self.s.us(no.len())].clone();
                    let k = self.konst(p);
                    let m = self.plant(format!("variable `{}` of type `{}` where {} expects `{}`", v.0, name(&v.1), f, name(p)), v.0, format!("{}()", k));
                    a.push(m);
                    continue;
                }
                if !ok.is_empty() { a.push(ok[self.s.us(ok.len())].clone()); continue; }
            }
            a.push(self.hole(p, d.saturating_sub(1), &format!("argument of {}", f)));
        }
        if named && a.len() > 0 { for (i, x) in a.iter_mut().enumerate() { *x = format!("p{}: {}", i, x); } }
        if self.want && self.s.below(8) == 0 {
            let good = a.join(", ");
            let what;
            if a.is_empty() || self.s.bool() { let k = self.konst(&F); a.push(format!("{}()", k)); what = format!("an argument too many for {}", f); }
            else { let i = self.s.us(a.len()); a.remove(i); what = format!("an argument too few for {}", f); }
            self.named = named;
            return self.plant(what, a.join(", "), good);
        }
        self.named = named;
        a.join(", ")
    }
    fn fold(&mut self, t: &Ty, d: usize) -> (String, Ty) {
        let i = self.fresh("i");
        let n = self.s.below(4);
        let inner = match t { F | SecF => F, B | SecB => B, Arr(x) => (**x).clone(), _ => return self.leaf(t) };
        // Loop bodies give their value; sum, prod, min, max, any and all do not check it.
        self.vars.push((i.clone(), F));
        let r = match t {
            F => { let x = self.sure(&inner, d - 1); (format!("{} {} {} {{ {} }}", self.s.pick(&["sum", "∑", "prod", "∏"]), i, n, Self::paren(x)), F) }
            SecF => { let x = self.sure(&inner, d - 1); (format!("{} {} {} {{ {} }}", self.s.pick(&["min", "max"]), i, n + 1, Self::paren(x)), SecF) }
            SecB | B => { let x = self.sure(&inner, d - 1); (format!("{} {} {} {{ {} }}", self.s.pick(&["any", "all", "∃", "∀"]), i, n, Self::paren(x)), SecB) }
            _ => { 
                if let (Arr(x), 0) = (&inner, self.s.below(2)) {
                    let (y, k) = self.expr(x, d - 1);
                    let j = self.fresh("j");
                    (format!("sift {} {}, {} 2 {{ {} }}", i, n, j, Self::paren(y)), Arr(b(Arr(b(k)))))
                } else { let (x, k) = self.expr(&inner, d - 1); (format!("sift {} {} {{ {} }}", i, n, Self::paren(x)), Arr(b(k))) }
            }
        };
        self.vars.retain(|v| v.0 != i);
        r
    }
    /// Statements of a body, indented.
    fn stmts(&mut self, n: usize, d: usize, ret: &Option<Ty>, ind: &str) -> Vec<String> {
        let mark = self.vars.len();
        let mut r = vec![];
        for _ in 0..n {
            let w = self.s.weighted(&[6, 4, 3, 2, 2, 2, 2, 2]);
            match w {
                0 => {
                    let t = self.ty(1);
                    let (x, k) = self.expr(&t, d);
                    let v = self.fresh("v");
                    if self.want && self.in_ret && self.s.below(12) == 0 {
                        let i = self.vars.iter().rev().find(|v| v.0.starts_with('i')).map(|v| v.0.clone());
                        if let Some(i) = i { let m = self.plant("`?` on a loop index".into(), format!("{}?", i), i.clone()); r.push(format!("{}emit({})", ind, m)); }
                    }
                    if self.s.below(6) == 0 { r.push(format!("{}{} := {{\n{}    emit(4)\n{}    {}\n{}}}", ind, v, ind, ind, Self::paren(x), ind)); }
                    else { r.push(format!("{}{} := {}", ind, v, x)); }
                    self.vars.push((v, k));
                }
                1 => {
                    let vs: Vec<Fun> = self.funs.iter().filter(|f| f.ret.is_none()).cloned().collect();
                    if vs.is_empty() { continue; }
                    let f = vs[self.s.us(vs.len())].clone();
                    let a = self.args(&f.params, d, &f.name);
                    let n = self.misname(&f.name);
                    r.push(format!("{}{}({})", ind, n, a));
                }
                2 if d > 0 => {
                    let c = self.hole(&B, d - 1, "condition");
                    r.push(format!("{}if {} {{", ind, Self::paren(c)));
                    let m = 1 + self.s.us(2);
                    let mut q = self.stmts(m, d - 1, ret, &format!("{}    ", ind));
                    q.push(format!("{}    emit(0)", ind));
                    r.extend(q);
                    if self.s.bool() {
                        let c = self.hole(&B, d - 1, "else-if condition");
                        r.push(format!("{}}} else if {} {{", ind, Self::paren(c)));
                        r.push(format!("{}    emit(1)", ind));
                    }
                    r.push(format!("{}}}", ind));
                }
                3 if d > 0 => {
                    let i = self.fresh("i");
                    r.push(format!("{}for {} {} {{", ind, i, self.s.below(3)));
                    self.vars.push((i.clone(), F));
                    let m = 1 + self.s.us(2);
                    let mut q = self.stmts(m, d - 1, ret, &format!("{}    ", ind));
                    q.push(format!("{}    emit(0)", ind));
                    r.extend(q);
                    self.vars.retain(|v| v.0 != i);
                    r.push(format!("{}}}", ind));
                }
                4 if ret.is_some() && d > 0 => {
                    let x = self.ret(ret.as_ref().unwrap(), d);
                    let c = self.hole(&B, d - 1, "condition");
                    if self.want && self.s.below(3) == 0 {
                        let m = self.plant("return without a value".into(), "return".into(), x);
                        r.push(format!("{}if {} {{ {} }}", ind, Self::paren(c), m));
                    } else { r.push(format!("{}if {} {{ {} }}", ind, Self::paren(c), x)); }
                }
                5 => if self.want && self.s.below(3) == 0 {
                    let t = self.ty(1);
                    let k = self.konst(&t);
                    let m = self.plant(format!("unused result `{}`", name(&t)), format!("{}()", k), format!("emit({}())", k));
                    if self.s.bool() { let c = self.hole(&B, 0, "condition"); r.push(format!("{}if {} {{\n{}    {}\n{}}}", ind, Self::paren(c), ind, m, ind)); } else { r.push(format!("{}{}", ind, m)); }
                    r.push(format!("{}emit(2)", ind));
                },
                6 => if self.want && self.s.below(3) == 0 {
                    let v = self.fresh("u");
                    let m = self.plant(format!("unknown variable `{}`", v), v.clone(), "1".into());
                    r.push(format!("{}emit({})", ind, m));
                } else if self.want && self.s.below(4) == 0 && !self.vars.is_empty() {
                    let c: Vec<(String, Ty)> = self.vars.iter().filter(|v| !matches!(v.1, Cl(..))).cloned().collect();
                    if let Some(v) = c.last() {
                        let m = self.plant(format!("call of `{}`, not a closure", name(&v.1)), format!("\\{}(1)", v.0), "1".into());
                        r.push(format!("{}emit({})", ind, m));
                    }
                },
                _ => {
                    // Assignment keeps the type.
                    let c: Vec<(String, Ty)> = self.vars[mark.min(self.vars.len())..].iter().filter(|v| matches!(v.1, F | B | S | V)).filter(|v| v.0.starts_with('v')).cloned().collect();
                    if !c.is_empty() {
                        let (v, t) = c[self.s.us(c.len())].clone();
                        let x = self.sure(&t, d);
                        r.push(format!("{}{} = {}", ind, v, x));
                    }
                }
            }
        }
        self.vars.truncate(mark);
        r
    }
    fn ret(&mut self, t: &Ty, d: usize) -> String {
        for _ in 0..5 {
            let had = self.want;
            let x = self.hole(t, d, "return");
            let y = if x.starts_with(MARK) { x.replacen(MARK, &self.pair.0, 1) } else { x.clone() };
            if !y.starts_with('(') && !y.starts_with('-') && !y.contains('∑') { return format!("return {}", x); }
            if had != self.want { return format!("return = {}", x); }
        }
        format!("return {}()", self.konst(t))
    }
    fn fun(&mut self, nm: &str, params: Vec<Ty>, ret: Option<Ty>, d: usize) {
        self.vars.clear();
        self.in_ret = ret.is_some();
        let ps: Vec<(String, Ty)> = params.iter().enumerate().map(|(i, t)| (format!("p{}", i), t.clone())).collect();
        let mut lines: Vec<String> = vec![];
        for (p, t) in &ps { lines.push(format!("    emit([\"{}\", typeof({})])", kind(t), p)); self.vars.push((p.clone(), t.clone())); }
        let cu = if self.s.below(3) == 0 { let c = self.fresh("cu"); let t = self.ty(1); if let Thr(_) = t { None } else { Some((c, t)) } } else { None };
        if let Some((c, t)) = &cu { lines.push(format!("    emit([\"{}\", typeof({})])", kind(t), c)); self.vars.push((c.clone(), t.clone())); }
        let n = 1 + self.s.us(3);
        lines.extend(self.stmts(n, d, &ret, "    "));
        if let Some(t) = &ret {
            if self.want && !lines.iter().any(|l| l.contains("return")) && self.s.below(8) == 0 {
                let k = self.konst(t);
                let m = self.plant(format!("no return in `{}`", nm), "emit(3)".into(), format!("return {}()", k));
                lines.push(format!("    {}", m));
            } else if self.s.below(4) == 0 && !matches!(t, Thr(_)) {
                let x = self.hole(t, d, "assignment to return");
                lines.push(format!("    return = {}", x));
            } else { let x = self.ret(t, d); lines.push(format!("    {}", x)); }
        }
        else if self.want && self.s.below(8) == 0 {
            // The value of a function that gives none.
            let t = self.ty(1);
            let k = self.konst(&t);
            let m = self.plant(format!("unused result `{}` at the end of `{}`", name(&t), nm), format!("{}()", k), format!("emit({}())", k));
            lines.push(format!("    {}", m));
        }
        let sig: Vec<String> = ps.iter().map(|(p, t)| format!("{}: {}", p, name(t))).collect();
        let c = match &cu { Some((c, t)) => format!(" ~ {}: {}", c, name(t)), None => String::new() };
        let r = match &ret { Some(t) => format!(" -> {}", name(t)), None => String::new() };
        self.out.push(format!("fn {}({}){}{} {{\n{}\n}}", nm, sig.join(", "), c, r, lines.join("\n")));
        self.funs.push(Fun { name: nm.into(), params, ret, cu });
    }
}
fn closes_last(x: &str, open: usize) -> bool {
    let mut d = 0;
    let mut q = false;
    for (i, c) in x.char_indices() {
        if i < open { continue; }
        if c == '"' { q = !q; }
        if q { continue; }
        if c == '(' { d += 1; }
        if c == ')' { d -= 1; if d == 0 { return i + 1 == x.len(); } }
    }
    false
}

fn case(s: &mut Src, _: &Cfg) -> Outcome {
    let want = s.below(3) > 0;
    let mut p = P { s, want, fault: None, out: vec![], consts: vec![], ids: vec![], unwraps: vec![], funs: vec![], vars: vec![], n: 0, fuel: 30, in_ret: false, named: false, pair: (String::new(), String::new()) };
    let nf = 1 + p.s.us(3);
    for i in 0..nf {
        let np = p.s.us(4);
        let mut ps: Vec<Ty> = (0..np).map(|_| p.ty(2)).collect();
        // A run of numbers, which a swizzle can fill.
        if p.s.below(4) == 0 { let at = p.s.us(ps.len() + 1); for _ in 0..2 + p.s.us(3) { ps.insert(at, F); } }
        let r = if p.s.below(3) > 0 { Some(p.ty(2)) } else { None };
        p.fuel = 12;
        let nm = if !ps.is_empty() && p.s.below(3) == 0 { format!("f{}__{}", i, (0..ps.len()).map(|i| format!("p{}", i)).collect::<Vec<_>>().join("_")) } else { format!("f{}", i) };
        p.fun(&nm, ps, r, 2);
    }
    // The entry calls every function.
    p.vars.clear();
    p.in_ret = false;
    p.fuel = 15;
    let mut lines = vec![];
    for f in p.funs.clone() { if let Some((c, t)) = &f.cu { let k = p.konst(t); lines.push(format!("    ~ {} := {}()", c, k)); } }
    for f in p.funs.clone() {
        let a = p.args(&f.params, 2, &f.name);
        let nm = p.misname(&f.name);
        if f.ret.is_some() { let v = p.fresh("r"); lines.push(format!("    {} := {}({})", v, nm, a)); lines.push(format!("    emit([\"{}\", typeof({})])", kind(f.ret.as_ref().unwrap()), v)); }
        else { lines.push(format!("    {}({})", nm, a)); }
    }
    p.out.push(format!("fn start() {{\n{}\n}}", lines.join("\n")));
    // Some of the functions may be in a module of their own.
    let cut = if p.s.below(3) == 0 { p.s.us(p.out.len()) } else { 0 };
    let both: Vec<String> = [&p.out[..cut], &p.out[cut..]].iter().filter(|f| !f.is_empty()).map(|f| "use std as q\n".to_string() + &f.join("\n") + "\n").collect();
    let split = both.len() > 1;
    let fault = if both.iter().any(|b| b.contains(MARK)) { p.fault.clone() } else { None };
    let src: Vec<String> = both.iter().map(|b| b.replace(MARK, &p.pair.0)).collect();
    let good: Vec<String> = both.iter().map(|b| b.replace(MARK, &p.pair.1)).collect();
    let load = |t: &[String]| dy::load_parts(&t.iter().map(|t| &t[..]).collect::<Vec<_>>());
    let text = src.join("// ---- imported by\n");
    if std::env::var("SHOW_SRC").is_ok() { eprintln!("// {:?}\n{}", fault, text); }
    let mut o = Outcome::of(format!("{}{}", fault.as_ref().map_or(String::new(), |f| format!("// fault: {}\n", f)), text));
    o.nontrivial = text.len() > 200;
    if split { o.label("imported functions"); }
    o.label(if fault.is_some() { "one type fault" } else { "well typed" });
    if fault.is_some() {
        match load(&good) {
            Err(p) => o.fail(format!("panic while loading: {}", p)),
            Ok(Err(e)) => o.fail(format!("with `{}` for `{}` all types agree but the program was rejected: {}", p.pair.1, p.pair.0, e)),
            _ => {}
        }
    }
    match (fault, load(&src)) {
        (_, Err(p)) => o.fail(format!("panic while loading: {}", p)),
        (Some(f), Ok(Ok(_))) => o.fail(format!("accepted in spite of {}", f)),
        (Some(_), Ok(Err(_))) => {}
        (None, Ok(Err(e))) => o.fail(format!("all types agree but the program was rejected: {}", e)),
        (None, Ok(Ok(m))) => {
            let _ = dy::take_log();
            dy::LIMIT.with(|l| l.set(5000));
            let mut rt = dyon::Runtime::new();
            let r = match guard(|| rt.call_str("start", &[], &m)) { Err(p) => Res::Panic(p), Ok(Err(e)) => Res::RunErr(e), Ok(Ok(())) => Res::Ok(V::Void) };
            let log = dy::take_log();
            match r { Res::Panic(p) => o.fail(format!("panic: {}", p)), Res::RunErr(e) if e.contains(dy::LIMIT_MSG) => {}, Res::RunErr(e) => o.fail(format!("a well-typed program failed: {}", e)), _ => {} }
            for x in &log { if let V::Arr(a) = x { if !a[0].same(&a[1]) { o.fail(format!("a value of type {:?} arrived where {:?} is declared", a[1], a[0])); } } }
        }
    }
    o
}
pub fn check() -> Check { Check { id: "C08", quick: 7_000, thorough: 2_000_000, case, rule: "the program has more than 200 characters of source", probes: no_probes, assumptions: &[] } }
