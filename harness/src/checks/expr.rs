//! C01: operator expressions against the reference interpreter.
use super::*;
use super::progs::{run_model, verdict, LOG_LIMIT};
use crate::dy::{self, V};
use crate::gen;
use crate::lang::*;
use crate::model::Stop;
use crate::progen::T;

pub struct X<'s> { pub s: &'s mut Src, pub k: u64, pub params: Vec<(String, T)> }

fn arr(t: T) -> T { T::A(Box::new(t)) }

impl<'s> X<'s> {
    fn param(&mut self, t: &T) -> E {
        if let Some(p) = self.params.iter().filter(|p| &p.1 == t).nth(0) {
            let same: Vec<String> = self.params.iter().filter(|p| &p.1 == t).map(|p| p.0.clone()).collect();
            let _ = p;
            if same.len() >= 2 || self.s.bool() { return var(same[self.s.us(same.len())].clone()); }
        }
        let n = format!("{}{}", match t { T::F => "a", T::B => "b", T::S => "s", T::V => "v", T::M => "m", T::L => "l", T::Opt(_) => "o", T::A(_) => "r", _ => "q" }, self.params.len());
        self.params.push((n.clone(), t.clone()));
        var(n)
    }
    fn leaf(&mut self, t: &T) -> E {
        let e = match self.s.below(4) {
            0 => match t {
                T::F => num(match self.s.below(4) { 3 => *self.s.pick(&[0.1, 0.3, 0.7, 1.1, 2.675, 123.456, 1000.001, 0.000123]), 0 => self.s.range(0, 9) as f64, 1 => self.s.range(0, 9) as f64 + 0.5, _ => self.s.range(0, 1000) as f64 }),
                T::B => E::Bool(self.s.bool()),
                T::S => E::Str(self.s.pick(&["", "a", "b", "é", "\n\"", "a b"]).to_string()),
                T::V => { let n = 2 + self.s.us(3); E::Vec4((0..n).map(|_| num(self.s.range(0, 5) as f64)).collect()) }
                T::L => { let n = self.s.us(4); E::Link((0..n).map(|_| match self.s.below(3) { 0 => num(self.s.range(0, 5) as f64), 1 => E::Bool(true), _ => E::Str("z".into()) }).collect()) }
                t => self.param(t),
            },
            _ => self.param(t),
        };
        if self.s.below(5) == 0 {
            if let Some(f) = match t { T::F => Some("ev_f"), T::B => Some("ev_b"), T::S => Some("ev_s"), T::V => Some("ev_v"), T::M => Some("ev_m"), _ => None } {
                self.k += 1;
                return call(f, vec![num(100.0 + self.k as f64), e]);
            }
        }
        e
    }
    pub fn ex(&mut self, t: &T, d: usize) -> E {
        if d == 0 || self.s.below(6) == 0 { return self.leaf(t); }
        let d = d - 1;
        macro_rules! b { ($o:expr, $a:expr, $b:expr) => {{ let o = $o; let x = self.ex(&$a, d); let y = self.ex(&$b, d); bin(o, x, y) }} }
        const NUM: [Op; 6] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::Pow];
        const CMP: [Op; 6] = [Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne];
        match t {
            T::F => match self.s.below(12) {
                0 => { let a = self.ex(&T::F, d); E::Neg(Box::new(a)) }
                1 => { let a = self.ex(&T::V, d); E::Norm(Box::new(a)) }
                2 => match self.s.below(3) { 0 => b!(Op::Dot, T::V, T::V), 1 => b!(Op::Dot, T::F, T::V), _ => b!(Op::Dot, T::V, T::F) },
                _ => b!(*self.s.pick(&NUM), T::F, T::F),
            },
            T::B => match self.s.below(14) {
                0 | 1 => { let a = self.ex(&T::B, d); E::Not(Box::new(a)) }
                2..=4 => b!(*self.s.pick(&CMP), T::F, T::F),
                5 => b!(*self.s.pick(&CMP), T::S, T::S),
                6 => b!(*self.s.pick(&[Op::Eq, Op::Ne]), T::B, T::B),
                7 => { let t = match self.s.below(6) { 0 => T::V, 1 => arr(T::F), 2 => T::O(vec![]), 3 => T::Opt(Box::new(T::F)), 4 => arr(arr(T::F)), _ => T::V }; b!(*self.s.pick(&[Op::Eq, Op::Ne]), t, t) }
                8..=10 => b!(*self.s.pick(&[Op::And, Op::Or]), T::B, T::B),
                _ => b!(*self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Pow]), T::B, T::B),
            },
            T::S => b!(Op::Add, T::S, T::S),
            T::V => match self.s.below(10) {
                0 => { let a = self.ex(&T::V, d); E::Neg(Box::new(a)) }
                1 => b!(Op::Cross, T::V, T::V),
                2 => b!(Op::Mul, T::M, T::V),
                3 => b!(*self.s.pick(&NUM), T::V, T::F),
                4 => b!(*self.s.pick(&NUM), T::F, T::V),
                5 => { let n = 2 + self.s.us(3); E::Vec4((0..n).map(|_| self.ex(&T::F, d)).collect()) }
                6 => { let n = 2 + self.s.us(2); let ix = (0..n).map(|_| self.s.us(4)).collect(); let a = self.ex(&T::V, d); let mut v = vec![E::Swizzle(ix, Box::new(a))]; while v.len() + n < 5 && self.s.bool() { v.push(self.ex(&T::F, d)); } if self.s.bool() { v.reverse(); } E::Vec4(v) }
                _ => b!(*self.s.pick(&NUM), T::V, T::V),
            },
            T::M => match self.s.below(8) {
                0 => { let a = self.ex(&T::M, d); E::Neg(Box::new(a)) }
                1 => b!(*self.s.pick(&[Op::Add, Op::Sub, Op::Mul]), T::M, T::F),
                2 => b!(*self.s.pick(&[Op::Add, Op::Sub, Op::Mul]), T::F, T::M),
                3 => { let n = 2 + self.s.us(3); E::Mat4((0..n).map(|_| self.ex(&T::V, 0)).collect()) }
                _ => b!(*self.s.pick(&[Op::Add, Op::Sub, Op::Mul]), T::M, T::M),
            },
            T::L => b!(Op::Add, T::L, T::L),
            t => self.leaf(t),
        }
    }
}
fn fix_num(s: &mut Src) -> f64 {
    match s.below(8) { 0..=4 => gen::small_num(s), 5 => *s.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e308, 5e-324, 0.1]), _ => gen::finite(s) }
}
pub fn value(s: &mut Src, t: &T) -> V {
    match t {
        T::F => V::Num(fix_num(s)),
        T::V => { let mut v = [0f32; 4]; for x in v.iter_mut() { *x = match s.below(6) { 0 => *s.pick(&[0.0, -0.0, f32::INFINITY, f32::NAN, 0.1]), _ => s.range(-4, 9) as f32 }; } V::Vec4(v) }
        T::M => { let mut m = [[0f32; 4]; 4]; for r in m.iter_mut() { for x in r.iter_mut() { *x = s.range(-3, 5) as f32; } } V::Mat4(m) }
        T::S => V::Str(gen::any_string(s, 3)),
        T::O(_) => { let n = s.us(3); V::Obj((0..n).map(|_| (s.pick(&["p", "q"]).to_string(), match s.below(3) { 0 => V::Bool(s.bool()), 1 => V::Str("a".into()), _ => V::Num(s.range(0, 1) as f64) })).collect()) }
        T::A(t) => { let n = s.us(3); V::Arr((0..n).map(|_| match **t { T::F => V::Num(s.range(0, 1) as f64), ref t => value(s, t) }).collect()) }
        T::Opt(_) => if s.below(3) > 0 { V::Some(Box::new(V::Num(s.range(0, 1) as f64))) } else { V::None },
        t => crate::progen::arg_value(s, t),
    }
}
/// Any value, for operand pairings of every kind.
fn any(s: &mut Src) -> V {
    let t = match s.below(12) { 0 | 1 => T::F, 2 => T::B, 3 => T::S, 4 => T::V, 5 => T::M, 6 => arr(T::F), 7 => T::O(vec![]), 8 => T::Opt(Box::new(T::F)), 9 => T::Res(Box::new(T::F)), 10 => T::L, _ => arr(arr(T::F)) };
    value(s, &t)
}
const AOPS: [AOp; 7] = [AOp::Set, AOp::Add, AOp::Sub, AOp::Mul, AOp::Div, AOp::Rem, AOp::Pow];
const ALL: [Op; 16] = [Op::Add, Op::Sub, Op::Or, Op::Mul, Op::Div, Op::Rem, Op::And, Op::Dot, Op::Cross, Op::Pow, Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge];

fn case(s: &mut Src, _: &Cfg) -> Outcome {
    let mut prog = Prog::default();
    let mut calls: Vec<(String, Vec<V>)> = vec![];
    let n = 1 + s.us(6);
    for i in 0..n {
        let name = format!("e{}", i);
        let mut f = Fun { name: name.clone(), ret: Some(String::new()), ..Default::default() };
        match s.below(8) {
            0 => {
                // Any pairing of operand types.
                let o = *s.pick(&ALL);
                f.params = vec![param("a", ""), param("b", "")];
                let (mut l, mut r) = (var("a"), var("b"));
                if s.bool() { l = call("ev", vec![num(1.0), l]); }
                if s.bool() { r = call("ev", vec![num(2.0), r]); }
                f.body = vec![ret(E::Paren(Box::new(bin(o, l, r))))];
                for _ in 0..6 { let a = any(s); let b = if s.bool() { any(s) } else { match &a { V::Num(_) => value(s, &T::F), V::Vec4(_) => value(s, &T::V), _ => any(s) } }; calls.push((name.clone(), vec![a, b])); }
            }
            1 => {
                let t = match s.below(3) { 0 => E::Neg(Box::new(var("a"))), 1 => E::Not(Box::new(var("a"))), _ => E::Norm(Box::new(var("a"))) };
                f.params = vec![param("a", "")];
                f.body = vec![ret(t)];
                for _ in 0..4 { calls.push((name.clone(), vec![any(s)])); }
            }
            2 => {
                // Compound assignment, any pairing.
                let o = *s.pick(&AOPS);
                f.params = vec![param("a", ""), param("b", "")];
                f.body = match s.below(3) {
                    0 => vec![decl("x", clone(var("a"))), assign(o, var("x"), clone(var("b"))), ret(clone(var("x")))],
                    1 => vec![decl("x", E::Arr(vec![clone(var("a")), num(1.0)])), assign(o, E::Var("x".into(), vec![(Id::N(0.0), false)], false), clone(var("b"))), ret(clone(var("x")))],
                    _ => vec![decl("x", E::Obj(vec![("p".into(), clone(var("a")))])), assign(o, E::Var("x".into(), vec![(Id::F("p".into()), false)], false), clone(var("b"))), ret(clone(var("x")))],
                };
                for _ in 0..6 { let a = any(s); let b = if s.bool() { any(s) } else { match &a { V::Num(_) => value(s, &T::F), V::Vec4(_) => value(s, &T::V), V::Link(_) => value(s, &T::L), V::Str(_) => value(s, &T::S), V::Mat4(_) => value(s, &T::M), _ => any(s) } }; calls.push((name.clone(), vec![a, b])); }
            }
            _ => {
                let t = match s.below(12) { 0..=3 => T::F, 4..=7 => T::B, 8 => T::S, 9 => T::V, 10 => T::M, _ => T::L };
                let mut x = X { s, k: 0, params: vec![] };
                let e = if let T::F | T::B = t { x.ex(&t, 3) } else { x.ex(&t, 2) };
                let ps = x.params;
                // Typed or untyped parameters.
                let typed = s.bool();
                f.params = ps.iter().map(|(n, t)| param(n, &if typed { t.text() } else { String::new() })).collect();
                // A whole expression as the operand of `return` may not start with a parenthesis.
                f.body = if s.below(4) == 0 { f.ret = Some(t.text()); vec![decl("res", e), ret(clone(var("res")))] } else { vec![decl("res", e), ret(clone(var("res")))] };
                for _ in 0..4 { calls.push((name.clone(), ps.iter().map(|(_, t)| value(s, t)).collect())); }
            }
        }
        prog.funs.push(f);
    }
    let src = text(&prog);
    let mut o = Outcome::of(src.clone());
    let m = match dy::load(&src) {
        Err(p) => { o.fail(format!("panic while loading: {}", p)); return o; }
        Ok(Err(e)) => { o.fail(format!("the program is well-formed but was rejected: {}", e)); return o; }
        Ok(Ok(m)) => m,
    };
    let mut rt = dyon::Runtime::new();
    for (f, args) in &calls {
        let ran = run_model(&prog, f, args, true);
        match &ran.want { Err(Stop::Budget) | Err(Stop::Undefined(_)) => { if std::env::var("SHOW_UNDEF").is_ok() { eprintln!("UNDEF {:?}\n{}", ran.want, src); } continue } Ok(_) => { o.nontrivial = true; o.label("value") } Err(_) => o.label("unsupported operands") }
        let _ = dy::take_log();
        dy::LIMIT.with(|l| l.set(LOG_LIMIT));
        let res = dy::call(&mut rt, &m, f, args, true);
        let log = dy::take_log();
        for s in &ran.seen { o.label(s); }
        verdict(&mut o, &ran, &res, &log);
        if o.violation.is_some() { o.desc = format!("{}({:?})\n{}", f, args, src); return o; }
        if let dy::Res::RunErr(_) = res { rt = dyon::Runtime::new(); }
    }
    o
}
pub fn check() -> Check {
    Check { id: "C01", quick: 16_000, thorough: 2_000_000, case, rule: "at least one of the program's expressions has a value in the reference interpreter", probes: no_probes,
        assumptions: &["single operations on f64/f32 (IEEE arithmetic, powf, %) are those of the Rust standard library in both interpreters"] }
}
