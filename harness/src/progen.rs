//! Generator of well-typed programs.
use crate::dy::V;
use crate::engine::Src;
use crate::lang::*;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Debug)]
pub enum T { F, B, S, V, M, A(Box<T>), O(Vec<(String, T)>), Opt(Box<T>), Res(Box<T>), L, C(Vec<T>, Box<T>) }
pub fn arr(t: T) -> T { T::A(Box::new(t)) }

impl T {
    pub fn text(&self) -> String {
        match self {
            T::F => "f64".into(), T::B => "bool".into(), T::S => "str".into(), T::V => "vec4".into(), T::M => "mat4".into(),
            T::A(t) => format!("[{}]", t.text()), T::O(_) => "{}".into(),
            T::Opt(t) => format!("opt[{}]", t.text()), T::Res(t) => format!("res[{}]", t.text()), T::L => "link".into(),
            T::C(a, r) => format!("\\({}) -> {}", a.iter().map(|x| x.text()).collect::<Vec<_>>().join(", "), r.text()),
        }
    }
}

/// How often each construct is tried.
#[derive(Clone)]
pub struct Prof {
    pub decl: u32, pub assign: u32, pub emit: u32, pub ifs: u32, pub forn: u32, pub forc: u32, pub lp: u32, pub block: u32,
    pub path: u32, pub arrs: u32, pub callm: u32, pub jump: u32, pub ret: u32, pub retvar: u32, pub current: u32, pub tries: u32,
    pub clos: u32, pub quest: u32, pub boom: u32, pub refs: u32,
    /// Weight of folds among number expressions.
    pub fold: u32,
    pub lazy: u32,
    /// Composite value types are used.
    pub rich: u32,
    pub funs: usize, pub stmts: usize, pub depth: usize,
}
impl Prof {
    pub const NONE: Prof = Prof { decl: 6, assign: 4, emit: 4, ifs: 2, forn: 1, forc: 0, lp: 0, block: 0, path: 0, arrs: 0, callm: 0, jump: 0, ret: 0, retvar: 0, current: 0, tries: 0, clos: 0, quest: 0, boom: 0, refs: 0, fold: 0, lazy: 0, rich: 2, funs: 2, stmts: 5, depth: 2 };
}

#[derive(Clone, Debug)]
pub struct Var {
    pub name: String, pub ty: T,
    /// Assignable in this function.
    pub w: bool,
    /// Parameter of the function (lives longer than locals, no references may be stored into it).
    pub param: bool,
    /// Loop counter.
    pub idx: bool,
    /// May hold references to other variables.
    pub refs: bool,
}
#[derive(Clone, Debug)]
pub struct Sig { pub name: String, pub params: Vec<(T, bool)>, pub ret: Option<T>, pub currents: Vec<(bool, String, T)>, pub fails: bool, pub lazy: bool }

pub struct G<'s> {
    pub s: &'s mut Src,
    pub p: Prof,
    pub sigs: Vec<Sig>,
    pub vars: Vec<Var>,
    pub loops: Vec<Option<String>>,
    pub ret: Option<T>,
    pub ret_slot: bool,
    pub k: u64,
    pub fuel: i64,
    pub in_closure: bool,
    /// Live current objects in this function: (mutable here, name, type).
    pub cur: Vec<(bool, String, T)>,
    pub quest_ok: bool,
    pub labels: usize,
    /// Function bodies being built may fail at run time.
    pub fails: bool,
    pub clo_depth: usize,
    /// Parsing cost of the nesting around the current expression.
    pub mul: u64,
}

const NAMES: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h"];
const IDX: &[&str] = &["i", "j", "k", "l", "m", "n"];

impl<'s> G<'s> {
    pub fn new(s: &'s mut Src, p: Prof) -> G<'s> {
        G { s, p, sigs: vec![], vars: vec![], loops: vec![], ret: None, ret_slot: false, k: 0, fuel: 0, in_closure: false, cur: vec![], quest_ok: false, labels: 0, fails: false, clo_depth: 0, mul: 1 }
    }
    fn spend(&mut self) -> bool { self.fuel -= 1; self.fuel > 0 }
    pub fn ty(&mut self) -> T {
        if self.s.below(10) >= self.p.rich as u64 { return match self.s.below(8) { 0..=4 => T::F, 5 | 6 => T::B, _ => T::S }; }
        match self.s.weighted(&[3, 1, 3, 2, 2, 2, 2, 1, 1, 1]) {
            0 => arr(T::F), 1 => arr(arr(T::F)), 2 => self.obj_ty(), 3 => T::V, 4 => T::Opt(Box::new(T::F)), 5 => T::Res(Box::new(T::F)), 6 => T::L, 7 => arr(T::S), 8 => arr(self.obj_ty()), _ => T::S,
        }
    }
    fn obj_ty(&mut self) -> T {
        let n = 1 + self.s.us(3);
        T::O((0..n).map(|i| (["p", "q", "r"][i].to_string(), match self.s.below(6) { 0..=2 => T::F, 3 => T::B, 4 => arr(T::F), _ => T::S })).collect())
    }
    pub fn lit(&mut self, t: &T) -> E {
        match t {
            T::F => num(match self.s.below(6) { 0..=3 => self.s.range(0, 5) as f64, 4 => self.s.range(0, 20) as f64 * 0.5, _ => -(self.s.range(1, 6) as f64) }),
            T::B => E::Bool(self.s.bool()),
            T::S => E::Str(self.s.pick(&["", "a", "b", "hi", "x y"]).to_string()),
            T::V => { let n = 2 + self.s.us(3); E::Vec4((0..n).map(|_| num(self.s.range(0, 4) as f64)).collect()) }
            T::M => E::Mat4((0..4).map(|_| E::Vec4((0..4).map(|_| num(self.s.range(0, 3) as f64)).collect())).collect()),
            T::A(t) => { let n = self.s.us(4); E::Arr((0..n).map(|_| self.lit(t)).collect()) }
            T::O(kv) => E::Obj(kv.iter().map(|(k, t)| (k.clone(), self.lit(t))).collect()),
            T::Opt(t) => if self.s.below(3) > 0 { call("some", vec![self.lit(t)]) } else { call("none", vec![]) },
            T::Res(t) => if self.s.below(3) > 0 { call("ok", vec![self.lit(t)]) } else { call("err", vec![E::Str("bad".into())]) },
            T::L => { let n = self.s.us(4); E::Link((0..n).map(|_| { let t = match self.s.below(3) { 0 => T::F, 1 => T::B, _ => T::S }; self.lit(&t) }).collect()) }
            T::C(a, r) => { let (a, r) = (a.clone(), r.clone()); self.closure(&a, &r) }
        }
    }
    fn find(&mut self, t: &T, f: fn(&Var) -> bool) -> Option<Var> {
        // Innermost declarations only.
        let mut seen: Vec<&str> = vec![];
        let mut c: Vec<&Var> = vec![];
        for v in self.vars.iter().rev() {
            if seen.contains(&&*v.name) { continue; }
            seen.push(&v.name);
            if &v.ty == t && f(v) { c.push(v); }
        }
        if c.is_empty() { return None; }
        let i = self.s.us(c.len());
        Some(c[i].clone())
    }
    pub fn visible(&self) -> Vec<Var> {
        let mut r: Vec<Var> = vec![];
        for v in self.vars.iter().rev() { if !r.iter().any(|x| x.name == v.name) { r.push(v.clone()); } }
        r.reverse();
        r
    }
    fn key(&mut self) -> E { self.k += 1; num(100.0 + self.k as f64) }

    /// An expression that may denote a variable.
    pub fn ex(&mut self, t: &T, d: usize) -> E {
        if self.s.below(3) > 0 || d == 0 {
            if self.s.below(8) > 0 { if let Some(v) = self.find(t, |_| true) { return var(v.name); } }
        }
        self.val(t, d)
    }
    /// An expression whose value holds no reference to a variable.
    pub fn val(&mut self, t: &T, d: usize) -> E {
        let m = self.mul;
        if !matches!(t, T::A(_) | T::O(_)) { self.mul *= 4; }
        let e = self.val_in(t, d);
        self.mul = m;
        e
    }
    fn val_in(&mut self, t: &T, d: usize) -> E {
        if d == 0 || !self.spend() || self.mul > 24 {
            if self.s.below(4) > 0 { if let Some(v) = self.find(t, |_| true) { return self.copy(t, v.name); } }
            return self.lit(t);
        }
        let d = d - 1;
        // Constructs available at every type.
        match self.s.below(24) {
            0 | 1 => if let Some(e) = self.call_fn(t, d) { return e; },
            2 => { let c = self.ex(&T::B, d); let a = self.vblock(t, d); let b = self.vblock(t, d); return E::If(vec![(c, a)], Some(b)); }
            3 => if self.p.block > 0 { let b = self.vblock(t, d); return block(b); },
            4 => if let Some(e) = self.path_read(t) { return e; },
            5 => if self.p.clos > 0 { if let Some(e) = self.clo_call(t, d) { return e; } },
            6 => if self.p.tries > 0 {
                let o = T::Opt(Box::new(t.clone()));
                let r = T::Res(Box::new(t.clone()));
                return match self.s.below(4) {
                    0 => { let a = self.ex(&o, d); let b = self.val(t, d); call("unwrap_or", vec![a, b]) }
                    1 => { let a = self.ex(&r, d); let b = self.val(t, d); call("unwrap_or", vec![a, b]) }
                    2 => { let a = self.try_e(t, d); let b = self.val(t, d); call("unwrap_or", vec![a, b]) }
                    _ => { let a = self.val(t, d); call("unwrap", vec![call("ok", vec![a])]) }
                };
            },
            7 => if self.p.quest > 0 && self.quest_ok {
                let o = if self.s.bool() { T::Opt(Box::new(t.clone())) } else { T::Res(Box::new(t.clone())) };
                if let Some(v) = self.find(&o, |_| true) { return clone(E::TryQ(Box::new(var(v.name)))); }
                let e = self.val(&o, d);
                return E::TryQ(Box::new(e));
            },
            8 => if let Some(v) = self.find(t, |_| true) { return self.copy(t, v.name); },
            9 => match t { T::F | T::B | T::S | T::V => { let k = self.key(); let e = self.ex(t, d); return call(match t { T::F => "ev_f", T::B => "ev_b", T::S => "ev_s", _ => "ev_v" }, vec![k, e]); } _ => {} },
            _ => {}
        }
        match t {
            T::F => self.num(d),
            T::B => self.boolean(d),
            T::S => match self.s.below(4) {
                0 => self.lit(t),
                1 | 2 => { let a = self.ex(t, d); let b = self.ex(t, d); bin(Op::Add, a, b) }
                _ => { let any = self.ty(); let a = self.ex(&any, d); call("typeof", vec![a]) }
            },
            T::V => match self.s.below(8) {
                0 | 1 => { let n = 2 + self.s.us(3); E::Vec4((0..n).map(|_| self.ex(&T::F, d)).collect()) }
                2 => { let a = self.ex(&T::V, d); let ix = (0..2 + self.s.us(3)).map(|_| self.s.us(4)).collect(); E::Vec4(vec![E::Swizzle(ix, Box::new(a))]) }
                3 => { let a = self.ex(&T::V, d); E::Neg(Box::new(a)) }
                4 => { let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul]); let a = self.ex(&T::V, d); let b = self.ex(&T::F, d); bin(o, a, b) }
                5 => { let n = 2 + self.s.us(3); let i = self.index(); self.vars.push(Var { name: i.clone(), ty: T::F, w: false, param: false, idx: true, refs: false }); let e = self.num(d); self.vars.pop(); E::VecUn(n, i, Box::new(e)) }
                _ => { let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Cross]); let a = self.ex(&T::V, d); let b = self.ex(&T::V, d); bin(o, a, b) }
            },
            T::M => self.lit(t),
            T::A(e) => match self.s.below(6) {
                0 | 1 | 2 => { let n = self.s.us(4); E::Arr((0..n).map(|_| self.val(e, d)).collect()) }
                3 => { let a = self.val(e, d); let n = num(self.s.range(0, 4) as f64); E::Fill(Box::new(a), Box::new(n)) }
                4 if self.p.fold > 0 => { let e = (**e).clone(); self.fold(LK::Sift, &e, d) }
                _ => self.lit(t),
            },
            T::O(kv) => { let kv = kv.clone(); E::Obj(kv.iter().map(|(k, t)| (k.clone(), self.val(t, d))).collect()) }
            T::Opt(t) => match self.s.below(4) { 0 => call("none", vec![]), 3 if **t == T::F => { let l = self.ex(&T::L, d); self.fails = true; let _ = l; let a = self.ex(t, d); call("some", vec![a]) } _ => { let a = self.ex(t, d); call("some", vec![a]) } },
            T::Res(t) => match self.s.below(5) {
                0 => call("err", vec![E::Str("bad".into())]),
                1 if self.p.tries > 0 => self.try_e(t, d),
                _ => { let a = self.ex(t, d); call("ok", vec![a]) }
            },
            T::L => match self.s.below(5) {
                0 => { let a = self.ex(t, d); let b = self.ex(t, d); bin(Op::Add, a, b) }
                1 => { let a = self.ex(t, d); call(self.s.pick(&["tail", "neck"]), vec![a]) }
                2 if self.p.fold > 0 => { let i = T::F; self.fold(LK::Link, &i, d) }
                _ => { let n = self.s.us(4); E::Link((0..n).map(|_| { let t = match self.s.below(4) { 0 => T::B, 1 => T::S, 2 => T::L, _ => T::F }; self.ex(&t, d) }).collect()) }
            },
            T::C(a, r) => { let (a, r) = (a.clone(), r.clone()); self.closure(&a, &r) }
        }
    }
    fn try_e(&mut self, t: &T, d: usize) -> E {
        let q = std::mem::replace(&mut self.quest_ok, false);
        let e = match self.s.below(4) {
            0 => call("boom", vec![E::Str("no".into())]),
            1 => { let a = arr(t.clone()); match self.find(&a, |_| true) { Some(v) => clone(E::Var(v.name, vec![(Id::N(self.s.range(0, 3) as f64), false)], false)), None => self.val(t, d) } }
            2 => { let c = self.ex(&T::B, d); let a = self.vblock(t, d); E::If(vec![(c, a)], Some(vec![clone(call("boom", vec![E::Str("no".into())]))])) }
            _ => self.val(t, d),
        };
        self.quest_ok = q;
        E::TryE(Box::new(e))
    }
    fn copy(&mut self, t: &T, n: String) -> E {
        match t {
            T::F => match self.s.below(3) { 0 => clone(var(n)), 1 => bin(Op::Add, var(n), num(1.0)), _ => { let k = self.key(); call("ev_f", vec![k, var(n)]) } },
            T::S if self.s.bool() => bin(Op::Add, var(n), E::Str("-".into())),
            T::B if self.s.bool() => E::Not(Box::new(var(n))),
            _ => clone(var(n)),
        }
    }
    /// Statements and a final value.
    fn vblock(&mut self, t: &T, d: usize) -> Vec<E> {
        let n = self.vars.len();
        let c = self.cur.len();
        let mut b = vec![];
        if self.s.below(4) == 0 && self.fuel > 0 { let l = std::mem::take(&mut self.loops); b.extend(self.simple_stmt(d)); self.loops = l; }
        let e = self.val(t, d);
        b.push(e);
        self.vars.truncate(n);
        self.cur.truncate(c);
        b
    }
    pub fn num(&mut self, d: usize) -> E {
        let wf = self.p.fold;
        match self.s.weighted(&[3, 8, 1, 1, 1, wf, 1]) {
            0 => self.lit(&T::F),
            1 => { let o = *self.s.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Add, Op::Div, Op::Rem]); let a = self.ex(&T::F, d); let b = self.ex(&T::F, d); bin(o, a, b) }
            2 => { let a = self.ex(&T::F, d); E::Neg(Box::new(a)) }
            3 => { let f = *self.s.pick(&["abs", "floor", "ceil", "round"]); let a = self.ex(&T::F, d); call(f, vec![a]) }
            4 => { let v = self.ex(&T::V, d); match self.s.below(3) { 0 => E::Norm(Box::new(v)), 1 => { let b = self.ex(&T::V, d); bin(Op::Dot, v, b) } _ => call(self.s.pick(&["x", "y", "z", "w"]), vec![v]) } }
            5 => { let k = *self.s.pick(&[LK::Sum, LK::Prod, LK::Min, LK::Max]); let e = self.fold(k, &T::F, d); if matches!(k, LK::Min | LK::Max) { bin(Op::Add, num(0.0), e) } else { e } }
            _ => { let t = if self.s.bool() { arr(T::F) } else { arr(arr(T::F)) }; match self.find(&t, |_| true) { Some(v) => call("len", vec![var(v.name)]), None => self.lit(&T::F) } }
        }
    }
    pub fn boolean(&mut self, d: usize) -> E {
        let wf = self.p.fold;
        match self.s.weighted(&[1, 6, 3, 2, 1, wf, 1]) {
            0 => self.lit(&T::B),
            1 => { let o = *self.s.pick(&[Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq, Op::Ne]); let a = self.ex(&T::F, d); let b = self.ex(&T::F, d); bin(o, a, b) }
            2 => { let o = *self.s.pick(&[Op::And, Op::Or, Op::Add, Op::Mul, Op::Pow, Op::Sub, Op::Eq]); let a = self.ex(&T::B, d); let b = self.ex(&T::B, d); bin(o, a, b) }
            3 => { let a = self.ex(&T::B, d); E::Not(Box::new(a)) }
            4 => { let o = *self.s.pick(&[Op::Lt, Op::Eq, Op::Ne, Op::Ge]); let a = self.ex(&T::S, d); let b = self.ex(&T::S, d); bin(o, a, b) }
            5 => { let k = *self.s.pick(&[LK::Any, LK::All]); let e = self.fold(k, &T::B, d); bin(Op::And, E::Bool(true), e) }
            _ => { let r = T::Res(Box::new(T::F)); let a = self.ex(&r, d); call(self.s.pick(&["is_ok", "is_err"]), vec![a]) }
        }
    }
    pub fn index(&mut self) -> String {
        let used: Vec<&str> = self.vars.iter().filter(|v| v.idx).map(|v| &*v.name).collect();
        IDX.iter().find(|n| !used.contains(n)).unwrap_or(&"ii").to_string()
    }
    pub fn label(&mut self) -> Option<String> { if self.p.jump > 0 && self.s.below(3) == 0 { self.labels += 1; Some(format!("l{}", self.labels)) } else { None } }
    /// A fold over one or two indices.
    pub fn fold(&mut self, k: LK, t: &T, d: usize) -> E {
        let m0 = self.mul;
        self.mul *= 3;
        let n = self.vars.len();
        let c = self.cur.len();
        let mut ixs = vec![];
        // Every packed index of sift adds a level of arrays.
        let mut packed = self.s.below(4) == 0;
        let mut t = t;
        if k == LK::Sift && packed { match t { T::A(e) => t = e, _ => packed = false } }
        for _ in 0..1 + packed as usize {
            let i = self.index();
            let start = if self.s.below(4) == 0 { Some(Box::new(num(self.s.range(-1, 2) as f64))) } else { None };
            let end = Box::new(if self.s.below(6) == 0 { self.len_of() } else { num(self.s.range(0, 4) as f64) });
            ixs.push(Ix { name: i.clone(), start, end: Some(end) });
            self.vars.push(Var { name: i, ty: T::F, w: false, param: false, idx: true, refs: false });
        }
        let l = if ixs.len() == 1 { self.label() } else { None };
        // Loop control may only leave through a loop when the fold is the whole statement, so the
        // fold hides the loops around it.
        let outer = std::mem::replace(&mut self.loops, vec![l.clone()]);
        let mut b = vec![];
        if k == LK::Link {
            let m = 1 + self.s.us(2);
            for _ in 0..m { let t = match self.s.below(3) { 0 => T::S, 1 => T::B, _ => T::F }; b.push(self.ex(&t, d)); }
        } else {
            if ixs.len() == 1 && self.p.jump > 0 && self.s.below(4) == 0 { let c = self.ex(&T::B, d); let j = self.jump(); b.push(E::If(vec![(c, vec![j])], None)); }
            if self.s.below(4) == 0 && self.fuel > 0 { let st = self.simple_stmt(d); b.extend(st); }
            let e = match t { T::F if self.s.bool() => { let i = ixs[self.s.us(ixs.len())].name.clone(); let e = self.ex(&T::F, d); bin(*self.s.pick(&[Op::Add, Op::Mul, Op::Sub]), var(i), e) }
                T::B if self.s.bool() => { let i = ixs[self.s.us(ixs.len())].name.clone(); let e = self.ex(&T::F, d); bin(*self.s.pick(&[Op::Gt, Op::Eq, Op::Ge, Op::Ne]), var(i), e) }
                t => self.val(t, d) };
            b.push(e);
        }
        self.loops = outer;
        self.vars.truncate(n);
        self.cur.truncate(c);
        self.mul = m0;
        E::ForN(k, l, ixs, b)
    }
    fn len_of(&mut self) -> E { match self.find(&arr(T::F), |_| true) { Some(v) => call("len", vec![var(v.name)]), None => num(2.0) } }
    fn jump(&mut self) -> E {
        let l = { let ls: Vec<String> = self.loops.iter().filter_map(|x| x.clone()).collect(); if !ls.is_empty() && self.s.bool() { Some(ls[self.s.us(ls.len())].clone()) } else { None } };
        if self.s.bool() { E::Break(l) } else { E::Continue(l) }
    }
    fn path_read(&mut self, t: &T) -> Option<E> {
        let vs = self.visible();
        let mut c: Vec<(String, Vec<(Id, bool)>)> = vec![];
        for v in &vs { self.paths(&v.name, &v.ty, vec![], t, &mut c); }
        if c.is_empty() { return None; }
        let i = self.s.us(c.len());
        let (n, ids) = c[i].clone();
        let ids = self.indices(ids);
        self.fails = true;
        Some(clone(E::Var(n, ids, false)))
    }
    fn paths(&self, n: &str, ty: &T, at: Vec<(Id, bool)>, t: &T, out: &mut Vec<(String, Vec<(Id, bool)>)>) {
        if !at.is_empty() && ty == t { out.push((n.into(), at.clone())); }
        if at.len() > 2 { return; }
        match ty {
            T::A(e) => { let mut a = at; a.push((Id::N(-1.0), false)); self.paths(n, e, a, t, out); }
            T::O(kv) => for (k, e) in kv { let mut a = at.clone(); a.push((Id::F(k.clone()), false)); self.paths(n, e, a, t, out); },
            _ => {}
        }
    }
    /// Chooses array indices: literals, counters, or expressions.
    fn indices(&mut self, ids: Vec<(Id, bool)>) -> Vec<(Id, bool)> {
        ids.into_iter().map(|(id, q)| (match id {
            Id::N(_) => match self.s.below(6) {
                0..=2 => Id::N(self.s.range(0, 2) as f64),
                3 | 4 => match self.find(&T::F, |v| v.idx) { Some(v) => Id::E(Box::new(var(v.name))), None => Id::N(0.0) },
                _ => Id::E(Box::new(bin(Op::Sub, num(self.s.range(1, 2) as f64), num(1.0)))),
            },
            id => id,
        }, q)).collect()
    }
    fn args(&mut self, params: &[(T, bool)], d: usize) -> Option<Vec<E>> {
        let mut used: Vec<String> = vec![];
        let mut r = vec![];
        for (t, m) in params {
            if *m {
                let v = self.find(t, |v| v.w && !v.idx && !v.refs)?;
                if used.contains(&v.name) { return None; }
                used.push(v.name.clone());
                r.push(E::Mut(v.name));
            } else { r.push(E::Bool(true)) }
        }
        for (i, (t, m)) in params.iter().enumerate() { if !*m {
            // Arguments next to a `mut` argument do not name it.
            let hid: Vec<Var> = if used.is_empty() { vec![] } else { std::mem::take(&mut self.vars) };
            if !used.is_empty() { self.vars = hid.iter().filter(|v| !used.contains(&v.name)).cloned().collect(); }
            r[i] = self.ex(t, d);
            if !used.is_empty() { self.vars = hid; }
        } }
        Some(r)
    }
    fn call_fn(&mut self, t: &T, d: usize) -> Option<E> {
        let c: Vec<Sig> = self.sigs.iter().filter(|s| s.ret.as_ref() == Some(t) && !s.params.iter().any(|p| p.1) && (self.p.tries + self.p.boom > 0 || !s.fails || true)).cloned().collect();
        if c.is_empty() { return None; }
        let s = c[self.s.us(c.len())].clone();
        if !self.currents_ok(&s) { return None; }
        let a = self.args(&s.params, d)?;
        if s.fails { self.fails = true; }
        Some(call(&s.name, a))
    }
    fn currents_ok(&mut self, s: &Sig) -> bool { s.currents.iter().all(|(_, n, t)| self.cur.iter().rev().find(|c| &c.1 == n).map(|c| &c.2 == t).unwrap_or(false)) || (s.currents.is_empty()) }
    pub fn closure(&mut self, a: &[T], r: &T) -> E {
        // The body sees its parameters and what it grabs.
        let outer = std::mem::take(&mut self.vars);
        let names = ["p0", "p1", "p2"];
        let mut grabs: Vec<Var> = vec![];
        let lv: Vec<Var> = outer.iter().rev().fold(vec![], |mut r: Vec<Var>, v| { if !r.iter().any(|x| x.name == v.name) { r.push(v.clone()); } r });
        if !lv.is_empty() { let m = self.s.us(3); for _ in 0..m { let v = lv[self.s.us(lv.len())].clone(); grabs.push(v); } }
        let depth = self.clo_depth;
        self.clo_depth += 1;
        let pn: Vec<String> = names.iter().map(|n| if depth > 0 { format!("{}_{}", n, depth) } else { n.to_string() }).collect();
        for (i, t) in a.iter().enumerate() { self.vars.push(Var { name: pn[i].clone(), ty: t.clone(), w: false, param: true, idx: false, refs: false }); }
        // Grabbed values become locals of a block.
        let q = std::mem::replace(&mut self.quest_ok, false);
        let ic = std::mem::replace(&mut self.in_closure, true);
        let lo = std::mem::take(&mut self.loops);
        let (rt, rs) = (self.ret.take(), std::mem::replace(&mut self.ret_slot, false));
        let cu = std::mem::take(&mut self.cur);
        let mut b = vec![];
        for (i, g) in grabs.iter().enumerate() {
            let n = format!("g{}", i);
            let n = if depth > 0 { format!("{}_{}", n, depth) } else { n };
            let e = match &g.ty { T::F if self.s.bool() => bin(Op::Add, var(&*g.name), num(1.0)), _ => var(&*g.name) };
            b.push(decl(&n, E::Grab(1, Box::new(e))));
            self.vars.push(Var { name: n, ty: g.ty.clone(), w: !matches!(g.ty, T::C(..)), param: false, idx: false, refs: false });
        }
        let inline = b.is_empty() || (a.len() == 1 && grabs.len() == 1 && grabs[0].ty == T::F && *r == T::F && a[0] == T::F && self.s.bool());
        let body = if inline && !b.is_empty() {
            bin(*self.s.pick(&[Op::Add, Op::Mul, Op::Sub]), var(&*pn[0]), E::Grab(1, Box::new(var(&*grabs[0].name))))
        } else if inline { self.val(r, 2) } else {
            if self.s.below(3) == 0 { let st = self.simple_stmt(1); b.extend(st); }
            let e = self.val(r, 2);
            b.push(e);
            E::Block(b)
        };
        self.clo_depth -= 1;
        self.vars = outer;
        self.quest_ok = q; self.in_closure = ic; self.loops = lo; self.ret = rt; self.ret_slot = rs; self.cur = cu;
        E::Clo(a.iter().enumerate().map(|(i, t)| (pn[i].clone(), t.text())).collect(), vec![], Box::new(body))
    }
    fn clo_call(&mut self, t: &T, d: usize) -> Option<E> {
        let vs: Vec<Var> = self.visible().into_iter().filter(|v| matches!(&v.ty, T::C(_, r) if &**r == t)).collect();
        if vs.is_empty() { return None; }
        let v = vs[self.s.us(vs.len())].clone();
        let a = match &v.ty { T::C(a, _) => a.clone(), _ => unreachable!() };
        let xs: Vec<E> = a.iter().map(|t| self.ex(t, d)).collect();
        Some(E::CloCall(Box::new(var(v.name)), xs))
    }
    pub fn fresh(&mut self) -> String { self.s.pick(NAMES).to_string() }

    /// A statement without loops.
    pub fn simple_stmt(&mut self, d: usize) -> Vec<E> {
        match self.s.weighted(&[2, self.p.decl, self.p.assign, self.p.path]) {
            0 => { let t = self.ty(); let e = self.ex(&t, d); vec![emit(e)] }
            1 => self.decl(d),
            2 => self.assign(d).into_iter().collect(),
            _ => self.path_write(d).into_iter().collect(),
        }
    }
    pub fn decl(&mut self, d: usize) -> Vec<E> {
        let t = if self.p.clos > 0 && self.s.below(30) < self.p.clos as u64 { let a = match self.s.below(3) { 0 => vec![T::F], 1 => vec![T::F, T::F], _ => vec![T::B] }; T::C(a, Box::new(match self.s.below(3) { 0 => T::B, _ => T::F })) } else { self.ty() };
        let e = self.ex(&t, d);
        let n = self.fresh();
        // Holding a reference depends on what was copied.
        let refs = match &e { E::Var(m, ids, _) if ids.is_empty() => self.vars.iter().rev().find(|v| &v.name == m).map(|v| v.refs).unwrap_or(false), _ => false };
        self.vars.push(Var { name: n.clone(), ty: t, w: true, param: false, idx: false, refs });
        vec![decl(&n, e)]
    }
    pub fn assign(&mut self, d: usize) -> Option<E> {
        let vs: Vec<Var> = self.visible().into_iter().filter(|v| v.w && !v.idx).collect();
        if vs.is_empty() { return None; }
        let v = vs[self.s.us(vs.len())].clone();
        let o = match v.ty { T::F | T::V => *self.s.pick(&[AOp::Set, AOp::Add, AOp::Sub, AOp::Mul]), T::S => *self.s.pick(&[AOp::Set, AOp::Add]), T::L => *self.s.pick(&[AOp::Set, AOp::Add, AOp::Sub]), _ => AOp::Set };
        let t = match (&v.ty, o) { (T::L, AOp::Add) if self.s.bool() => match self.s.below(3) { 0 => T::B, 1 => T::S, _ => T::F }, (T::V, AOp::Add | AOp::Sub | AOp::Mul) if self.s.bool() => T::F, (t, _) => t.clone() };
        // Strings and numbers do not grow without bound.
        if (v.ty == T::S || v.ty == T::L) && o != AOp::Set && self.loops.len() > 1 { return None; }
        let e = self.val(&t, d);
        Some(assign(o, var(v.name), e))
    }
    pub fn path_write(&mut self, d: usize) -> Option<E> {
        let vs: Vec<Var> = self.visible().into_iter().filter(|v| v.w && !v.idx).collect();
        let mut c = vec![];
        for v in &vs { for t in [T::F, T::B, T::S, arr(T::F)] { let mut o = vec![]; self.paths(&v.name, &v.ty, vec![], &t, &mut o); for x in o { c.push((x, t.clone())) } } }
        if c.is_empty() { return None; }
        let ((n, ids), t) = c[self.s.us(c.len())].clone();
        let ids = self.indices(ids);
        self.fails = true;
        let o = match t { T::F => *self.s.pick(&[AOp::Set, AOp::Add, AOp::Mul, AOp::Decl]), T::S => *self.s.pick(&[AOp::Set, AOp::Add]), _ => AOp::Set };
        let o = if o == AOp::Decl && !matches!(ids.last(), Some((Id::F(_), _))) { AOp::Set } else { o };
        let e = self.val(&t, d);
        Some(assign(o, E::Var(n, ids, false), e))
    }
    fn body(&mut self, n: usize, d: usize) -> Vec<E> {
        let (v, c) = (self.vars.len(), self.cur.len());
        let mut b = vec![];
        for _ in 0..n { if self.fuel <= 0 { break; } let st = self.stmt(d); b.extend(st); }
        if b.is_empty() { let t = T::F; let e = self.ex(&t, 0); b.push(emit(e)); }
        self.vars.truncate(v);
        self.cur.truncate(c);
        b
    }
    pub fn stmt(&mut self, d: usize) -> Vec<E> {
        if !self.spend() { let e = self.ex(&T::F, 0); return vec![emit(e)]; }
        let p = self.p.clone();
        let nest = d > 0;
        let w = |x: u32| if nest { x } else { 0 };
        let lp = !self.loops.is_empty();
        let k = self.s.weighted(&[p.decl, p.assign, p.emit, w(p.ifs), w(p.forn), w(p.forc), w(p.lp), w(p.block), p.path, p.arrs, p.callm, if lp { p.jump } else { 0 }, p.ret, p.retvar, p.current, p.tries, p.boom, p.refs]);
        let d1 = d.saturating_sub(1);
        match k {
            0 => self.decl(2),
            1 => self.assign(2).into_iter().collect(),
            2 => { let t = self.ty(); let e = self.ex(&t, 2); vec![emit(e)] }
            3 => {
                let n = 1 + (self.s.below(3) == 0) as usize;
                let mut cs = vec![];
                for _ in 0..n { let c = self.ex(&T::B, 2); let m = 1 + self.s.us(2); let b = self.body(m, d1); cs.push((c, b)); }
                let el = if self.s.bool() { let m = 1 + self.s.us(2); Some(self.body(m, d1)) } else { None };
                vec![E::If(cs, el)]
            }
            4 => {
                let n = self.vars.len();
                let mut ixs = vec![];
                for _ in 0..1 + (self.s.below(5) == 0) as usize {
                    let i = self.index();
                    let start = if self.s.below(4) == 0 { Some(Box::new(num(self.s.range(0, 2) as f64))) } else { None };
                    let end = if self.s.below(5) == 0 { self.len_of() } else { num(self.s.range(0, 4) as f64) };
                    self.vars.push(Var { name: i.clone(), ty: T::F, w: false, param: false, idx: true, refs: false });
                    ixs.push(Ix { name: i, start, end: Some(Box::new(end)) });
                }
                let l = if ixs.len() == 1 { self.label() } else { None };
                self.loops.push(l.clone());
                let m = 1 + self.s.us(3);
                let b = self.body(m, d1);
                self.loops.pop();
                self.vars.truncate(n);
                vec![E::ForN(LK::For, l, ixs, b)]
            }
            5 => {
                let n = self.vars.len();
                let i = self.index();
                let (a, z) = (self.s.range(0, 2) as f64, self.s.range(0, 5) as f64);
                self.vars.push(Var { name: i.clone(), ty: T::F, w: false, param: false, idx: true, refs: false });
                let l = self.label();
                self.loops.push(l.clone());
                let m = 1 + self.s.us(3);
                let b = self.body(m, d1);
                self.loops.pop();
                self.vars.truncate(n);
                let (cond, step) = match self.s.below(3) { 0 => (bin(Op::Lt, var(&*i), num(z)), assign(AOp::Add, var(&*i), num(1.0))), 1 => (bin(Op::Le, var(&*i), num(z)), assign(AOp::Add, var(&*i), num(2.0))), _ => (bin(Op::Ne, var(&*i), num(a + 2.0)), assign(AOp::Set, var(&*i), bin(Op::Add, var(&*i), num(1.0)))) };
                vec![E::ForC(l, Box::new(decl(&i, num(a))), Box::new(cond), Box::new(step), b)]
            }
            6 => {
                let n = self.vars.len();
                let i = self.index();
                let lim = self.s.range(1, 4) as f64;
                self.vars.push(Var { name: i.clone(), ty: T::F, w: false, param: false, idx: true, refs: false });
                let l = self.label();
                self.loops.push(l.clone());
                let mut b = vec![assign(AOp::Add, var(&*i), num(1.0)), E::If(vec![(bin(Op::Gt, var(&*i), num(lim)), vec![E::Break(if self.s.bool() { l.clone() } else { None })])], None)];
                let m = 1 + self.s.us(3);
                b.extend(self.body(m, d1));
                self.loops.pop();
                self.vars.truncate(n);
                vec![E::Block(vec![decl(&i, num(0.0)), E::Loop(l, b)])]
            }
            7 => { let m = 1 + self.s.us(3); let b = self.body(m, d1); vec![block(b)] }
            8 => self.path_write(2).into_iter().collect(),
            9 => self.arr_stmt(),
            10 => {
                let c: Vec<Sig> = self.sigs.iter().filter(|s| s.ret.is_none() || s.params.iter().any(|p| p.1)).cloned().collect();
                if c.is_empty() { return vec![]; }
                let s = c[self.s.us(c.len())].clone();
                if !self.currents_ok(&s) { return vec![]; }
                let a = match self.args(&s.params, 1) { Some(a) => a, None => return vec![] };
                if s.fails { self.fails = true; }
                match &s.ret {
                    None => vec![call(&s.name, a)],
                    Some(t) => { let n = self.fresh(); self.vars.push(Var { name: n.clone(), ty: t.clone(), w: true, param: false, idx: false, refs: false }); vec![decl(&n, call(&s.name, a))] }
                }
            }
            11 => { let c = self.ex(&T::B, 2); let j = self.jump(); vec![E::If(vec![(c, vec![j])], None)] }
            12 => match self.ret.clone() {
                Some(t) => { let c = self.ex(&T::B, 2); let e = self.val(&t, 2); vec![E::If(vec![(c, vec![ret(e)])], None)] }
                None => { if self.in_closure { return vec![]; } let c = self.ex(&T::B, 2); vec![E::If(vec![(c, vec![E::Return(None)])], None)] }
            },
            13 => if self.ret_slot { let t = self.ret.clone().unwrap(); let e = self.val(&t, 2); vec![assign(AOp::Set, var("return"), e)] } else { vec![] },
            14 => self.current_stmt(),
            15 => {
                let t = match self.s.below(3) { 0 => T::B, _ => T::F };
                let e = self.try_e(&t, 2);
                let n = self.fresh();
                self.vars.push(Var { name: n.clone(), ty: T::Res(Box::new(t)), w: true, param: false, idx: false, refs: false });
                vec![decl(&n, e), emit(call("is_ok", vec![var(&*n)]))]
            }
            16 => { let c = self.ex(&T::B, 2); self.fails = true; let n = self.fresh(); vec![E::If(vec![(c, vec![decl(&n, call("boom", vec![E::Str("stop".into())])), emit(var(&*n))])], None)] }
            _ => self.ref_stmt(),
        }
    }
    fn current_stmt(&mut self) -> Vec<E> {
        let n = self.s.pick(&["cu", "cv"]).to_string();
        let t = match self.s.below(3) { 0 => arr(T::F), _ => T::F };
        // One type per name keeps every use well-typed.
        let t = if n == "cv" { arr(T::F) } else { let _ = t; T::F };
        let e = self.val(&t, 1);
        self.vars.push(Var { name: n.clone(), ty: t.clone(), w: true, param: false, idx: false, refs: false });
        self.cur.push((true, n.clone(), t));
        vec![E::Assign(AOp::Decl, Box::new(E::Var(n, vec![], true)), Box::new(e))]
    }
    fn arr_stmt(&mut self) -> Vec<E> {
        let vs: Vec<Var> = self.visible().into_iter().filter(|v| v.w && !v.idx && matches!(v.ty, T::A(_))).collect();
        if vs.is_empty() { return vec![]; }
        let v = vs[self.s.us(vs.len())].clone();
        let e = match &v.ty { T::A(e) => (**e).clone(), _ => unreachable!() };
        let m = E::Mut(v.name.clone());
        let guard = |b: Vec<E>| vec![E::If(vec![(bin(Op::Gt, call("len", vec![var(&*v.name)]), num(1.0)), b)], None)];
        match self.s.below(8) {
            0 | 1 => { let x = self.ex_not(&e, &v.name); vec![call("push", vec![m, x])] }
            2 => { let x = self.ex_not(&e, &v.name); self.fails = true; vec![call("insert", vec![m, num(self.s.range(0, 2) as f64), x])] }
            3 => { let n = self.fresh(); guard(vec![decl(&n, call("pop", vec![m])), emit(var(&*n))]) }
            4 => { let n = self.fresh(); let i = num(self.s.range(0, 1) as f64); guard(vec![decl(&n, call("remove", vec![m, i])), emit(var(&*n))]) }
            5 => vec![call("reverse", vec![m])],
            6 => guard(vec![call("swap", vec![m, num(0.0), num(1.0)])]),
            _ => if self.s.below(3) == 0 { vec![call("clear", vec![m])] } else { let x = self.ex_not(&e, &v.name); vec![call("push", vec![m, x])] },
        }
    }
    fn ex_not(&mut self, t: &T, n: &str) -> E {
        let hid = self.vars.clone();
        self.vars.retain(|v| v.name != n);
        let e = self.ex(t, 1);
        self.vars = hid;
        e
    }
    /// Statements that store references and write through or next to them.
    fn ref_stmt(&mut self) -> Vec<E> {
        // A local that is visible and not a parameter.
        let vs: Vec<Var> = self.visible().into_iter().filter(|v| !v.idx && !v.param && v.w && matches!(v.ty, T::F | T::S | T::B)).collect();
        let es: Vec<Var> = self.visible().into_iter().filter(|v| !v.idx && !v.param && v.w && v.ty == arr(T::F) && !v.refs).collect();
        match self.s.below(6) {
            0 | 1 => {
                let fs: Vec<&Var> = vs.iter().filter(|v| v.ty == T::F).collect();
                if fs.is_empty() { return vec![]; }
                let n = 1 + self.s.us(2);
                let mut items = vec![];
                for _ in 0..n { let x = fs[self.s.us(fs.len())].name.clone(); items.push(var(x)); if self.s.bool() { items.push(self.val(&T::F, 1)); } }
                let nm = self.fresh();
                self.vars.push(Var { name: nm.clone(), ty: arr(T::F), w: true, param: false, idx: false, refs: true });
                vec![decl(&nm, E::Arr(items))]
            }
            2 => {
                if vs.is_empty() { return vec![]; }
                let mut kv = vec![];
                for k in ["p", "q"] { let v = vs[self.s.us(vs.len())].clone(); kv.push((k.to_string(), v)); }
                let nm = self.fresh();
                self.vars.push(Var { name: nm.clone(), ty: T::O(kv.iter().map(|(k, v)| (k.clone(), v.ty.clone())).collect()), w: true, param: false, idx: false, refs: true });
                vec![decl(&nm, E::Obj(kv.into_iter().map(|(k, v)| (k, var(v.name))).collect()))]
            }
            3 => {
                // An array of references to arrays.
                if es.is_empty() { return vec![]; }
                let n = 1 + self.s.us(2);
                let items: Vec<E> = (0..n).map(|_| var(es[self.s.us(es.len())].name.clone())).collect();
                let nm = self.fresh();
                self.vars.push(Var { name: nm.clone(), ty: arr(arr(T::F)), w: true, param: false, idx: false, refs: true });
                vec![decl(&nm, E::Arr(items))]
            }
            _ => {
                // Store a reference to an older local in a newer array.
                let all = self.visible();
                let c: Vec<&Var> = all.iter().filter(|v| !v.idx && !v.param && v.w && (v.ty == arr(T::F) || v.ty == arr(arr(T::F)))).collect();
                if c.is_empty() { return vec![]; }
                let v = c[self.s.us(c.len())].clone();
                let pos = self.vars.iter().rposition(|x| x.name == v.name).unwrap();
                let e = match &v.ty { T::A(e) => (**e).clone(), _ => unreachable!() };
                let older: Vec<Var> = self.vars[..pos].iter().filter(|x| !x.param && !x.idx && x.ty == e && !x.refs && self.vars.iter().rev().find(|y| y.name == x.name).map(|y| std::ptr::eq(y, *x)).unwrap_or(false)).cloned().collect();
                if older.is_empty() { return vec![]; }
                let x = older[self.s.us(older.len())].clone();
                for y in self.vars.iter_mut().rev() { if y.name == v.name { y.refs = true; break; } }
                if self.s.below(3) == 0 { self.fails = true; vec![call("insert_ref", vec![E::Mut(v.name), num(0.0), var(x.name)])] } else { vec![call("push_ref", vec![E::Mut(v.name), var(x.name)])] }
            }
        }
    }

    pub fn fun(&mut self, name: &str, params: Vec<Param>, tys: Vec<T>, ret: Option<T>, currents: Vec<(bool, String, T)>, stmts: usize, fuel: i64) -> Fun {
        self.vars = vec![];
        self.cur = currents.clone();
        for (m, n, t) in &currents { self.vars.push(Var { name: n.clone(), ty: t.clone(), w: *m, param: true, idx: false, refs: false }); }
        for (p, t) in params.iter().zip(&tys) { self.vars.push(Var { name: p.name.clone(), ty: t.clone(), w: p.mutable, param: true, idx: false, refs: false }); }
        self.loops = vec![];
        self.ret = ret.clone();
        self.ret_slot = ret.is_some() && self.p.retvar > 0;
        self.quest_ok = matches!(ret, Some(T::Res(_)));
        self.fuel = fuel;
        self.fails = false;
        let mut b = vec![];
        let depth = self.p.depth;
        for _ in 0..stmts { if self.fuel <= 0 { break; } let st = self.stmt(depth); b.extend(st); }
        for v in self.visible() { if !matches!(v.ty, T::C(..)) && self.s.below(4) > 0 { b.push(emit(var(v.name))); } }
        let mut rt = None;
        if let Some(t) = &ret {
            rt = Some(if self.s.below(5) == 0 { String::new() } else { t.text() });
            self.fuel = self.fuel.max(8);
            let how = self.s.below(8);
            if how == 0 && self.p.retvar > 0 { let e = self.val(t, 2); b.push(assign(AOp::Set, var("return"), e)); }
            else { let plain = how < 4 && b.iter().any(has_return); let e = self.val(t, 2); b.push(if plain { e } else { ret_e(e) }); }
        }
        Fun { name: name.into(), params, currents: currents.iter().map(|(m, n, _)| (*m, n.clone())).collect(), ret: rt, body: b, short: false, extra: vec![] }
    }
    /// A whole program; the last function is the entry.
    pub fn program(&mut self) -> (Prog, Vec<T>) {
        let n = self.s.us(self.p.funs + 1);
        let mut funs = vec![];
        for i in 0..n {
            let name = format!("f{}", i);
            let np = self.s.us(4);
            let mut params = vec![];
            let mut tys = vec![];
            for j in 0..np {
                let t = self.ty();
                let m = self.p.callm > 0 && self.s.below(3) == 0;
                let tt = if self.s.below(6) == 0 { String::new() } else { t.text() };
                let mut p = Param { name: NAMES[j].to_string(), ty: tt, mutable: m, ..Default::default() };
                if self.p.lazy > 0 && !m && self.s.below(10) < self.p.lazy as u64 { p.lazy = self.lazies(&t); }
                params.push(p);
                tys.push(t);
            }
            let ret = if self.s.below(4) == 0 { None } else { Some(self.ty()) };
            let lz = params.iter().any(|p| !p.lazy.is_empty());
            // A lazy value is what the call gives, so the declared type has to allow it.
            let ret = if lz { match params.iter().zip(&tys).find(|(p, _)| !p.lazy.is_empty()) { Some((p, t)) => Some(match (p.lazy[0].clone(), t) { (Lazy::Lit(_), t) => t.clone(), (_, T::Opt(t)) | (_, T::Res(t)) => (**t).clone(), (_, t) => t.clone() }), None => ret } } else { ret };
            if lz { for (p, t) in params.iter_mut().zip(&tys) { let ok = match (p.lazy.get(0), t) { (None, _) => true, (Some(Lazy::Lit(_)), t) => Some(t) == ret.as_ref(), (_, T::Opt(t)) | (_, T::Res(t)) => Some(&**t) == ret.as_ref(), _ => false }; if !ok { p.lazy.clear(); } } }
            let mut currents = vec![];
            if self.p.current > 0 && self.s.bool() { for (c, t) in [("cu", T::F), ("cv", arr(T::F))] { if self.s.bool() { currents.push((self.s.bool(), c.to_string(), t)); } } }
            let lz = params.iter().any(|p| !p.lazy.is_empty());
            let st = 1 + self.s.us(self.p.stmts);
            let f = self.fun(&name, params.clone(), tys.clone(), ret.clone(), currents.clone(), st, 40);
            self.sigs.push(Sig { name, params: params.iter().zip(&tys).map(|(p, t)| (t.clone(), p.mutable)).collect(), ret, currents, fails: self.fails, lazy: lz });
            funs.push(f);
        }
        let np = self.s.us(4);
        let tys: Vec<T> = (0..np).map(|_| self.ty()).collect();
        let params: Vec<Param> = tys.iter().enumerate().map(|(j, t)| Param { name: NAMES[7 - j].to_string(), ty: t.text(), ..Default::default() }).collect();
        let ret = Some(self.ty());
        let st = 3 + self.s.us(self.p.stmts * 2);
        let f = self.fun("start", params, tys.clone(), ret, vec![], st, 90);
        funs.push(f);
        (Prog { funs }, tys)
    }
    pub fn lazies(&mut self, t: &T) -> Vec<Lazy> {
        match t {
            T::F => (0..1 + self.s.us(2)).map(|_| Lazy::Lit(LazyLit::Num(self.s.range(0, 4) as f64))).collect(),
            T::B => vec![Lazy::Lit(LazyLit::Bool(self.s.bool()))],
            T::S => (0..1 + self.s.us(2)).map(|_| Lazy::Lit(LazyLit::Str(self.s.pick(&["", "a", "hi"]).to_string()))).collect(),
            T::Opt(_) => vec![Lazy::Some],
            T::Res(_) => vec![Lazy::Ok],
            _ => vec![],
        }
    }
}
fn ret_e(e: E) -> E { ret(e) }

pub fn arg_value(s: &mut Src, t: &T) -> V {
    match t {
        T::F => V::Num(crate::gen::small_num(s)),
        T::B => V::Bool(s.bool()),
        T::S => V::Str(s.pick(&["", "a", "b", "hi", "é中"]).to_string()),
        T::V => V::Vec4([s.range(-2, 5) as f32, s.range(0, 5) as f32, s.range(0, 5) as f32, s.range(0, 2) as f32]),
        T::M => { let mut m = [[0f32; 4]; 4]; for r in m.iter_mut() { for x in r.iter_mut() { *x = s.range(0, 3) as f32 } } V::Mat4(m) }
        T::A(t) => { let n = s.us(4); V::Arr((0..n).map(|_| arg_value(s, t)).collect()) }
        T::O(kv) => V::Obj(kv.iter().map(|(k, t)| (k.clone(), arg_value(s, t))).collect::<BTreeMap<_, _>>()),
        T::Opt(t) => if s.below(3) > 0 { V::Some(Box::new(arg_value(s, t))) } else { V::None },
        T::Res(t) => if s.below(3) > 0 { V::Ok(Box::new(arg_value(s, t))) } else { V::Err(Box::new(V::Str("bad".into()))) },
        T::L => { let n = s.us(4); V::Link((0..n).map(|_| match s.below(3) { 0 => V::Num(s.range(0, 5) as f64), 1 => V::Bool(s.bool()), _ => V::Str("q".into()) }).collect()) }
        T::C(..) => V::Void,
    }
}

/// Whether a statement holds a `return` with a value, which is what makes a function return one.
fn has_return(e: &E) -> bool {
    match e {
        E::Return(Some(_)) => true,
        E::Assign(_, l, _) => matches!(&**l, E::Var(n, ..) if n == "return"),
        E::If(cs, el) => cs.iter().any(|c| c.1.iter().any(has_return)) || el.iter().flatten().any(has_return),
        E::Block(b) | E::Loop(_, b) | E::ForC(_, _, _, _, b) | E::ForN(_, _, _, b) => b.iter().any(has_return),
        _ => false,
    }
}

/// A block expression. One that holds just a labelled loop would read as an object.
fn block(mut b: Vec<E>) -> E {
    if b.len() == 1 && matches!(&b[0], E::Loop(Some(_), _) | E::ForC(Some(_), ..) | E::ForN(_, Some(_), ..)) { b.insert(0, emit(num(7.0))); }
    E::Block(b)
}
