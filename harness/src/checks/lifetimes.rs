//! C09 and C10: lifetimes of references and mutability. The generator knows which variables a value may refer to
//! and which place outlives which, and plants at most one fault. An accepted program is run and compared with the
//! reference interpreter, whose references never dangle.
use super::*;
use crate::dy::{self, Res, V};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sh { L, A, B, O }
use Sh::*;

/// A place that holds values, or (`Ret`) the result of the function.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Pl { Loc(usize), Arg(usize), Cur(usize), Ret }
use Pl::*;

#[derive(Clone, Debug)]
struct Ent { name: String, sh: Sh, pl: Pl, mutable: bool, index: bool }
#[derive(Clone, Debug)]
struct Par { name: String, sh: Sh, lt: Option<usize>, ret: bool, mutable: bool }
#[derive(Clone, Debug)]
struct Sig { name: String, named: bool, params: Vec<Par>, ret: Option<Sh>, cur: Option<bool> }

struct P<'a> {
    s: &'a mut Src, want: bool, mutf: bool, fault: Option<String>,
    out: String, ind: usize, n: usize, pos: usize, fuel: i64,
    scope: Vec<Ent>, sig: Sig, sigs: Vec<Sig>,
    /// Arguments and currents the value of the current operation refers to.
    used: Vec<Pl>, labels: Vec<&'static str>, loops: usize,
}

impl<'a> P<'a> {
    fn l(&mut self, t: &str) { for _ in 0..self.ind { self.out.push_str("  ") } self.out.push_str(t); self.out.push('\n'); }
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
    fn lit(&mut self) -> String { self.n += 1; format!("{}", 100 + self.n) }
    fn shape(&mut self) -> Sh { *self.s.pick(&[L, L, A, A, A, B, O]) }
    /// The arguments the argument outlives, and whether it outlives the return value.
    fn chain(&self, a: usize) -> (Vec<usize>, bool) {
        let mut v = vec![];
        let mut a = a;
        loop {
            let p = &self.sig.params[a];
            if p.ret { return (v, true); }
            match p.lt { Some(b) => { v.push(b); a = b; } None => return (v, false) }
        }
    }
    fn outlives(&self, o: Pl, t: Pl) -> bool {
        match (o, t) {
            (Loc(q), Loc(p)) => q < p,
            (Loc(_), _) => false,
            (Arg(_), Loc(_)) | (Cur(_), Loc(_)) => true,
            (Arg(a), Arg(b)) => self.chain(a).0.contains(&b),
            (Arg(a), Ret) => self.chain(a).1,
            _ => false,
        }
    }
    fn ok(&self, o: Pl, ts: &[Pl]) -> bool { ts.iter().all(|&t| self.outlives(o, t)) }
    /// Whether the checker can name one lifetime for values that refer to both.
    fn unify(&self, o: Pl, u: Pl) -> bool {
        match (o, u) {
            (Loc(_), _) | (_, Loc(_)) => true,
            (a, b) if a == b => true,
            (Arg(a), Arg(b)) => {
                let (x, y) = (self.chain(a), self.chain(b));
                x.1 == y.1 && (x.0.contains(&b) || y.0.contains(&a) || x.0.iter().any(|i| y.0.contains(i)))
            }
            _ => false,
        }
    }
    fn visible(&self, i: usize) -> bool { !self.scope[i + 1..].iter().any(|e| e.name == self.scope[i].name) }
    fn plant(&mut self, of: u64) -> bool { self.want && !self.mutf && self.fault.is_none() && self.s.below(of) == 0 }
    fn plant_mut(&mut self, of: u64) -> bool { self.want && self.mutf && self.fault.is_none() && self.s.below(of) == 0 }
    fn local_targets(ts: &[Pl]) -> bool { ts.iter().all(|t| matches!(t, Loc(_))) }
    /// A variable of the shape named directly, which outlives the targets.
    fn name(&mut self, sh: Sh, ts: &[Pl], what: &str) -> Option<String> {
        let all: Vec<Ent> = (0..self.scope.len()).filter(|&i| self.visible(i) && self.scope[i].sh == sh).map(|i| self.scope[i].clone()).collect();
        if self.plant(4) {
            let bad: Vec<&Ent> = all.iter().filter(|e| !self.ok(e.pl, ts)).collect();
            if !bad.is_empty() {
                let e = (*self.s.pick(&bad)).clone();
                self.fault = Some(format!("`{}` in {}, which it does not outlive", e.name, what));
                return Some(e.name);
            }
        }
        let fit = |e: &&Ent| self.ok(e.pl, ts) && (P::local_targets(ts) || self.used.iter().all(|&u| self.unify(e.pl, u)));
        let good: Vec<Ent> = all.iter().filter(fit).cloned().collect();
        if good.is_empty() { return None; }
        let e = self.s.pick(&good).clone();
        self.used.push(e.pl);
        match e.pl { Arg(_) => self.labels.push("argument stored"), Cur(_) => self.labels.push("current stored"), _ => {} }
        Some(e.name)
    }
    /// An element of a variable; its lifetime is that of the variable.
    fn item(&mut self, sh: Sh, ts: &[Pl], what: &str) -> Option<String> {
        let (from, path): (Sh, String) = match sh {
            L => *self.s.pick(&[(A, "[0]"), (A, "[1]"), (O, ".q")]),
            A => *self.s.pick(&[(B, "[0]"), (B, "[1]"), (O, ".p")]),
            _ => return None,
        }.clone().into_owned_pair();
        self.name(from, ts, what).map(|n| n + &path)
    }
    /// An expression of the shape; what it refers to must outlive the targets.
    fn expr(&mut self, sh: Sh, d: usize, ts: &[Pl], what: &str) -> String {
        self.fuel -= 1;
        if d == 0 || self.fuel <= 0 {
            if self.s.below(3) > 0 { if let Some(n) = self.name(sh, ts, what) { return n; } }
            return self.leaf(sh, ts, what);
        }
        match self.s.weighted(&[8, 6, 2, 2, 2, 2, 3, 1, 1, 1]) {
            0 => match self.name(sh, ts, what) { Some(n) => n, None => self.leaf(sh, ts, what) },
            1 => self.agg(sh, d, ts, what),
            2 => match self.item(sh, ts, what) { Some(n) => n, None => self.agg(sh, d, ts, what) },
            3 => { // A copy refers to nothing.
                let e = self.expr(sh, d - 1, &[], "a copy");
                match self.s.below(4) { 0 => format!("unwrap(some({}))", e), 1 if sh == L => format!("({}) + 0", e), 2 => format!("unwrap(ok({}))", e), _ => format!("clone({})", e) }
            }
            4 => {
                let c = self.cond();
                let a = self.branch(sh, d, ts, what);
                let b = self.branch(sh, d, ts, what);
                self.labels.push("if expression");
                if self.s.below(3) == 0 {
                    let c2 = self.cond();
                    let e = self.branch(sh, d, ts, what);
                    return format!("(if {} {} else if {} {} else {})", c, a, c2, b, e);
                }
                format!("(if {} {} else {})", c, a, b)
            }
            5 => { // A block with its own variables.
                self.labels.push("block expression");
                let t = self.block(sh, d, ts);
                format!("({})", t)
            }
            6 => match self.callx(Some(sh), d - 1, ts, what) { Some(c) => c, None => self.agg(sh, d, ts, what) },
            7 if sh == A => { // A sift loop over its index.
                self.pos += 1;
                let i = self.fresh("i");
                let mut t2 = ts.to_vec();
                t2.push(Loc(self.pos));
                self.scope.push(Ent { name: i.clone(), sh: L, pl: Loc(self.pos), mutable: false, index: true });
                // The index lives in the loop, whose body starts after it.
                self.pos += 1;
                let e = self.expr(L, d - 1, &t2, what);
                self.scope.pop();
                self.labels.push("sift");
                format!("sift {} 2 {{ {} }}", i, e)
            }
            8 if sh == A => { let e = self.expr(L, d - 1, ts, what); format!("[{}; 2]", e) }
            9 => { let e = self.expr(sh, d - 1, ts, what); format!("({})", e) }
            _ => self.agg(sh, d, ts, what),
        }
    }
    /// A block with its own variables that ends in a value.
    fn block(&mut self, sh: Sh, d: usize, ts: &[Pl]) -> String {
        self.pos += 1;
        let mut t2 = ts.to_vec();
        t2.push(Loc(self.pos));
        let keep = self.scope.len();
        let used = std::mem::take(&mut self.used);
        let n = 1 + self.s.us(2);
        let pad = "  ".repeat(self.ind + 1);
        let mut t = String::from("{");
        for _ in 0..n { let dl = self.decl_text(d - 1); t += &format!("\n{}{}", pad, dl); }
        self.used = used;
        let e = self.expr(sh, d - 1, &t2, "the value of a block");
        self.scope.truncate(keep);
        format!("{}\n{}{}\n{}}}", t, pad, e, "  ".repeat(self.ind))
    }
    fn branch(&mut self, sh: Sh, d: usize, ts: &[Pl], what: &str) -> String {
        if self.s.below(3) == 0 { return self.block(sh, d, ts); }
        self.pos += 1;
        let mut t2 = ts.to_vec();
        t2.push(Loc(self.pos));
        format!("{{ {} }}", self.expr(sh, d - 1, &t2, what))
    }
    fn cond(&mut self) -> String { self.s.pick(&["true", "false", "1 < 2", "2 < 1"]).to_string() }
    fn agg(&mut self, sh: Sh, d: usize, ts: &[Pl], what: &str) -> String {
        let d = d.saturating_sub(1);
        match sh {
            L => { if d > 0 && self.s.below(2) == 0 { let e = self.expr(L, d - 1, &[], "an operand"); return format!("({}) + {}", e, self.lit()); } self.lit() }
            A => { let (a, b) = (self.expr(L, d, ts, what), self.expr(L, d, ts, what)); format!("[{}, {}]", a, b) }
            B => { let (a, b) = (self.expr(A, d, ts, what), self.expr(A, d, ts, what)); format!("[{}, {}]", a, b) }
            O => { let (a, b) = (self.expr(A, d, ts, what), self.expr(L, d, ts, what)); format!("{{p: {}, q: {}}}", a, b) }
        }
    }
    fn leaf(&mut self, sh: Sh, ts: &[Pl], what: &str) -> String {
        match sh {
            L => self.lit(),
            A => { let a = if self.s.bool() { self.name(L, ts, what) } else { None }; let a = match a { Some(a) => a, None => self.lit() }; format!("[{}, {}]", a, self.lit()) }
            B => { let (a, b) = (self.leaf(A, ts, what), self.leaf(A, ts, what)); format!("[{}, {}]", a, b) }
            O => { let a = self.leaf(A, ts, what); format!("{{p: {}, q: {}}}", a, self.lit()) }
        }
    }
    fn op(&mut self, sh: Sh, d: usize, ts: &[Pl], what: &str) -> String { self.used.clear(); self.expr(sh, d, ts, what) }
    fn decl_text(&mut self, d: usize) -> String {
        self.pos += 1;
        let p = self.pos;
        let sh = self.shape();
        let cands: Vec<String> = self.scope.iter().filter(|e| matches!(e.pl, Loc(_)) && !e.index).map(|e| e.name.clone()).collect();
        let name = if !cands.is_empty() && self.s.below(8) == 0 { self.labels.push("shadowed name"); self.s.pick(&cands).clone() } else { self.fresh("v") };
        let e = self.op(sh, d, &[Loc(p)], "a new variable");
        self.scope.push(Ent { name: name.clone(), sh, pl: Loc(p), mutable: true, index: false });
        format!("{} := {}", name, e)
    }
    fn is_ret(sg: &Sig, mut a: usize) -> bool { loop { if sg.params[a].ret { return true; } match sg.params[a].lt { Some(b) => a = b, None => return false } } }
    /// A call; its value refers to the arguments that outlive the return value.
    fn callx(&mut self, ret: Option<Sh>, d: usize, ts: &[Pl], what: &str) -> Option<String> {
        let c: Vec<Sig> = self.sigs.iter().filter(|g| g.ret == ret && g.cur.is_none()).cloned().collect();
        if c.is_empty() { return None; }
        let g = self.s.pick(&c).clone();
        self.call(&g, d, ts, what)
    }
    fn call(&mut self, g: &Sig, d: usize, ts: &[Pl], what: &str) -> Option<String> {
        self.pos += 1;
        let keep = self.used.clone();
        let cpos = self.pos;
        let np = g.params.len();
        let mut args: Vec<Option<(String, Pl)>> = vec![None; np];
        // Arguments that lifetimes mention are chosen first, those outlived before those that outlive them.
        let mut order: Vec<usize> = vec![];
        while order.len() < np { for i in 0..np { if !order.contains(&i) && g.params[i].lt.map_or(true, |b| order.contains(&b)) { order.push(i); } } }
        let mut texts = vec![String::new(); np];
        let mut muts: Vec<String> = vec![];
        let fault0 = self.fault.clone();
        for &i in &order {
            let p = &g.params[i];
            let flows = P::is_ret(g, i) && g.ret.is_some();
            let bound = p.lt.is_some() || p.ret;
            let pointed = g.params.iter().any(|q| q.lt == Some(i));
            if !bound && !pointed && !p.mutable {
                let u = std::mem::take(&mut self.used);
                texts[i] = if self.s.below(3) == 0 { match self.name(p.sh, &[Loc(cpos)], "an argument") { Some(n) => n, None => self.expr(p.sh, d, &[Loc(cpos)], "an argument") } } else { self.expr(p.sh, d, &[Loc(cpos)], "an argument") };
                self.used = u;
                continue;
            }
            if bound && !p.mutable && self.plant(6) {
                let e = match self.s.below(4) { 0 => self.leaf(p.sh, &[], "a copy"), 1 => { let e = self.name(p.sh, &[], "a copy").unwrap_or_else(|| "0".into()); format!("clone({})", e) },
                    2 if p.sh == L || p.sh == A => match self.item(p.sh, &[], "a copy") { Some(e) => e, None => self.leaf(p.sh, &[], "a copy") }, _ => self.leaf(p.sh, &[], "a copy") };
                self.fault = Some(format!("`{}` given for an argument with a lifetime, which needs a variable", e));
                texts[i] = e;
                args[i] = Some((String::new(), Loc(0)));
                continue;
            }
            // A variable; it must outlive what the lifetime names, and the place the result goes to.
            let mut need: Vec<Pl> = vec![];
            if flows { need.extend_from_slice(ts); }
            if let Some(b) = p.lt { if let Some((n, pl)) = &args[b] { if !n.is_empty() { need.push(*pl); } } }
            let cand: Vec<Ent> = (0..self.scope.len()).filter(|&k| self.visible(k) && self.scope[k].sh == p.sh && (!p.mutable || self.scope[k].mutable && !self.scope[k].index)
                && !muts.contains(&self.scope[k].name) && !(p.mutable && texts.iter().any(|t| mentions(t, &self.scope[k].name)))).map(|k| self.scope[k].clone()).collect();
            let bad: Vec<Ent> = cand.iter().filter(|e| !self.ok(e.pl, &need)).cloned().collect();
            if !bad.is_empty() && self.plant(3) {
                let e = self.s.pick(&bad).clone();
                self.fault = Some(format!("`{}` given for `{}`, which it does not outlive enough", e.name, p.name));
                texts[i] = if p.mutable { format!("mut {}", e.name) } else { e.name.clone() };
                args[i] = Some((e.name.clone(), e.pl));
                if p.mutable { muts.push(e.name); }
                continue;
            }
            let used = self.used.clone();
            let good: Vec<Ent> = cand.into_iter().filter(|e| self.ok(e.pl, &need) && (!flows || P::local_targets(ts) || used.iter().all(|&u| self.unify(e.pl, u)))).collect();
            if good.is_empty() { self.fault = fault0; self.used = keep; return None; }
            let e = self.s.pick(&good).clone();
            if flows { self.used.push(e.pl); }
            if p.lt.is_some() { self.labels.push("argument outlives argument"); }
            if flows { self.labels.push("argument outlives return"); }
            texts[i] = if p.mutable { format!("mut {}", e.name) } else { e.name.clone() };
            args[i] = Some((e.name.clone(), e.pl));
            if p.mutable { muts.push(e.name); }
        }
        // A variable passed as `mut` may not appear elsewhere in the call.
        for m in &muts { for (i, t) in texts.iter().enumerate() { if !t.starts_with("mut ") && mentions(t, m) { let _ = i; self.fault = fault0; self.used = keep; return None; } } }
        // Faults of mutability.
        if !texts.is_empty() && self.plant_mut(3) {
            let i = self.s.us(np);
            let p = &g.params[i];
            if p.mutable { texts[i] = texts[i][4..].to_string(); self.fault = Some(format!("`{}` of {} given without `mut`", p.name, g.name)); }
            else {
                let c: Vec<String> = (0..self.scope.len()).filter(|&k| self.visible(k) && self.scope[k].sh == p.sh && self.scope[k].mutable).map(|k| self.scope[k].name.clone()).collect();
                if !c.is_empty() { texts[i] = format!("mut {}", self.s.pick(&c)); self.fault = Some(format!("`{}` of {} given with `mut`", p.name, g.name)); }
            }
        } else if self.plant_mut(2) {
            let is: Vec<usize> = (0..np).filter(|&i| g.params[i].mutable).collect();
            if !is.is_empty() {
                let i = *self.s.pick(&is);
                let c: Vec<String> = (0..self.scope.len()).filter(|&k| self.visible(k) && self.scope[k].sh == g.params[i].sh && !self.scope[k].mutable && !self.scope[k].index && !texts.iter().any(|t| mentions(t, &self.scope[k].name))).map(|k| self.scope[k].name.clone()).collect();
                if !c.is_empty() { let n = self.s.pick(&c).clone(); texts[i] = format!("mut {}", n); self.fault = Some(format!("`{}` is not mutable but passed as `mut`", n)); }
            }
        }
        if !muts.is_empty() { self.labels.push("mut argument"); }
        let _ = what;
        if !g.named && self.fault == fault0 && !g.params.iter().any(|p| p.mutable) {
            // A swizzle gives several numbers at once.
            let free = |i: usize| g.params[i].sh == L && g.params[i].lt.is_none() && !g.params[i].ret && !g.params.iter().any(|q| q.lt == Some(i));
            let runs: Vec<(usize, usize)> = (0..np).map(|i| (i, (i..np).take_while(|&k| free(k)).count().min(4))).filter(|r| r.1 > 1).collect();
            if !runs.is_empty() && self.s.bool() {
                let (i, n) = *self.s.pick(&runs);
                let sw: String = (0..n).map(|_| *self.s.pick(&['x', 'y', 'z', 'w'])).collect();
                let (x, y) = (self.lit(), self.lit());
                texts.splice(i..i + n, [format!("{} ({}, {}, 7, 9)", sw, x, y)]);
                self.labels.push("swizzle");
            }
        }
        Some(if g.named { format!("{}({})", g.name.split("__").next().unwrap(), g.params.iter().zip(&texts).map(|(p, t)| format!("{}: {}", p.name, t)).collect::<Vec<_>>().join(", ")) }
             else { format!("{}({})", g.name, texts.join(", ")) })
    }
    /// A variable that can be changed.
    fn target(&mut self, f: impl Fn(&Ent) -> bool) -> Option<Ent> {
        let c: Vec<Ent> = (0..self.scope.len()).filter(|&i| self.visible(i) && !self.scope[i].index && f(&self.scope[i])).map(|i| self.scope[i].clone()).collect();
        if self.plant_mut(2) {
            let bad: Vec<Ent> = c.iter().filter(|e| !e.mutable).cloned().collect();
            if !bad.is_empty() { let e = self.s.pick(&bad).clone(); self.fault = Some(format!("`{}` is changed but not mutable", e.name)); return Some(e); }
        }
        let good: Vec<Ent> = c.into_iter().filter(|e| e.mutable).collect();
        if good.is_empty() { return None; }
        // Arguments and outer variables are the interesting ones.
        let i = if self.s.bool() { self.s.us(good.len()) } else { self.s.us((good.len() + 1) / 2) };
        Some(good[i].clone())
    }
    fn stmt(&mut self, depth: usize) {
        self.fuel -= 1;
        let w: &[u32] = if self.mutf { &[6, 6, 3, 1, 2, 6, 6, 2, 4] } else { &[7, 7, 4, 3, 4, 6, 1, 3, 0] };
        match self.s.weighted(w) {
            0 => { let t = self.decl_text(2); self.l(&t); }
            1 => { // Replace an element or the whole.
                if let Some(e) = self.target(|_| true) {
                    let (path, sh) = match (e.sh, self.s.below(5)) {
                        (_, 0) | (L, _) => ("", e.sh),
                        (A, k) => (if k < 3 { "[0]" } else { "[1]" }, L),
                        (B, k) => (if k < 3 { "[0]" } else { "[1]" }, A),
                        (O, k) => if k < 3 { (".p", A) } else { (".q", L) },
                    };
                    let op = if path.is_empty() || self.s.bool() { "=" } else { ":=" };
                    let what = format!("`{}`", e.name);
                    let v = self.op(sh, 2, &[e.pl], &what);
                    self.labels.push(match e.pl { Arg(_) => "stored into argument", Cur(_) => "stored into current", _ => "stored into local" });
                    self.l(&format!("{}{} {} {}", e.name, path, op, v));
                }
            }
            2 => { // Library functions with a reference.
                let before = self.fault.clone();
                if let Some(e) = self.target(|e| e.sh == A || e.sh == B) {
                    let sh = if e.sh == A { L } else { A };
                    let what = format!("`{}`", e.name);
                    self.used.clear();
                    match self.s.below(4) {
                        0 => { let v = self.op(sh, 1, &[], "a copy"); if !mentions(&v, &e.name) { self.l(&format!("push(mut {}, {})", e.name, v)); } else { self.fault = before; } }
                        1 => { if let Some(v) = self.name(sh, &[e.pl], &what) { self.labels.push("insert_ref"); self.l(&format!("insert_ref(mut {}, 0, {})", e.name, v)); } else { self.fault = before; } }
                        _ => { if let Some(v) = self.name(sh, &[e.pl], &what) { self.labels.push("push_ref"); self.l(&format!("push_ref(mut {}, {})", e.name, v)); } else { self.fault = before; } }
                    }
                }
            }
            3 if depth > 0 => { let c = self.s.pick(&["true", "1 < 2", "true", "2 < 1"]).to_string(); self.nest(&format!("if {} {{", c), depth); }
            4 if depth > 0 => {
                match self.s.below(3) {
                    0 if self.loops < 2 => {
                        let i = self.fresh("i");
                        self.pos += 1;
                        self.scope.push(Ent { name: i.clone(), sh: L, pl: Loc(self.pos), mutable: false, index: true });
                        self.loops += 1;
                        self.nest(&format!("for {} 2 {{", i), depth);
                        self.loops -= 1;
                    }
                    1 => self.nest("{", depth),
                    _ => self.nest("if true {", depth),
                }
            }
            5 => { self.used.clear(); let c: Vec<Sig> = self.sigs.iter().filter(|g| g.ret.is_none() && (g.cur.is_none() || self.scope.iter().any(|e| e.name == "cu"))).cloned().collect(); if !c.is_empty() { let g = self.s.pick(&c).clone(); if let Some(t) = self.call(&g, 1, &[], "a call") { self.l(&t); } } }
            6 => { // Changes that store no reference.
                if let Some(e) = self.target(|_| true) {
                    let k = self.lit();
                    let t = match (e.sh, self.s.below(6)) {
                        (L, 0) => format!("{} -= {}", e.name, k), (L, 1) => format!("{} *= 2", e.name), (L, 2) => format!("{} %= 7", e.name), (L, 3) => format!("{} /= 2", e.name), (L, _) => format!("{} += {}", e.name, k),
                        (A, 0) => format!("{}[0] += {}", e.name, k), (A, 1) => format!("reverse(mut {})", e.name), (A, 2) => format!("swap(mut {}, 0, 1)", e.name), (A, 3) => format!("push(mut {}, {})", e.name, k), (A, 4) => format!("insert(mut {}, 1, {})", e.name, k), (A, _) => format!("{}[1] = {}", e.name, k),
                        (B, 0) => format!("{}[0][0] += {}", e.name, k), (B, 2) => format!("reverse(mut {})", e.name), (B, 3) => format!("{}[1][0] := {}", e.name, k), (B, _) => format!("{}[0][1] = {}", e.name, k),
                        (O, 0) => format!("{}.q += {}", e.name, k), (O, 1) => format!("{}.p[0] = {}", e.name, k), (O, 2) => format!("{}.r{} := {}", e.name, k, k), (O, _) => format!("{}.q = {}", e.name, k),
                    };
                    self.l(&t);
                }
            }
            8 => { // A void function with `mut` arguments.
                self.used.clear();
                let c: Vec<Sig> = self.sigs.iter().filter(|g| g.cur.is_none() && g.ret.is_none() && g.params.iter().any(|p| p.mutable)).cloned().collect();
                if !c.is_empty() { let g = self.s.pick(&c).clone(); if let Some(t) = self.call(&g, 1, &[], "a call") { self.l(&t); } }
            }
            _ => { let v: Vec<String> = (0..self.scope.len()).filter(|&i| self.visible(i)).map(|i| self.scope[i].name.clone()).collect(); if !v.is_empty() { let n = self.s.pick(&v).clone(); self.l(&format!("emit({})", n)); } }
        }
    }
    /// Reads every variable again, after the stack has been used for something else.
    fn show(&mut self) {
        let z = self.fresh("z"); let k = self.lit();
        self.l(&format!("{} := -{}", z, k));
        let z2 = self.fresh("z"); let k = self.lit();
        self.l(&format!("{} := \"dead{}\"", z2, k));
        for i in 0..self.scope.len() { if self.visible(i) { let n = self.scope[i].name.clone(); self.l(&format!("emit({})", n)); } }
    }
    /// Calls the function, sometimes from a block with variables of its own.
    fn use_fun(&mut self, g: &Sig) {
        self.fuel = 20;
        let inner = self.s.bool();
        let keep = self.scope.len();
        if inner { self.l("if true {"); self.ind += 1; self.pos += 1; for _ in 0..1 + self.s.us(3) { let t = self.decl_text(1); self.l(&t); } }
        self.used.clear();
        if g.ret.is_some() && g.cur.is_none() && g.params.iter().any(|p| p.ret || p.lt.is_some()) && !g.params.iter().any(|p| p.mutable) && self.plant(3) {
            // A thread outlives the variables given to it.
            let f = self.fault.clone();
            if let Some(t) = self.call(g, 1, &[], "a call") { let z = self.fresh("z"); self.l(&format!("{} := go {}", z, t)); if self.fault == f { self.fault = Some("`go` with an argument that has a lifetime".into()); } }
            self.used.clear();
        }
        match g.ret {
            None => if let Some(t) = self.call(g, 1, &[], "a call") { self.l(&t); },
            Some(sh) => {
                // The result goes to a new variable or into one that is there.
                let t = if self.s.bool() { self.target(|e| e.sh == sh && e.name != "cu") } else { None };
                match t {
                    Some(e) => { let (f, name) = (self.fault.clone(), e.name.clone()); match self.call(g, 1, &[e.pl], "a variable") { Some(t) => self.l(&format!("{} = {}", name, t)), None => self.fault = f.filter(|f| !f.contains(&format!("`{}` is changed", name))) } }
                    None => { self.pos += 1; let p = self.pos; if let Some(t) = self.call(g, 1, &[Loc(p)], "a variable") { let n = self.fresh("v"); self.l(&format!("{} := {}", n, t)); self.scope.push(Ent { name: n, sh, pl: Loc(p), mutable: true, index: false }); } }
                }
            }
        }
        if inner { let k = self.lit(); self.l(&format!("emit({})", k)); self.ind -= 1; self.l("}"); self.scope.truncate(keep); }
        if self.s.bool() { self.show(); }
    }
    fn nest(&mut self, head: &str, depth: usize) {
        self.l(head);
        self.ind += 1;
        self.pos += 1;
        let keep = self.scope.len();
        let n = 1 + self.s.us(3);
        for _ in 0..n { self.stmt(depth - 1); }
        let k = self.lit();
        self.l(&format!("emit({})", k));
        self.scope.truncate(keep);
        if head.starts_with("for ") { self.scope.pop(); }
        self.ind -= 1;
        self.l("}");
        if self.s.bool() { self.show(); }
    }
    fn params(&mut self, np: usize, has_ret: bool) -> Vec<Par> {
        let mut ps: Vec<Par> = (0..np).map(|i| Par { name: ["a", "b", "c", "d"][i].into(), sh: A, lt: None, ret: false, mutable: false }).collect();
        // A forest over a random order keeps the lifetimes free of cycles.
        let mut perm: Vec<usize> = (0..np).collect();
        for i in (1..np).rev() { let j = self.s.us(i + 1); perm.swap(i, j); }
        for (k, &i) in perm.iter().enumerate() {
            ps[i].sh = self.shape();
            ps[i].mutable = self.s.below(5) < if self.mutf { 2 } else { 2 };
            match self.s.below(6) {
                0 | 1 if has_ret => ps[i].ret = true,
                2 | 3 | 4 if k > 0 => ps[i].lt = Some(perm[self.s.us(k)]),
                _ => {}
            }
        }
        // Shapes along a lifetime usually fit into each other.
        for i in 0..np { if let Some(b) = ps[i].lt { if self.s.below(4) > 0 { match ps[b].sh { A => ps[i].sh = L, B | O => ps[i].sh = A, L => {} } } } }
        // A run of plain numbers.
        if self.s.below(5) == 0 {
            let (at, k) = (self.s.us(np + 1), 2 + self.s.us(3));
            for p in &mut ps { p.lt = p.lt.map(|b| if b >= at { b + k } else { b }); }
            for i in (0..k).rev() { ps.insert(at, Par { name: ["e", "f", "g", "h"][i].into(), sh: L, lt: None, ret: false, mutable: false }); }
        }
        ps
    }
    fn fun(&mut self, i: usize) {
        let np = 1 + self.s.us(4);
        let ret = if self.s.below(2) == 0 { Some(self.shape()) } else { None };
        let params = self.params(np, ret.is_some());
        let np = params.len();
        let named = self.s.below(5) == 0;
        let name = if named { format!("f{}__{}", i, params.iter().map(|p| p.name.clone()).collect::<Vec<_>>().join("_")) } else { format!("f{}", i) };
        let cur = if ret.is_none() && self.s.below(4) == 0 { Some(self.s.below(3) > 0) } else { None };
        self.sig = Sig { name: name.clone(), named, params, ret, cur };
        let mut head: Vec<String> = vec![];
        let mut bad_sig: Option<(usize, String)> = None;
        if self.plant(14) {
            let k = self.s.us(np);
            match self.s.below(3) {
                0 if ret.is_none() => { bad_sig = Some((k, "return".into())); self.fault = Some("`'return` on a function that returns nothing".into()); }
                1 => { bad_sig = Some((k, "nope".into())); self.fault = Some("the lifetime of an unknown argument".into()); }
                _ => { let l = { let mut x = k; while let Some(b) = self.sig.params[x].lt { x = b; } x };
                    if !self.sig.params[l].ret { bad_sig = Some((l, self.sig.params[k].name.clone())); self.fault = Some("cyclic lifetimes".into()); } }
            }
        }
        for (k, p) in self.sig.params.iter().enumerate() {
            let lt = match &bad_sig { Some((b, t)) if *b == k => Some(t.clone()), _ => if p.ret { Some("return".to_string()) } else { p.lt.map(|b| self.sig.params[b].name.clone()) } };
            head.push(format!("{}{}{}", if p.mutable { "mut " } else { "" }, p.name, lt.map_or(String::new(), |t| format!(": '{}", t))));
        }
        self.pos = 0;
        self.scope = self.sig.params.iter().enumerate().map(|(k, p)| Ent { name: p.name.clone(), sh: p.sh, pl: Arg(k), mutable: p.mutable, index: false }).collect();
        if let Some(m) = cur { self.scope.push(Ent { name: "cu".into(), sh: B, pl: Cur(0), mutable: m, index: false }); }
        if ret.map_or(false, |r| r != L) && self.s.below(4) == 0 && !named && !self.sig.params.iter().any(|p| p.mutable) {
            self.fuel = 8;
            self.used.clear();
            // The type of the function must be clear from the expression.
            let e = self.agg(ret.unwrap(), 3, &[Ret], "the result of a function");
            self.l(&format!("{}({}) = {}", name, head.join(", "), e));
            self.sigs.push(self.sig.clone());
            return;
        }
        self.l(&format!("fn {}({}){}{} {{", name, head.join(", "), match cur { Some(true) => " ~ mut cu", Some(false) => " ~ cu", None => "" }, if ret.is_some() { " ->" } else { "" }));
        self.ind += 1;
        self.fuel = 14;
        let n = 1 + self.s.us(3);
        for _ in 0..n { self.stmt(2); }
        if let Some(sh) = ret {
            match self.s.below(5) {
                0 => {
                    let c = self.cond();
                    self.l(&format!("if {} {{", c));
                    self.ind += 1;
                    self.pos += 1;
                    let keep = self.scope.len();
                    if self.s.bool() { let t = self.decl_text(1); self.l(&t); }
                    let e = self.op(sh, 2, &[Ret], "the result of a function");
                    self.l(&format!("return {}", e));
                    self.scope.truncate(keep);
                    self.ind -= 1;
                    self.l("}");
                }
                1 => { let e = self.op(sh, 2, &[Ret], "the result of a function"); self.l(&format!("return = {}", e)); let e = self.op(sh, 2, &[Ret], "the result of a function"); let c = self.cond(); self.l(&format!("if {} {{\n    return = {}\n  }}", c, e)); self.ind -= 1; self.l("}"); self.sigs.push(self.sig.clone()); return; }
                _ => {}
            }
            let e = self.op(sh, 2, &[Ret], "the result of a function");
            self.l(&format!("return {}", e));
        } else { let k = self.lit(); self.l(&format!("emit({})", k)); }
        self.ind -= 1;
        self.l("}");
        self.sigs.push(self.sig.clone());
    }
}
trait Pair { fn into_owned_pair(self) -> (Sh, String); }
impl Pair for (Sh, &str) { fn into_owned_pair(self) -> (Sh, String) { (self.0, self.1.to_string()) } }

/// Whether the text names the variable.
fn mentions(t: &str, n: &str) -> bool {
    let w = |c: char| c.is_alphanumeric() || c == '_';
    t.match_indices(n).any(|(i, _)| !t[..i].ends_with(w) && !t[..i].ends_with('.') && !t[i + n.len()..].starts_with(w))
}

/// Calls by name while running: what is put in a list must be older than the list, and a result refers to nothing.
fn dynamic(s: &mut Src) -> Outcome {
    #[derive(Clone)]
    enum X { Num(f64), Ref(usize) }
    #[derive(Clone)]
    enum Var { Num(f64), Arr(Vec<X>) }
    let lib = "fn put(mut a: [], b: 'a f64) {\n push_ref(mut a, b)\n}\nfn putl(mut a: [], b: 'a []) {\n push_ref(mut a, b)\n}\nfn put3(b: 'a f64, c: f64, mut a: []) {\n if c > 1 {\n  push_ref(mut a, b)\n }\n}\nfn id(x: 'return any) -> {\n return x\n}\nfn wrap(n: f64, x: 'return any) -> {\n return [x, 7]\n}\nfn cur() ~ cq: f64 -> {\n return clone(cq)\n}\n";
    let mut t = String::from("fn made(m: any, n: f64) -> {\n q0 := n + 1\n q1 := [q0, 2]\n return call_ret(m, \"id\", [q1])\n}\nfn made2(m: any, n: f64) -> {\n q0 := n * 2\n return call_ret(m, \"wrap\", [1, q0])\n}\nfn into(m: any, x: f64, mut a: []) -> {\n q0 := x + 0\n r := try {\n  call(m, \"put(mut,_)\", [a, x])\n  1\n }\n s := try {\n  call(m, \"put(mut,_)\", [a, q0])\n  1\n }\n return clone([is_ok(r), is_ok(s)])\n}\nfn start() -> {\n");
    t.push_str(&format!(" m := unwrap(module__in_string_imports(\"lib\", {}, []))\n", dy::str_lit(lib)));
    let mut vars: Vec<Var> = vec![];
    let mut depth: Vec<usize> = vec![];
    let mut want: Vec<V> = vec![];
    let show = |vars: &Vec<Var>, i: usize| -> V { match &vars[i] { Var::Num(x) => V::Num(*x), Var::Arr(a) => V::Arr(a.iter().map(|x| match x { X::Num(x) => V::Num(*x), X::Ref(j) => match &vars[*j] { Var::Num(x) => V::Num(*x), _ => unreachable!() } }).collect()) } };
    let n = 6 + s.us(14);
    let mut refused = 0;
    for k in 0..n {
        let nums: Vec<usize> = (0..vars.len()).filter(|&i| matches!(vars[i], Var::Num(_))).collect();
        let arrs: Vec<usize> = (0..vars.len()).filter(|&i| matches!(vars[i], Var::Arr(_))).collect();
        match s.below(15) {
            0 | 1 => { let x = s.range(0, 9); t.push_str(&format!(" v{} := {}\n", vars.len(), x)); vars.push(Var::Num(x as f64)); }
            2 | 3 => { let x = s.range(0, 9); t.push_str(&format!(" v{} := [{}]\n", vars.len(), x)); vars.push(Var::Arr(vec![X::Num(x as f64)])); }
            4 if depth.len() < 3 => { t.push_str(" if true {\n"); depth.push(vars.len()); }
            5 if !depth.is_empty() => { let d = depth.pop().unwrap(); vars.truncate(d); t.push_str(" }\n"); }
            6 if !nums.is_empty() => { let i = *s.pick(&nums); t.push_str(&format!(" v{} += 1\n", i)); if let Var::Num(x) = &mut vars[i] { *x += 1.0; } }
            7..=10 if !nums.is_empty() && !arrs.is_empty() => {
                let (a, b) = (*s.pick(&arrs), *s.pick(&nums));
                let ok = b < a;
                if s.bool() { t.push_str(&format!(" r{} := try {{\n  call(m, \"put(mut,_)\", [v{}, v{}])\n  1\n }}\n emit(is_ok(r{}))\n", k, a, b, k)); }
                else { t.push_str(&format!(" r{} := try {{\n  call(m, \"put3(_,_,mut)\", [v{}, {}, v{}])\n  1\n }}\n emit(is_ok(r{}))\n", k, b, 3, a, k)); }
                want.push(V::Bool(ok));
                if ok { if let Var::Arr(x) = &mut vars[a] { x.push(X::Ref(b)); } } else { refused += 1; }
            }
            11 if !arrs.is_empty() => { let a = *s.pick(&arrs); t.push_str(&format!(" r{} := call_ret(m, \"id\", [v{}])\n emit(r{})\n", k, a, k)); want.push(show(&vars, a)); }
            12 if !nums.is_empty() && !arrs.is_empty() => {
                let (a, b) = (*s.pick(&arrs), *s.pick(&nums));
                let ok = b < a;
                t.push_str(&format!(" r{} := into(m, v{}, mut v{})\n emit(r{})\n", k, b, a, k));
                want.push(V::Arr(vec![V::Bool(ok), V::Bool(false)]));
                if ok { if let Var::Arr(x) = &mut vars[a] { x.push(X::Ref(b)); } } else { refused += 1; }
            }
            // A list never outlives itself.
            13 if !arrs.is_empty() => { let a = *s.pick(&arrs); t.push_str(&format!(" r{} := try {{\n  call(m, \"putl(mut,_)\", [v{}, v{}])\n  1\n }}\n emit(is_ok(r{}))\n", k, a, a, k)); want.push(V::Bool(false)); refused += 1; }
            _ => { let x = s.range(0, 9) as f64; let (f, w) = if s.bool() { ("made", V::Arr(vec![V::Num(x + 1.0), V::Num(2.0)])) } else { ("made2", V::Arr(vec![V::Num(x * 2.0), V::Num(7.0)])) }; t.push_str(&format!(" r{} := {}(m, {})\n emit({}(m, {}))\n emit(r{})\n", k, f, x, f, x, k)); want.push(w.clone()); want.push(w); }
        }
        let arrs: Vec<usize> = (0..vars.len()).filter(|&i| matches!(vars[i], Var::Arr(_))).collect();
        if !arrs.is_empty() && s.below(3) == 0 { let a = *s.pick(&arrs); t.push_str(&format!(" emit(v{})\n", a)); want.push(show(&vars, a)); }
    }
    while let Some(d) = depth.pop() { vars.truncate(d); t.push_str(" }\n"); }
    for i in 0..vars.len() { t.push_str(&format!(" emit(v{})\n", i)); want.push(show(&vars, i)); }
    t.push_str(" return 0\n}\n");
    let mut o = Outcome::of(t.clone());
    o.label("calls by name");
    if refused > 0 { o.label("refused at run time"); }
    o.nontrivial = !want.is_empty();
    let (r, log) = dy::run_fn(&t, "start", &[], 2000, false);
    match r { Res::Ok(_) if log == want => {} r => o.fail(format!("expected {:?}, got {:?} after {:?}", want, log, r)) }
    o
}

fn run(s: &mut Src, mutf: bool) -> Outcome {
    if !mutf && s.below(12) == 0 { return dynamic(s); }
    let want = s.below(5) > 1;
    let mut p = P { s, want, mutf, fault: None, out: String::new(), ind: 0, n: 0, pos: 0, fuel: 0, scope: vec![], sig: Sig { name: String::new(), named: false, params: vec![], ret: None, cur: None }, sigs: vec![], used: vec![], labels: vec![], loops: 0 };
    let nf = 1 + p.s.us(3);
    let mut cuts = vec![0];
    for i in 0..nf { p.fun(i); cuts.push(p.out.len()); }
    p.sig = Sig { name: "start".into(), named: false, params: vec![], ret: None, cur: None };
    p.scope.clear();
    p.pos = 0;
    p.l("fn start() -> {");
    p.ind = 1;
    p.l("~ cu := [[1, 2], [3, 4]]");
    p.pos = 1;
    p.scope.push(Ent { name: "cu".into(), sh: B, pl: Loc(1), mutable: true, index: false });
    for sh in [L, A, B, O] { p.pos += 1; let n = p.fresh("v"); let e = p.leaf(sh, &[Loc(p.pos)], "a new variable"); p.l(&format!("{} := {}", n, e)); p.scope.push(Ent { name: n, sh, pl: Loc(p.pos), mutable: true, index: false }); }
    p.fuel = 30;
    let n = 1 + p.s.us(4);
    for _ in 0..n { p.stmt(2); }
    for g in p.sigs.clone() { if p.s.below(5) > 0 { p.use_fun(&g); } }
    let n = 1 + p.s.us(3);
    for _ in 0..n { p.stmt(2); }
    p.show();
    p.l("return 0");
    p.ind = 0;
    p.l("}");
    let src = std::mem::take(&mut p.out);
    let fault = p.fault.clone();
    let mut labels = std::mem::take(&mut p.labels);
    // Some of the functions may be in a module of their own.
    let cut = if p.s.below(3) == 0 { *p.s.pick(&cuts) } else { 0 };
    let parts: Vec<&str> = [&src[..cut], &src[cut..]].into_iter().filter(|t| !t.is_empty()).collect();
    if cut > 0 { labels.push("imported functions"); }
    drop(p);
    if std::env::var("SHOW_SRC").is_ok() { eprintln!("// {:?}\n{}", fault, src); }
    let mut o = Outcome::of(format!("{}{}", fault.as_ref().map_or(String::new(), |f| format!("// fault: {}\n", f)), parts.join("// ---- imported by\n")));
    for l in labels { o.label(l); }
    if let Some(f) = fault {
        o.label("one fault");
        o.nontrivial = true;
        match dy::load_parts(&parts) {
            Err(p) => o.fail(format!("panic while loading: {}", p)),
            Ok(Ok(_)) => o.fail(format!("accepted in spite of {}", f)),
            _ => {}
        }
        return o;
    }
    o.label("no fault");
    let prog = crate::parse::program(&src);
    let ran = progs::run_model(&prog, "start", &[], false);
    match &ran.want { Err(crate::model::Stop::Budget) => { o.discard = true; return o; } Err(crate::model::Stop::Undefined(u)) => { o.discard = true; if std::env::var("SHOW_UNDEF").is_ok() { eprintln!("UNDEF {}\n{}", u, src); } return o; } _ => {} }
    let (res, log) = dy::run_parts(&parts, "start", &[], progs::LOG_LIMIT, false);
    for s in &ran.seen { o.label(s); }
    o.nontrivial = ran.steps > 25;
    if let Res::RunErr(e) = &res { if e.contains(dy::LIMIT_MSG) { o.discard = true; return o; } }
    progs::verdict(&mut o, &ran, &res, &log);
    o
}
const PROBE9: &str = "fn main() -> any {\n a := [[0]]\n if true {\n y := [1]\n b := [a]\n b[0][0] = [y]\n }\n z := [5]\n w := [6]\n return str(a)\n}\n";
const PROBE10: &str = "fn f(a) {\n b := [a]\n b[0][0] = 7\n}\nfn main() -> any {\n a := [1]\n f(a)\n return a[0] + 0\n}\n";
fn probes9(_: &Cfg) -> Vec<Probe> {
    let (r, _) = dy::run_fn(PROBE9, "main", &[], 100, false);
    vec![Probe { name: "write-through-reference-in-container", fails: matches!(&r, Res::Ok(V::Str(s)) if s != "[[[1]]]"), desc: "b := [a]; b[0][0] = [y] stores the shorter-lived y in a".into() }]
}
fn probes10(_: &Cfg) -> Vec<Probe> {
    let (r, _) = dy::run_fn(PROBE10, "main", &[], 100, false);
    vec![Probe { name: "write-through-reference-in-container", fails: matches!(&r, Res::Ok(V::Num(n)) if *n != 1.0), desc: "b := [a]; b[0][0] = 7 changes the argument a that is not declared mut".into() }]
}
pub fn c09() -> Check { Check { id: "C09", quick: 12_000, thorough: 3_000_000, case: |s, _| run(s, false), rule: "a fault was planted, or the model run takes more than 25 steps", probes: probes9, assumptions: &[] } }
pub fn c10() -> Check { Check { id: "C10", quick: 14_000, thorough: 3_000_000, case: |s, _| run(s, true), rule: "a fault was planted, or the model run takes more than 25 steps", probes: probes10, assumptions: &[] } }
