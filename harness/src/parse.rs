//! Reads the plain layout of Dyon that the scenario generators write into syntax trees.
//! Panics on text it does not know: only texts made here are given to it.
use crate::lang::*;

struct R<'a> { s: &'a [u8], t: &'a str, i: usize }

pub fn program(t: &str) -> Prog {
    let mut r = R { s: t.as_bytes(), t, i: 0 };
    let mut funs = vec![];
    loop { r.ws(); if r.i >= r.s.len() { break; } funs.push(r.fun()); }
    Prog { funs }
}
pub fn expression(t: &str) -> E { let mut r = R { s: t.as_bytes(), t, i: 0 }; r.expr() }

const FOLDS: &[(&str, LK)] = &[("sum_vec4", LK::SumV), ("prod_vec4", LK::ProdV), ("sum", LK::Sum), ("prod", LK::Prod), ("min", LK::Min), ("max", LK::Max), ("any", LK::Any), ("all", LK::All), ("sift", LK::Sift), ("link", LK::Link)];

fn alpha(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c >= 128 }

impl<'a> R<'a> {
    fn die(&self, m: &str) -> ! { panic!("scenario text: {} at {:?} in\n{}", m, self.t.get(self.i..).map(|x| x.chars().take(60).collect::<String>()), self.t) }
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() { self.i += 1 } }
    fn sp(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1 } }
    fn at(&self, p: &str) -> bool { self.t[self.i..].starts_with(p) }
    fn eat(&mut self, p: &str) -> bool { if self.at(p) { self.i += p.len(); true } else { false } }
    fn need(&mut self, p: &str) { self.ws(); if !self.eat(p) { self.die(&format!("expected {}", p)) } }
    fn kw(&mut self, p: &str) -> bool { if self.at(p) && !self.s.get(self.i + p.len()).map(|c| alpha(*c)).unwrap_or(false) { self.i += p.len(); true } else { false } }
    fn name(&mut self) -> String {
        let a = self.i;
        while self.i < self.s.len() && alpha(self.s[self.i]) { self.i += 1 }
        if a == self.i { self.die("expected a name") }
        self.t[a..self.i].to_string()
    }
    fn until(&mut self, stop: &[&str]) -> String {
        let a = self.i;
        let mut d = 0i32;
        while self.i < self.s.len() {
            if d == 0 && stop.iter().any(|p| self.at(p)) { break; }
            match self.s[self.i] { b'(' | b'[' => d += 1, b')' | b']' => d -= 1, b'{' => d += 1, b'}' => d -= 1, _ => {} }
            self.i += 1;
        }
        self.t[a..self.i].trim().to_string()
    }
    fn fun(&mut self) -> Fun {
        let long = self.kw("fn");
        self.ws();
        let mut f = Fun { name: self.name(), short: !long, ..Default::default() };
        self.need("(");
        loop {
            self.ws();
            if self.eat(")") { break; }
            if self.eat(",") { continue; }
            let mutable = self.kw("mut"); self.ws();
            let mut p = Param { name: self.name(), mutable, ..Default::default() };
            self.ws();
            if self.eat(":") {
                self.ws();
                if self.eat("'") { p.lt = self.name(); self.ws(); }
                p.ty = self.until(&["=>", ",", ")"]);
            }
            self.ws();
            if self.eat("=>") {
                loop {
                    self.ws();
                    p.lazy.push(if self.eat("ok(_)") { Lazy::Ok } else if self.eat("err(_)") { Lazy::Err } else if self.eat("some(_)") { Lazy::Some } else {
                        Lazy::Lit(match self.lex() { E::Num(x) => LazyLit::Num(x), E::Bool(x) => LazyLit::Bool(x), E::Str(x) => LazyLit::Str(x), _ => self.die("lazy") })
                    });
                    self.ws();
                    if !self.eat("|") { break; }
                }
            }
            f.params.push(p);
        }
        self.ws();
        if self.eat("~") { loop { self.ws(); let m = self.kw("mut"); self.ws(); f.currents.push((m, self.name())); self.ws(); if self.eat(":") { self.until(&[",", "->", "{"]); } if !self.eat(",") { break; } } self.ws(); }
        if !long { self.need("="); self.ws(); f.body = vec![self.expr()]; return f; }
        if self.eat("->") { self.ws(); f.ret = Some(self.until_brace()); }
        f.body = self.block();
        f
    }
    /// A return type: `{}` is a type, ` { ` opens the body.
    fn until_brace(&mut self) -> String {
        let a = self.i;
        loop {
            if self.at("{}") { self.i += 2; continue; }
            if self.at("{") { break; }
            self.i += 1;
        }
        self.t[a..self.i].trim().to_string()
    }
    fn block(&mut self) -> Vec<E> {
        self.need("{");
        let mut b = vec![];
        loop { self.ws(); if self.eat("}") { break; } b.push(self.expr()); }
        b
    }
    fn label(&mut self) -> Option<String> {
        if self.at("'") { self.i += 1; let l = self.name(); self.need(":"); self.ws(); Some(l) } else { None }
    }
    fn jump(&mut self) -> Option<String> { self.sp(); if self.eat("'") { Some(self.name()) } else { None } }
    pub fn expr(&mut self) -> E {
        self.ws();
        let at = self.i;
        if self.kw("return") {
            self.sp();
            if self.at("\n") || self.at("}") { return E::Return(None); }
            if !self.at("=") && !self.at("(") || self.at("==") { return E::Return(Some(Box::new(self.expr()))); }
            if self.at("(") { return E::Return(Some(Box::new(self.expr()))); }
            self.i = at;
        }
        if self.kw("break") { return E::Break(self.jump()); }
        if self.kw("continue") { return E::Continue(self.jump()); }
        let e = self.plain();
        self.sp();
        for (t, o) in [(":=", AOp::Decl), ("+=", AOp::Add), ("-=", AOp::Sub), ("*=", AOp::Mul), ("/=", AOp::Div), ("%=", AOp::Rem), ("^=", AOp::Pow)] {
            if self.eat(t) { return assign(o, e, self.expr()); }
        }
        if self.at("=") && !self.at("==") && !self.at("=>") { self.i += 1; return assign(AOp::Set, e, self.expr()); }
        e
    }
    fn plain(&mut self) -> E {
        let l = self.add();
        self.sp();
        for (t, o) in [("==", Op::Eq), ("!=", Op::Ne), ("<=", Op::Le), (">=", Op::Ge), ("<", Op::Lt), (">", Op::Gt)] {
            if self.eat(t) { let r = self.plain(); return bin(o, l, r); }
        }
        l
    }
    fn add(&mut self) -> E {
        let mut l = self.mul();
        loop {
            self.sp();
            if self.at("+=") || self.at("-=") || self.at("->") { return l; }
            let o = if self.eat("||") { Op::Or } else if self.eat("+") { Op::Add } else if self.eat("-") { Op::Sub } else { return l };
            self.ws();
            let r = self.mul();
            l = bin(o, l, r);
        }
    }
    fn mul(&mut self) -> E {
        self.ws();
        if self.at("-") && !self.s[self.i + 1].is_ascii_digit() { self.i += 1; return E::Neg(Box::new(self.mul())); }
        let mut l = self.pow();
        loop {
            self.sp();
            if self.at("*=") || self.at("/=") || self.at("%=") { return l; }
            let o = if self.eat("*.") { Op::Dot } else if self.eat("*") { Op::Mul } else if self.eat("/") { Op::Div } else if self.eat("%") { Op::Rem } else if self.eat("&&") { Op::And } else if self.at("x ") { self.i += 1; Op::Cross } else { return l };
            self.ws();
            let r = self.pow();
            l = bin(o, l, r);
        }
    }
    fn pow(&mut self) -> E {
        let l = self.lex();
        self.sp();
        if self.at("^") && !self.at("^=") { self.i += 1; self.ws(); let r = self.lex(); return bin(Op::Pow, l, r); }
        l
    }
    fn post(&mut self, e: E) -> E { self.sp(); if self.at("?") { self.i += 1; E::TryQ(Box::new(e)) } else { e } }
    fn string(&mut self) -> String {
        let mut r = String::new();
        self.i += 1;
        let mut c = self.t[self.i..].chars();
        while let Some(x) = c.next() {
            self.i += x.len_utf8();
            match x { '"' => return r, '\\' => { let y = c.next().unwrap(); self.i += y.len_utf8(); r.push(match y { 'n' => '\n', 't' => '\t', 'r' => '\r', y => y }) } x => r.push(x) }
        }
        self.die("string")
    }
    fn number(&mut self) -> f64 {
        let a = self.i;
        if self.at("-") { self.i += 1 }
        while self.i < self.s.len() && (self.s[self.i].is_ascii_digit() || self.s[self.i] == b'.') { self.i += 1 }
        self.t[a..self.i].parse().unwrap_or_else(|_| self.die("number"))
    }
    fn args(&mut self, close: &str) -> Vec<E> { self.named_args(close, &mut vec![]) }
    fn named_args(&mut self, close: &str, names: &mut Vec<String>) -> Vec<E> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.eat(close) { return v; }
            if self.eat(",") { continue; }
            let a = self.i;
            if alpha(self.s[a]) {
                while alpha(self.s[self.i]) || self.s[self.i].is_ascii_digit() { self.i += 1 }
                let n = self.t[a..self.i].to_string();
                if self.at(":") && !self.at("::") && !self.at(":=") { self.i += 1; self.ws(); names.push(n); } else { self.i = a; }
            }
            if self.kw("mut") { self.ws(); v.push(E::Mut(self.name())); continue; }
            let a = self.i;
            // A swizzle: letters, a space and an operand.
            while self.i < self.s.len() && b"xyzw".contains(&self.s[self.i]) { self.i += 1 }
            if self.i > a && self.at(" ") && self.s.get(self.i + 1).map(|c| alpha(*c) || *c == b'(').unwrap_or(false) {
                let ix = self.t[a..self.i].chars().map(|c| "xyzw".find(c).unwrap()).collect();
                self.sp();
                v.push(E::Swizzle(ix, Box::new(self.expr())));
                continue;
            }
            self.i = a;
            v.push(self.expr());
        }
    }
    fn lex(&mut self) -> E {
        self.ws();
        if self.i >= self.s.len() { self.die("end") }
        let c = self.s[self.i];
        if c.is_ascii_digit() || (c == b'-' && self.s[self.i + 1].is_ascii_digit()) { return num(self.number()); }
        if c == b'"' { return E::Str(self.string()); }
        if c == b'!' { self.i += 1; return E::Not(Box::new(self.lex())); }
        if c == b'|' { self.i += 1; let e = self.plain_no_or(); self.need("|"); return E::Norm(Box::new(e)); }
        if c == b'[' {
            self.i += 1;
            self.ws();
            if self.eat("]") { return E::Arr(vec![]); }
            let e = self.expr();
            self.ws();
            if self.eat(";") { let n = self.expr(); self.need("]"); return E::Fill(Box::new(e), Box::new(n)); }
            let mut v = vec![e];
            loop { self.ws(); if self.eat("]") { break; } if self.eat(",") { continue; } v.push(self.expr()); }
            return E::Arr(v);
        }
        if c == b'(' {
            self.i += 1;
            let v = self.args(")");
            // A trailing comma makes a vector.
            let mut k = self.i - 2;
            while self.s[k].is_ascii_whitespace() { k -= 1 }
            if v.len() == 1 && self.s[k] != b',' { let e = v.into_iter().next().unwrap(); return self.post(E::Paren(Box::new(e))); }
            return E::Vec4(v);
        }
        if c == b'\\' {
            self.i += 1;
            if self.eat("(") {
                let mut a = vec![];
                loop {
                    self.ws();
                    if self.eat(")") { break; }
                    if self.eat(",") { continue; }
                    let n = self.name();
                    self.ws();
                    let t = if self.eat(":") { self.ws(); self.until(&[",", ")"]) } else { String::new() };
                    a.push((n, t));
                }
                let mut cur = vec![];
                self.ws();
                if self.eat("~") { loop { self.ws(); cur.push(self.name()); self.ws(); if !self.eat(",") { break; } } }
                self.need("=");
                return E::Clo(a, cur, Box::new(self.expr()));
            }
            let f = self.item();
            self.need("(");
            let v = self.args(")");
            return self.post(E::CloCall(Box::new(f), v));
        }
        if c == b'{' {
            let save = self.i;
            self.i += 1;
            self.ws();
            let obj = self.at("}") || {
                let a = self.i;
                let k = if self.at("\"") { self.string(); true } else if alpha(self.s[self.i]) { self.name(); true } else { false };
                self.ws();
                let r = k && self.at(":") && !self.at(":=");
                self.i = a;
                r
            };
            if obj {
                let mut kv = vec![];
                loop {
                    self.ws();
                    if self.eat("}") { break; }
                    if self.eat(",") { continue; }
                    let k = if self.at("\"") { self.string() } else { self.name() };
                    self.need(":");
                    kv.push((k, self.expr()));
                }
                return E::Obj(kv);
            }
            self.i = save;
            return E::Block(self.block());
        }
        if c == b'~' { self.i += 1; self.ws(); let n = self.name(); return E::Var(n, vec![], true); }
        let l = self.label();
        if self.kw("true") { return E::Bool(true); }
        if self.kw("false") { return E::Bool(false); }
        if self.kw("if") {
            let mut cs = vec![];
            let c = self.expr();
            let b = self.block();
            cs.push((c, b));
            loop {
                let save = self.i;
                self.ws();
                if !self.kw("else") { self.i = save; return E::If(cs, None); }
                self.ws();
                if self.kw("if") { let c = self.expr(); let b = self.block(); cs.push((c, b)); continue; }
                let b = self.block();
                return E::If(cs, Some(b));
            }
        }
        if self.kw("loop") { let b = self.block(); return E::Loop(l, b); }
        if self.kw("grab") { self.sp(); let n = if self.eat("'") { self.number() as usize } else { 1 }; return E::Grab(n, Box::new(self.expr())); }
        if self.kw("try") { return E::TryE(Box::new(self.expr())); }
        if self.kw("mat4") {
            self.need("{");
            let mut rows = vec![];
            loop {
                self.ws();
                if self.eat("}") { break; }
                if self.eat(";") { continue; }
                let mut v = vec![];
                loop { self.ws(); if self.at(";") || self.at("}") { break; } if self.eat(",") { continue; } v.push(self.expr()); }
                rows.push(if v.len() == 1 { v.pop().unwrap() } else { E::Vec4(v) });
            }
            return E::Mat4(rows);
        }
        for n in [4usize, 3, 2] {
            let a = self.i;
            if self.kw(&format!("vec{}", n)) && self.at(" ") { self.ws(); let i = self.name(); let e = self.expr(); return E::VecUn(n, i, Box::new(e)); }
            self.i = a;
        }
        if self.kw("for") {
            let a = self.i;
            self.ws();
            let n = self.name();
            self.ws();
            if self.at(":=") {
                let _ = n;
                self.i = a;
                let init = self.expr(); self.need(";");
                let c = self.expr(); self.need(";");
                let st = self.expr();
                let b = self.block();
                return E::ForC(l, Box::new(init), Box::new(c), Box::new(st), b);
            }
            self.i = a;
            return self.fold(LK::For, l);
        }
        for (t, k) in FOLDS {
            let a = self.i;
            if self.kw(t) {
                self.sp();
                if *k == LK::Link && self.at("{") { return E::Link(self.block()); }
                if !self.at("(") && !self.at(".") && !self.at(":") && self.s.get(self.i).map(|c| alpha(*c)).unwrap_or(false) { return self.fold(*k, l); }
            }
            self.i = a;
        }
        let a = self.i;
        let n = self.name();
        if self.at("(") {
            self.i += 1;
            let mut names = vec![];
            let v = self.named_args(")", &mut names);
            let n = if names.is_empty() { n } else { format!("{}__{}", n, names.join("_")) };
            return self.post(E::Call(n, v));
        }
        self.i = a;
        let e = self.item();
        self.post(e)
    }
    fn plain_no_or(&mut self) -> E { self.ws(); let e = self.mul(); self.sp(); if self.at("+") || self.at("-") { let o = if self.at("+") { Op::Add } else { Op::Sub }; self.i += 1; let r = self.mul(); return bin(o, e, r); } e }
    fn item(&mut self) -> E {
        let n = self.name();
        let mut ids: Vec<(Id, bool)> = vec![];
        loop {
            if self.eat(".") { ids.push((Id::F(self.name()), false)); }
            else if self.at("[") {
                self.i += 1;
                self.ws();
                let e = self.expr();
                self.need("]");
                ids.push((match e { E::Num(x) => Id::N(x), E::Str(s) => Id::F(s), e => Id::E(Box::new(e)) }, false));
            } else if self.at("?") && !ids.is_empty() { self.i += 1; ids.last_mut().unwrap().1 = true; }
            else { break; }
        }
        E::Var(n, ids, false)
    }
    fn fold(&mut self, k: LK, l: Option<String>) -> E {
        let mut ixs = vec![];
        loop {
            self.ws();
            let name = self.name();
            self.sp();
            let mut ix = Ix { name, start: None, end: None };
            if self.eat("[") { ix.start = Some(Box::new(self.expr())); self.need(","); ix.end = Some(Box::new(self.expr())); self.need(")"); }
            else if !self.at("{") && !self.at(",") { ix.end = Some(Box::new(self.plain())); }
            ixs.push(ix);
            self.ws();
            if !self.eat(",") { break; }
        }
        let b = self.block();
        E::ForN(k, l, ixs, b)
    }
}
