//! Program syntax trees and their text form.
use crate::dy::{num_lit, str_lit};
use crate::engine::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op { Add, Sub, Or, Mul, Div, Rem, And, Dot, Cross, Pow, Eq, Ne, Lt, Le, Gt, Ge }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum LK { For, Sum, Prod, Min, Max, Any, All, Sift, Link, SumV, ProdV }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AOp { Decl, Set, Add, Sub, Mul, Div, Rem, Pow }

#[derive(Clone, Debug)]
pub enum Id { F(String), N(f64), E(Box<E>) }

#[derive(Clone, Debug)]
pub struct Ix { pub name: String, pub start: Option<Box<E>>, pub end: Option<Box<E>> }

#[derive(Clone, Debug)]
pub enum E {
    Num(f64),
    Bool(bool),
    Str(String),
    /// name, ids, `~` prefix
    Var(String, Vec<(Id, bool)>, bool),
    Vec4(Vec<E>),
    Mat4(Vec<E>),
    Arr(Vec<E>),
    Fill(Box<E>, Box<E>),
    Obj(Vec<(String, E)>),
    Link(Vec<E>),
    Bin(Op, Box<E>, Box<E>),
    Neg(Box<E>),
    Not(Box<E>),
    Norm(Box<E>),
    Call(String, Vec<E>),
    /// Only as an argument.
    Mut(String),
    /// Only as an argument of a call or vec4.
    Swizzle(Vec<usize>, Box<E>),
    CloCall(Box<E>, Vec<E>),
    /// args (name, type), currents, body
    Clo(Vec<(String, String)>, Vec<String>, Box<E>),
    Grab(usize, Box<E>),
    If(Vec<(E, Vec<E>)>, Option<Vec<E>>),
    Block(Vec<E>),
    Loop(Option<String>, Vec<E>),
    ForC(Option<String>, Box<E>, Box<E>, Box<E>, Vec<E>),
    ForN(LK, Option<String>, Vec<Ix>, Vec<E>),
    VecUn(usize, String, Box<E>),
    TryQ(Box<E>),
    TryE(Box<E>),
    Assign(AOp, Box<E>, Box<E>),
    Return(Option<Box<E>>),
    Break(Option<String>),
    Continue(Option<String>),
    /// `go f(args)`
    Go(Box<E>),
    /// `in f`
    In(String),
    /// Redundant parentheses.
    Paren(Box<E>),
    /// A grabbed value, made by the model only.
    Const(usize),
}

pub fn num(x: f64) -> E { E::Num(x) }
pub fn var<S: Into<String>>(s: S) -> E { E::Var(s.into(), vec![], false) }
pub fn call(f: &str, a: Vec<E>) -> E { E::Call(f.into(), a) }
pub fn bin(o: Op, a: E, b: E) -> E { E::Bin(o, Box::new(a), Box::new(b)) }
pub fn decl(n: &str, e: E) -> E { E::Assign(AOp::Decl, Box::new(var(n)), Box::new(e)) }
pub fn assign(o: AOp, l: E, r: E) -> E { E::Assign(o, Box::new(l), Box::new(r)) }
pub fn ret(e: E) -> E { E::Return(Some(Box::new(e))) }
pub fn clone(e: E) -> E { call("clone", vec![e]) }
pub fn emit(e: E) -> E { call("emit", vec![e]) }

#[derive(Clone, Debug, PartialEq)]
pub enum Lazy { Ok, Err, Some, Lit(LazyLit) }
#[derive(Clone, Debug, PartialEq)]
pub enum LazyLit { Num(f64), Bool(bool), Str(String) }

#[derive(Clone, Debug, Default)]
pub struct Param { pub name: String, pub ty: String, pub lt: String, pub mutable: bool, pub lazy: Vec<Lazy> }
pub fn param(n: &str, t: &str) -> Param { Param { name: n.into(), ty: t.into(), ..Default::default() } }

#[derive(Clone, Debug, Default)]
pub struct Fun {
    pub name: String,
    pub params: Vec<Param>,
    /// (mutable, name)
    pub currents: Vec<(bool, String)>,
    /// `Some("")` is `->` without a type.
    pub ret: Option<String>,
    pub body: Vec<E>,
    /// `f(x) = e`; the body is one expression.
    pub short: bool,
    pub extra: Vec<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog { pub funs: Vec<Fun> }

/// Printer. With a style generator it varies the layout and notation without changing meaning.
pub struct P { pub out: String, pub style: Option<Rng>, ind: usize }

const EXPR: u8 = 0; // any expression
const MULX: u8 = 1; // operand of + -
const MULO: u8 = 2; // operand of * that something follows
const MULT: u8 = 3; // last operand of *
const LEX: u8 = 4; // operand of comparison, power, not, ?

impl P {
    pub fn new(style: Option<u64>) -> P { P { out: String::new(), style: style.map(Rng::new), ind: 0 } }
    fn r(&mut self, n: u64) -> u64 { match self.style { Some(ref mut r) => r.next() % n, None => 0 } }
    fn p(&mut self, s: &str) { self.out.push_str(s) }
    fn comment(&mut self) {
        match self.r(5) {
            0 => self.p("// c } ) \" \n"),
            1 => self.p("/* x */"),
            2 => self.p("/* a /* b */ c */"),
            3 => self.p("/***/"),
            _ => self.p("/* \n { \" */"),
        }
    }
    /// Optional whitespace with newlines and comments.
    fn w(&mut self, d: &str) {
        if self.style.is_none() { self.p(d); return; }
        match self.r(14) {
            0 => {}
            1 => self.p("  "),
            2 => self.p("\n"),
            3 => self.p("\t"),
            4 => { self.p(" "); self.comment(); self.p(" "); }
            5 => { self.comment(); }
            6 => self.p(" \n\n "),
            7 => self.p("\r\n"),
            _ => self.p(d),
        }
    }
    /// Required whitespace with newlines and comments.
    fn w1(&mut self) { self.p(" "); if self.style.is_some() { self.w(""); } }
    /// Required plain whitespace.
    fn pw1(&mut self) { match self.r(6) { 1 => self.p("  "), 2 => self.p("\n"), 3 => self.p("\t "), _ => self.p(" ") } }
    /// Optional whitespace on the line.
    fn wn(&mut self, d: &str) {
        if self.style.is_none() { self.p(d); return; }
        match self.r(6) { 0 => self.p("  "), 1 => self.p("\t"), 2 => {}, _ => self.p(d) }
    }
    fn nl(&mut self) {
        if self.style.is_some() {
            match self.r(8) { 0 => self.p(" // end"), 1 => self.p(" /* end */"), 2 => self.p("\n"), 3 => self.p("  "), _ => {} }
        }
        self.p("\n");
        for _ in 0..self.ind { self.p("  ") }
    }
    pub fn block(&mut self, b: &[E]) {
        self.p("{");
        if b.is_empty() { self.w(" "); self.p("}"); return; }
        self.ind += 1;
        for s in b { self.nl(); self.stmt(s); }
        self.ind -= 1;
        self.nl();
        self.p("}");
    }
    /// Statements take no redundant parentheses: a call may have no value.
    fn stmt(&mut self, x: &E) { if let E::Num(_) = x { self.e(x, EXPR) } else { self.raw(x) } }
    fn name_decl(&mut self, s: &str) { self.p(s) }
    fn list(&mut self, xs: &[E], arg: bool) {
        for (i, x) in xs.iter().enumerate() {
            if i > 0 { self.w(""); self.p(","); self.w(" "); }
            if arg { self.arg(x) } else { self.e(x, EXPR) }
        }
    }
    /// An argument: loops, assignments and returns are not expressions here.
    fn arg(&mut self, x: &E) {
        match x {
            E::Mut(n) => { self.p("mut "); self.p(n) }
            E::Swizzle(ix, e) => { for &i in ix { self.p(["x", "y", "z", "w"][i]); } self.w1(); self.e(e, EXPR) }
            E::Loop(..) | E::ForC(..) | E::ForN(LK::For, ..) | E::Assign(..) | E::Return(..) | E::Break(..) | E::Continue(..) => panic!("not an argument"),
            x => self.e(x, EXPR),
        }
    }
    fn label(&mut self, l: &Option<String>) { if let Some(l) = l { self.p("'"); self.p(l); self.w(""); self.p(":"); self.w(" "); } }
    fn level(x: &E) -> u8 {
        match x {
            E::Bin(Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge, ..) => EXPR,
            E::Bin(Op::Add | Op::Sub | Op::Or, ..) => EXPR,
            E::Bin(Op::Pow, ..) => MULO,
            E::Bin(Op::Cross, ..) if false => LEX,
            E::Bin(..) => MULX,
            E::Neg(_) => MULT,
            E::Num(n) if *n < 0.0 || (*n == 0.0 && n.is_sign_negative()) => EXPR,
            E::Arr(_) | E::Fill(..) | E::Obj(_) | E::Clo(..) | E::If(..) | E::Block(_) | E::Grab(..) | E::TryE(_) | E::VecUn(..) | E::Assign(..)
                | E::Return(_) | E::Break(_) | E::Continue(_) | E::Loop(..) | E::ForC(..) | E::ForN(LK::For, ..) | E::In(_) => EXPR,
            _ => LEX,
        }
    }
    /// Whether the text of `x` can stand unparenthesised in context `c`.
    fn fits(x: &E, c: u8) -> bool {
        let l = P::level(x);
        match c {
            EXPR => true,
            MULX => l == MULX || l == MULO || l == MULT || l == LEX,
            MULT => l == MULT || l == MULO || l == LEX,
            MULO => l == MULO || l == LEX,
            _ => l == LEX,
        }
    }
    pub fn e(&mut self, x: &E, c: u8) {
        // A negative literal is a negation in the grammar.
        if let E::Num(n) = x {
            if *n < 0.0 || (*n == 0.0 && n.is_sign_negative()) {
                let t = num_lit(*n);
                self.p("("); self.p(&t); self.p(")");
                return;
            }
        }
        let extra = self.style.is_some() && !matches!(x, E::Assign(..) | E::Return(_) | E::Break(_) | E::Continue(_) | E::Loop(..) | E::ForC(..) | E::ForN(..) | E::Mut(_) | E::Swizzle(..) | E::If(..) | E::Block(_) | E::Grab(..) | E::In(_))
            && !(c == 9) && P::yields(x) && self.r(12) == 1;
        if extra || !P::fits(x, c) {
            self.p("("); self.w(""); self.raw(x); self.w(""); self.p(")");
        } else { self.raw(x) }
    }
    fn yields(x: &E) -> bool { match x { E::Call(n, _) => n != "emit" && !n.starts_with("void"), E::CloCall(..) => false, _ => true } }
    fn binop(&mut self, o: Op) {
        let styled = self.style.is_some();
        let k = self.r(3);
        // Word operators need plain spaces around them on the line.
        let (t, word): (&str, bool) = match (o, if styled { k } else { 0 }) {
            (Op::Add, 1) => ("or", true), (Op::Add, 2) => ("∨", false), (Op::Add, _) => ("+", false),
            (Op::Sub, _) => ("-", false),
            (Op::Or, _) => ("||", false),
            (Op::Mul, 1) => ("and", true), (Op::Mul, 2) => ("∧", false), (Op::Mul, _) => ("*", false),
            (Op::Div, _) => ("/", false), (Op::Rem, _) => ("%", false), (Op::And, _) => ("&&", false),
            (Op::Dot, 1) => ("·", false), (Op::Dot, _) => ("*.", false),
            (Op::Cross, 1) => ("⨯", false), (Op::Cross, _) => ("x", true),
            (Op::Pow, 1) => ("xor", true), (Op::Pow, 2) => ("⊻", false), (Op::Pow, _) => ("^", false),
            (Op::Eq, _) => ("==", false), (Op::Ne, 1) => ("¬=", false), (Op::Ne, _) => ("!=", false),
            (Op::Lt, _) => ("<", false), (Op::Le, _) => ("<=", false), (Op::Gt, _) => (">", false), (Op::Ge, _) => (">=", false),
        };
        if word { self.p(" "); self.p(t); self.w1(); return; }
        // Unicode signs can be part of a name.
        if t.is_ascii() { self.wn(" ") } else { self.p(" ") }
        self.p(t);
        if o == Op::Div { self.p(" "); }
        self.w(" ");
    }
    fn raw(&mut self, x: &E) {
        match x {
            E::Num(n) => { let t = num_lit(*n); self.p(&t) }
            E::Bool(b) => self.p(if *b { "true" } else { "false" }),
            E::Str(s) => { let t = str_lit(s); self.p(&t) }
            E::Var(n, ids, cur) => {
                if *cur { self.p("~"); self.w(" "); }
                self.p(n);
                for (id, q) in ids {
                    match id {
                        Id::F(f) => { if f.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !f.is_empty() && self.r(5) != 1 { self.p("."); self.p(f) } else { let t = str_lit(f); self.wn(""); self.p("["); self.w(""); self.p(&t); self.w(""); self.p("]") } }
                        Id::N(n) => { let t = num_lit(*n); self.wn(""); self.p("["); self.w(""); self.p(&t); self.w(""); self.p("]") }
                        Id::E(e) => {
                            self.wn(""); self.p("["); self.w("");
                            // The grammar commits to a number or text that starts an index.
                            let t = expr_text(e);
                            if t.starts_with(|c: char| c.is_ascii_digit() || c == '"') { self.p("("); self.w(""); self.e(e, EXPR); self.w(""); self.p(")") } else { self.e(e, EXPR) }
                            self.w(""); self.p("]")
                        }
                    }
                    if *q { self.wn(""); self.p("?"); }
                }
            }
            E::Vec4(v) => { self.p("("); self.w(""); self.list(v, true); if v.len() == 1 { self.p(","); } self.w(""); self.p(")") }
            E::Mat4(rows) => {
                self.p("mat4"); self.pw1(); self.p("{"); self.w("");
                for (i, r) in rows.iter().enumerate() {
                    if i > 0 { self.w(""); self.p(";"); self.w(" "); }
                    match r { E::Vec4(v) if v.len() > 1 => self.list(v, true), r => self.arg(r) }
                }
                if rows.len() == 1 { self.p(";"); }
                self.w(""); self.p("}")
            }
            E::Arr(v) => { self.p("["); self.w(""); self.list(v, false); self.w(""); self.p("]") }
            E::Fill(a, b) => { self.p("["); self.w(""); self.e(a, EXPR); self.w(""); self.p(";"); self.w(" "); self.e(b, EXPR); self.w(""); self.p("]") }
            E::Obj(kv) => {
                self.p("{"); self.w("");
                for (i, (k, v)) in kv.iter().enumerate() {
                    if i > 0 { self.w(""); self.p(","); self.w(" "); }
                    if !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && self.r(4) != 1 { self.p(k) } else { let t = str_lit(k); self.p(&t) }
                    self.w(""); self.p(":"); self.w(" ");
                    self.e(v, EXPR);
                }
                self.w(""); self.p("}")
            }
            E::Link(v) => { self.p("link"); self.w(" "); self.link_body(v) }
            E::Bin(o, a, b) => match o {
                Op::Add | Op::Sub | Op::Or => {
                    // Left associative chain of multiplicative terms.
                    if matches!(**a, E::Bin(Op::Add | Op::Sub | Op::Or, ..)) { self.raw(a) } else { self.e(a, MULX) }
                    self.binop(*o);
                    self.e(b, MULX)
                }
                Op::Mul | Op::Div | Op::Rem | Op::And | Op::Dot | Op::Cross => {
                    self.mul_left(a);
                    self.binop(*o);
                    self.e(b, MULT)
                }
                Op::Pow => { self.e(a, LEX); self.binop(*o); self.e(b, LEX) }
                _ => {
                    self.e(a, LEX); self.binop(*o);
                    if P::brace(b) { self.p("("); self.raw(b); self.p(")") } else { self.e(b, EXPR) }
                }
            },
            E::Neg(a) => { self.p("-"); self.w(""); self.e(a, MULX) }
            E::Not(a) => { if self.r(3) == 1 { self.p("¬") } else { self.p("!") } self.w(""); self.e(a, LEX) }
            E::Norm(a) => {
                self.p("|"); self.w("");
                // Two bars in a row are the lazy or.
                if expr_text(a).contains('|') { self.p("("); self.raw(a); self.p(")") } else { self.e(a, EXPR) }
                self.w(""); self.p("|")
            }
            E::Call(n, a) => {
                if self.style.is_some() && self.r(2) == 1 {
                    if let Some(i) = n.find("__") {
                        let words: Vec<&str> = n[i + 2..].split('_').collect();
                        if words.len() == a.len() && !a.is_empty() && i > 0 {
                            let h = n[..i].to_string();
                            let words: Vec<String> = words.iter().map(|s| s.to_string()).collect();
                            self.p(&h); self.wn(""); self.p("("); self.w("");
                            for (k, x) in a.iter().enumerate() {
                                if k > 0 { self.w(""); self.p(","); self.w(" "); }
                                self.p(&words[k]); self.w(""); self.p(":"); self.w(" "); self.arg(x);
                            }
                            self.w(""); self.p(")");
                            return;
                        }
                    }
                }
                self.p(n); self.wn(""); self.p("("); self.w(""); self.list(a, true); self.w(""); self.p(")")
            }
            E::Mut(_) | E::Swizzle(..) => self.arg(x),
            E::CloCall(f, a) => { self.p("\\"); self.raw(f); self.w(""); self.p("("); self.list(a, true); self.w(""); self.p(")") }
            E::Clo(args, cur, b) => {
                self.p("\\("); self.w("");
                for (i, (n, t)) in args.iter().enumerate() {
                    if i > 0 { self.w(""); self.p(","); self.w(" "); }
                    self.p(n);
                    if !t.is_empty() { self.w(""); self.p(":"); self.w(" "); self.p(t); }
                }
                self.w(""); self.p(")");
                if !cur.is_empty() { self.p(" ~ "); let t = cur.join(", "); self.p(&t); }
                self.w(" "); self.p("="); self.w(" "); self.e(b, EXPR)
            }
            E::Grab(l, e) => { self.p("grab"); if *l != 1 { self.p(" '"); self.p(&l.to_string()); } self.w1(); self.e(e, EXPR) }
            E::If(cs, el) => {
                for (i, (c, b)) in cs.iter().enumerate() {
                    if i > 0 { self.w(" "); self.p("else"); self.w1(); self.p("if "); } else { self.p("if"); self.pw1(); }
                    self.e(c, EXPR); self.w(" "); self.block(b);
                }
                if let Some(b) = el { self.w(" "); self.p("else"); self.w(" "); self.block(b) }
            }
            E::Block(b) => self.block(b),
            E::Loop(l, b) => { self.label(l); self.p("loop"); self.pw1(); self.block(b) }
            E::ForC(l, a, b, c, body) => {
                self.label(l); self.p("for"); self.pw1();
                self.e(a, EXPR); self.w(""); self.p(";"); self.w(" "); self.e(b, EXPR); self.w(""); self.p(";"); self.w(" "); self.e(c, EXPR); self.w(" ");
                self.block(body)
            }
            E::ForN(k, l, ixs, body) => {
                self.label(l);
                let uni = self.r(3) == 1;
                self.p(match (k, uni) { (LK::For, _) => "for", (LK::Sum, false) => "sum", (LK::Sum, true) => "∑", (LK::Prod, false) => "prod", (LK::Prod, true) => "∏", (LK::Min, _) => "min", (LK::Max, _) => "max",
                    (LK::Any, false) => "any", (LK::Any, true) => "∃", (LK::All, false) => "all", (LK::All, true) => "∀", (LK::Sift, _) => "sift", (LK::Link, _) => "link",
                    (LK::SumV, false) => "sum_vec4", (LK::SumV, true) => "∑vec4", (LK::ProdV, false) => "prod_vec4", (LK::ProdV, true) => "∏vec4" });
                self.pw1();
                for (i, ix) in ixs.iter().enumerate() {
                    if i > 0 { self.w(""); self.p(","); self.w(" "); }
                    self.p(&ix.name); 
                    match (&ix.start, &ix.end) {
                        (Some(s), Some(e)) => { self.w(" "); self.p("["); self.w(""); self.e(s, EXPR); self.w(""); self.p(","); self.w(" "); self.e(e, EXPR); self.w(""); self.p(")") }
                        (None, Some(e)) => { self.w1(); if P::brace(e) { self.p("("); self.raw(e); self.p(")") } else { self.e(e, EXPR) } }
                        _ => {}
                    }
                }
                self.w(" ");
                if *k == LK::Link { self.link_body(body) } else { self.block(body) }
            }
            E::VecUn(n, i, e) => { self.p("vec"); self.p(&n.to_string()); self.w1(); self.p(i); self.w1(); self.e(e, EXPR) }
            E::TryQ(e) => { self.e(e, LEX); self.wn(""); self.p("?") }
            E::TryE(e) => { self.p("try"); self.w1(); self.e(e, EXPR) }
            E::Assign(o, l, r) => {
                self.raw(l); self.wn(" ");
                self.p(match o { AOp::Decl => ":=", AOp::Set => "=", AOp::Add => "+=", AOp::Sub => "-=", AOp::Mul => "*=", AOp::Div => "/=", AOp::Rem => "%=", AOp::Pow => "^=" });
                self.w(" "); self.e(r, EXPR)
            }
            E::Return(None) => self.p("return"),
            E::Return(Some(e)) => {
                self.p("return ");
                // `return (a) < b` reads as a call of a function `return`.
                if matches!(**e, E::Bin(Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge, ..)) { self.p("("); self.raw(e); self.p(")") } else { self.e(e, EXPR) }
            }
            E::Break(l) => { self.p("break"); if let Some(l) = l { self.p(" '"); self.p(l) } }
            E::Continue(l) => { self.p("continue"); if let Some(l) = l { self.p(" '"); self.p(l) } }
            E::Go(c) => { self.p("go "); self.raw(c) }
            E::In(f) => { self.p("in"); self.w1(); self.p(f) }
            E::Const(i) => { let t = format!("<const {}>", i); self.p(&t) }
            E::Paren(e) => { self.p("("); self.w(""); self.e(e, EXPR); self.w(""); self.p(")") }
        }
    }
    /// Text that starts with `{`.
    fn brace(e: &E) -> bool { matches!(e, E::Obj(_) | E::Block(_)) || match e { E::Bin(_, a, _) => P::brace(a), _ => false } }
    fn mul_left(&mut self, a: &E) {
        match a {
            E::Bin(Op::Mul | Op::Div | Op::Rem | Op::And | Op::Dot | Op::Cross, x, y) => {
                self.mul_left(x);
                if let E::Bin(o, _, _) = a { self.binop(*o) }
                self.e(y, MULO)
            }
            a => self.e(a, MULO),
        }
    }
    fn link_body(&mut self, v: &[E]) {
        self.p("{");
        self.ind += 1;
        for s in v { self.nl(); self.e(s, EXPR); }
        self.ind -= 1;
        self.nl();
        self.p("}")
    }
    pub fn fun(&mut self, f: &Fun) {
        if !f.short { self.p("fn"); self.pw1(); }
        self.name_decl(&f.name);
        self.p("("); self.w("");
        for (i, a) in f.params.iter().enumerate() {
            if i > 0 { self.w(""); self.p(","); self.w(" "); }
            if a.mutable { self.p("mut "); }
            self.p(&a.name);
            if !a.lt.is_empty() || !a.ty.is_empty() {
                self.w(""); self.p(":"); self.w(" ");
                if !a.lt.is_empty() { self.p("'"); self.p(&a.lt); self.p(" "); }
                self.p(&a.ty);
            }
            if !a.lazy.is_empty() {
                self.w(" "); self.p("=>"); self.w(" ");
                for (i, l) in a.lazy.iter().enumerate() {
                    if i > 0 { self.w(" "); self.p("|"); self.w(" "); }
                    match l {
                        Lazy::Ok => self.p("ok(_)"), Lazy::Err => self.p("err(_)"), Lazy::Some => self.p("some(_)"),
                        Lazy::Lit(LazyLit::Num(n)) => { let t = num_lit(*n); self.p(&t) }
                        Lazy::Lit(LazyLit::Bool(b)) => self.p(&b.to_string()),
                        Lazy::Lit(LazyLit::Str(s)) => { let t = str_lit(s); self.p(&t) }
                    }
                }
            }
        }
        self.w(""); self.p(")");
        if !f.currents.is_empty() {
            self.w(" "); self.p("~"); self.w(" ");
            for (i, (m, n)) in f.currents.iter().enumerate() { if i > 0 { self.w(""); self.p(","); self.w(" "); } if *m { self.p("mut "); } self.p(n); }
        }
        if f.short {
            self.w(" "); self.p("="); self.w(" "); self.e(&f.body[0], EXPR);
        } else {
            if let Some(t) = &f.ret { self.w(" "); self.p("->"); self.w(" "); self.p(t); }
            self.w(" ");
            self.block(&f.body);
            for x in &f.extra { self.p("\n"); self.p(x); }
        }
        self.p("\n");
    }
}

pub fn text(p: &Prog) -> String { styled(p, None) }
pub fn styled(p: &Prog, style: Option<u64>) -> String {
    let mut w = P::new(style);
    for f in &p.funs { w.fun(f); }
    w.out
}
pub fn expr_text(e: &E) -> String { let mut w = P::new(None); w.e(e, EXPR); w.out }
/// Visits the direct subexpressions.
pub fn kids(e: &mut E, f: &mut dyn FnMut(&mut E)) {
    match e {
        E::Num(_) | E::Bool(_) | E::Str(_) | E::Const(_) | E::Mut(_) | E::Break(_) | E::Continue(_) | E::In(_) | E::Return(None) => {}
        E::Var(_, ids, _) => for (id, _) in ids { if let Id::E(x) = id { f(x) } },
        E::Vec4(v) | E::Mat4(v) | E::Arr(v) | E::Link(v) | E::Call(_, v) | E::Block(v) | E::Loop(_, v) => for x in v { f(x) },
        E::Fill(a, b) | E::Bin(_, a, b) | E::Assign(_, a, b) => { f(a); f(b) }
        E::Obj(kv) => for (_, x) in kv { f(x) },
        E::Neg(a) | E::Not(a) | E::Norm(a) | E::Swizzle(_, a) | E::TryQ(a) | E::TryE(a) | E::Paren(a) | E::Return(Some(a)) | E::VecUn(_, _, a) | E::Grab(_, a) | E::Clo(_, _, a) | E::Go(a) => f(a),
        E::CloCall(a, v) => { f(a); for x in v { f(x) } }
        E::If(cs, el) => { for (c, b) in cs { f(c); for x in b { f(x) } } if let Some(b) = el { for x in b { f(x) } } }
        E::ForC(_, a, b, c, v) => { f(a); f(b); f(c); for x in v { f(x) } }
        E::ForN(_, _, ixs, b) => { for i in ixs { if let Some(x) = &mut i.start { f(x) } if let Some(x) = &mut i.end { f(x) } } for x in b { f(x) } }
    }
}
