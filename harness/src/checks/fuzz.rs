//! C11: whatever the text and the values, the host gets a result or an error message, never a panic or an abort.
//! Three generators: programs without types whose operations meet values of every kind at run time, mutated program
//! text, and mutated data/syntax/document text. The oracle is the absence of a panic, and that a runtime that reported
//! an error still answers a known call.
use super::*;
use crate::dy::{self, V};
use crate::gen;
use dyon::{Module, Runtime};
use std::sync::{Arc, OnceLock};

/// Name, argument is `mut`, gives a value.
type Builtin = (String, Vec<bool>, bool);
/// Not called: they wait, read the input of the process, write files, or print.
pub const SKIP: &[&str] = &["sleep", "read_line", "read_number", "wait_next", "save__string_file", "save__data_file", "download__url_file", "load__meta_url", "load_string__url", "print", "println", "debug", "backtrace", "load", "load__source_imports", "load__source_imports_tr_usetr", "emit", "ev"];

/// Every function of the standard library, from the library's own listing.
fn builtins() -> &'static [Builtin] {
    static B: OnceLock<Vec<Builtin>> = OnceLock::new();
    B.get_or_init(|| {
        let m = dy::load("fn start() -> any {\n return functions()\n}\n").expect("loads").expect("loads");
        let mut r = vec![];
        if let dy::Res::Ok(V::Arr(a)) = dy::call(&mut Runtime::new(), &m, "start", &[], false) {
            for f in a {
                if let V::Obj(o) = f {
                    let name = match &o["name"] { V::Str(s) => s.clone(), _ => continue };
                    if matches!(&o["type"], V::Str(t) if t == "loaded") { continue }
                    let n = match &o["arguments"] { V::Arr(a) => a.len(), _ => continue };
                    let mut muts = vec![false; n];
                    let base = match name.find('(') { Some(i) => { for (j, p) in name[i + 1..name.len() - 1].split(',').enumerate() { if j < n { muts[j] = p == "mut" } } name[..i].to_string() } None => name.clone() };
                    if SKIP.contains(&&*base) { continue }
                    let ret = !matches!(&o["returns"], V::Str(t) if t == "void");
                    r.push((base, muts, ret));
                }
            }
        }
        r
    })
}

struct P<'a> { s: &'a mut Src, t: String, ind: usize, vars: Vec<String>, mutable: Vec<String>, n: usize, in_closure: usize, in_loop: usize, labels: usize }

impl<'a> P<'a> {
    fn line(&mut self, l: &str) { for _ in 0..self.ind { self.t.push(' ') } self.t.push_str(l); self.t.push('\n'); }
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
    fn var(&mut self) -> String { let i = self.s.us(self.vars.len()); self.vars[i].clone() }
    fn mvar(&mut self) -> String { if self.mutable.is_empty() { return "p0".into() } let i = self.s.us(self.mutable.len()); self.mutable[i].clone() }
    /// Hides the type from the checker.
    fn any(&mut self, d: usize) -> String { if d == 0 || self.s.chance(1, 3) { self.var() } else { let e = self.e(d - 1); format!("id({})", e) } }
    fn num(&mut self) -> String { self.s.pick(&["0", "1", "2", "3", "0.5", "4", "1e3", "1e18", "1e300", "10"]).to_string() }
    fn strl(&mut self) -> String {
        let x = match self.s.below(6) { 0 => "".into(), 1 => "f0".into(), 2 => "a".into(), 3 => gen::any_string(self.s, 5), 4 => self.s.pick(&["[1, {a: 2}]", "1 a = \"b\"", "fn f() -> { return 1 }", "\u{e9}\u{4e2d}x", "a\nb", "id", "f1", "-", "1e9"]).to_string(), _ => gen::ident(self.s) };
        dy::str_lit(&x)
    }
    fn args(&mut self, n: usize, d: usize) -> String { (0..n).map(|_| self.any(d)).collect::<Vec<_>>().join(", ") }
    fn path(&mut self) -> String {
        let mut p = self.mvar();
        let n = self.s.weighted(&[3, 4, 2]);
        for _ in 0..n { match self.s.below(4) { 0 => p.push_str(self.s.pick(&[".a", ".b", ".x"])), 1 => { let k = self.num(); p.push_str(&format!("[{}]", k)) } 2 => { let v = self.var(); p.push_str(&format!("[{}]", v)) } _ => p.push_str("[\"a\"]") } }
        p
    }
    fn e(&mut self, d: usize) -> String {
        if d == 0 {
            return match self.s.below(8) { 0..=3 => self.var(), 4 => self.num(), 5 => self.strl(), 6 => "true".into(), _ => "none()".into() };
        }
        let k = self.s.weighted(&[6, 5, 12, 4, 3, 3, 3, 2, 2, 2, 2, 3, 3, 3, 2, 2, 2, 2, 2, 1, 1, 2]);
        match k {
            0 => { let op = *self.s.pick(&["+", "-", "*", "/", "%", "^", "==", "!=", "<", "<=", ">", ">=", "*.", "x", "·", "⨯", "and", "or", "xor", "∧", "∨", "⊻"]); let a = self.any(d - 1); let b = self.any(d - 1); format!("{} {} {}", a, op, b) }
            1 => { let op = *self.s.pick(&["-", "!", "¬", "|", "det"]); let a = self.any(d - 1); match op { "|" => format!("|{}|", a), "det" => format!("det({})", a), o => format!("{}{}", o, a) } }
            2 => {
                let bs = builtins();
                let (name, muts, ret) = &bs[self.s.us(bs.len())];
                if !ret { return self.var() }
                self.call(name, muts, d)
            }
            3 => { let mut v = self.var(); for _ in 0..1 + self.s.us(2) { match self.s.below(5) { 0 => v.push_str(self.s.pick(&[".a", ".b"])), 1 => { let k = self.num(); v.push_str(&format!("[{}]", k)) } 2 => { let x = self.any(d - 1); v.push_str(&format!("[{}]", x)) } 3 => { if self.s.bool() { v.push_str(self.s.pick(&[".a?", "[0]?"])) } else { v.push_str("[\"a\"]") } } _ => v.push_str("[-1]") } } format!("{}", v) }
            4 => { let n = self.s.us(4); format!("[{}]", self.args(n, d - 1)) }
            5 => { let n = self.s.us(3); let f: Vec<String> = (0..n).map(|_| { let k = *self.s.pick(&["a", "b", "\"a b\"", "x"]); let v = self.any(d - 1); format!("{}: {}", k, v) }).collect(); format!("{{{}}}", f.join(", ")) }
            6 => { let n = 2 + self.s.us(3); let a: Vec<String> = (0..n).map(|_| if self.s.chance(1, 4) { let sw = *self.s.pick(&["xy", "zx", "yz", "wx"]); let v = self.var(); format!("{} {}", sw, v) } else { self.any(d - 1) }).collect(); format!("({})", a.join(", ")) }
            7 => { let a: Vec<String> = (0..4).map(|_| self.any(d - 1)).collect(); format!("mat4 {{{}}}", a.join("; ")) }
            8 => { let a = self.any(d - 1); let n = if self.s.chance(1, 3) { self.any(0) } else { self.s.pick(&["0", "3", "-1", "2.5", "1e300", "1e18"]).to_string() }; format!("[{}; {}]", a, n) }
            9 => { let n = self.s.us(4); let a: Vec<String> = (0..n).map(|_| self.any(d - 1)).collect(); format!("link {{ {} }}", a.join("\n ")) }
            10 => { let c = self.any(d - 1); let a = self.e(d - 1); let b = self.any(d - 1); format!("if {} {{ {} }} else {{ {} }}", c, a, b) }
            11 => self.fold(d),
            12 => { let mut n = self.s.us(3); let f = match self.s.below(3) { 0 => { n = 2; "f0".into() } 1 => { n = 1; "f1".into() } _ => format!("\\{}", self.var()) }; format!("{}({})", f, self.args(n, d - 1)) }
            13 => self.closure(d),
            14 => { let a = self.any(d - 1); format!("try {}", a) }
            15 => { let a = self.var(); format!("{}?", a) }
            16 => { let i = self.fresh("i"); self.vars.push(i.clone()); let b = self.any(d - 1); self.vars.retain(|x| *x != i); format!("{} {} {}", self.s.pick(&["vec4", "vec2", "vec3"]), i, b).replace("vec2", "vec4").replace("vec3", "vec4") }
            17 => { let f = *self.s.pick(&["f0", "f1", "id"]); let n = if f == "f0" { 2 } else { 1 }; format!("go {}({})", f, self.args(n, d - 1)) }
            18 => { let a = self.any(d - 1); let b = self.any(d - 1); format!("{} {} {}", a, self.s.pick(&["&&", "||"]), b) }
            19 => format!("in {}", self.s.pick(&["f0", "f1", "g0"])),
            20 => { let b = self.any(d - 1); format!("{{\n {}\n}}", b) }
            _ => { let a = self.any(d - 1); format!("t{}({})", self.s.us(6), a) }
        }
    }
    fn call(&mut self, name: &str, muts: &[bool], d: usize) -> String {
        let a: Vec<String> = muts.iter().map(|m| if *m { format!("mut {}", self.mvar()) } else if self.s.chance(1, 5) { self.e(d - 1) } else { self.any(d - 1) }).collect();
        format!("{}({})", name, a.join(", "))
    }
    fn closure(&mut self, d: usize) -> String {
        let n = self.s.us(3);
        let ps: Vec<String> = (0..n).map(|_| self.fresh("c")).collect();
        let outer = std::mem::take(&mut self.vars);
        let outer_m = std::mem::take(&mut self.mutable);
        self.vars = ps.clone();
        if self.s.bool() || ps.is_empty() { let g = outer[self.s.us(outer.len())].clone(); self.vars.push(format!("(grab {})", g)); }
        self.in_closure += 1;
        let b = self.e(d - 1);
        self.in_closure -= 1;
        self.vars = outer;
        self.mutable = outer_m;
        format!("\\({}) = id({})", ps.join(", "), b)
    }
    fn range(&mut self) -> String {
        match self.s.below(6) { 0 => String::new(), 1 => { let v = self.var(); format!(" {}", v) } 2 => { let n = self.s.pick(&["0", "2", "3"]).to_string(); format!(" {}", n) } 3 => { let a = self.var(); let b = self.var(); format!(" [{}, {})", a, b) } 4 => " [1, 3)".into(), _ => { let v = self.var(); format!(" len({})", v) } }
    }
    fn fold(&mut self, d: usize) -> String {
        let k = *self.s.pick(&["∑", "∏", "sum", "prod", "min", "max", "any", "all", "∃", "∀", "sift", "link", "sum_vec4", "prod_vec4"]);
        let n = 1 + self.s.weighted(&[4, 1]);
        let old = self.vars.clone();
        let mut hd = vec![];
        if self.s.chance(1, 6) { let i = self.fresh("m"); let v = self.any(1); hd.push(format!(" {} in {}", i, v)); self.vars.push(i); }
        else { for k in 0..n { let i = self.fresh("i"); let v = self.var(); let r = if k + 1 < n { self.s.pick(&[" 2", " [1, 3)", " 0", ""]).to_string() } else { self.range() }; hd.push(format!(" {}{}", i, r)); self.vars.push(i.clone()); if self.s.chance(1, 2) { self.vars.push(format!("{}[{}]", v, i)) } } }
        self.in_loop += 1;
        let b = self.any(d - 1);
        self.in_loop -= 1;
        self.vars = old;
        format!("{}{} {{ ev(0, {}) }}", k, hd.join(","), b)
    }
    fn block(&mut self, d: usize, n: usize) {
        let (v, m) = (self.vars.len(), self.mutable.len());
        self.ind += 1;
        if self.in_loop > 0 { self.line("emit(0)"); }
        for _ in 0..1 + self.s.us(n.max(1)) { self.stmt(d) }
        self.ind -= 1;
        self.vars.truncate(v);
        self.mutable.truncate(m);
    }
    /// Most statements fail for most values: keep going after some of the failures.
    fn stmt(&mut self, d: usize) {
        let mut k = self.s.weighted(&[6, 5, 4, 3, 2, 3, 1, 1]);
        // Nested blocks are slow to parse.
        if self.ind > 3 && matches!(k, 3 | 4) { k = 0 }
        let wrap = self.ind < 3 && matches!(k, 1 | 2 | 3 | 4 | 5) && self.s.chance(3, 5);
        if wrap { let v = self.fresh("w"); self.line(&format!("{} := try {{", v)); self.ind += 1; }
        self.stmt_of(k, d);
        if wrap { self.line("1"); self.ind -= 1; self.line("}"); }
    }
    fn stmt_of(&mut self, k: usize, d: usize) {
        match k {
            0 => {
                let v = self.fresh("v");
                match self.s.below(8) {
                    0 | 1 => { let e = self.e(d); self.line(&format!("{} := {}", v, e)) }
                    2 | 3 => { let e = self.e(d); self.line(&format!("{} := id({})", v, e)) }
                    4 => { let e = self.any(d); self.line(&format!("{} := try {}", v, e)) }
                    _ => { let e = self.any(d); self.line(&format!("r{} := try {}", v, e)); self.line(&format!("{} := or0(r{})", v, v)) }
                }
                self.vars.push(v.clone());
                self.mutable.push(v);
            }
            1 => {
                let op = *self.s.pick(&["=", "=", ":=", "+=", "-=", "*=", "/=", "%=", "^="]);
                let p = self.path();
                let e = if self.in_loop > 0 && op != "=" { self.num() } else { self.any(d) };
                if op == ":=" && !p.contains('.') && !p.contains('[') { self.line(&format!("{} = {}", p, e)); } else { self.line(&format!("{} {} {}", p, op, e)); }
            }
            2 => {
                let bs: Vec<&Builtin> = builtins().iter().filter(|b| !b.2).collect();
                let (name, muts, _) = bs[self.s.us(bs.len())];
                let c = self.call(name, muts, d.min(2));
                self.line(&c);
            }
            3 => {
                let i = self.fresh("i");
                let lab = if self.s.chance(1, 4) { self.labels += 1; format!("'l{}: ", self.labels) } else { String::new() };
                match self.s.below(4) {
                    0 => { let r = self.range(); self.line(&format!("{}for {}{} {{", lab, i, r)); self.vars.push(i.clone()); let o = self.var(); self.vars.pop(); let _ = o; }
                    1 => { let (a, b) = (self.var(), self.var()); self.line(&format!("{}for {} := {}; {} < {}; {} += 1 {{", lab, i, a, i, b, i)); }
                    2 => { let v = self.any(1); self.line(&format!("{}for {} in {} {{", lab, i, v)); }
                    _ => { self.line(&format!("{}loop {{", lab)); self.line(" emit(0)"); let c = self.any(1); self.line(&format!(" if {} {{", c)); self.line("  break"); self.line(" }"); self.in_loop += 1; self.block(d.min(1), 2); self.in_loop -= 1; self.line("}"); return; }
                }
                self.in_loop += 1;
                self.vars.push(i);
                self.block(d.min(2), 2);
                self.vars.pop();
                self.in_loop -= 1;
                self.line("}");
            }
            4 => { let c = self.any(d); self.line(&format!("if {} {{", c)); self.block(d.min(2), 2); if self.s.bool() { self.line("} else {"); self.block(d.min(2), 2); } self.line("}"); }
            5 => { let v = self.mvar(); let e = self.any(d); match self.s.below(3) { 0 => self.line(&format!("g1(mut {}, {})", v, e)), 1 => self.line(&format!("g2(mut {}, {})", v, e)), _ => self.line(&format!("g0({})", e)) } }
            6 => { let e = self.any(d); let c = self.fresh("cu"); self.line(&format!("~ {} := {}", c, e)); }
            _ => { if self.in_loop > 0 && self.s.bool() { self.line("break"); } else { let e = self.any(1); self.line(&format!("return clone({})", e)); } }
        }
    }
}

const HELPERS: &str = "fn or0(r) -> any {\n if is_ok(r) {\n  return unwrap(r)\n }\n return 0\n}\nfn id(x) -> any {\n return clone(x)\n}\nfn f0(x, y) -> any {\n return [clone(x), clone(y)]\n}\nfn f1(x) ~ cu1 -> any {\n return cu1 + x\n}\nfn g0(x) {\n y := clone(x)\n y = 1\n}\nfn g1(mut x, y) {\n x[y] = clone(y)\n}\nfn g2(mut x, y) {\n x += y\n}\nfn t0(x: f64) -> f64 {\n return x + 1\n}\nfn t1(x: str) -> str {\n return x + \"a\"\n}\nfn t2(x: [f64]) -> f64 {\n return sum i { x[i] }\n}\nfn t3(x: opt[f64]) -> f64 {\n return unwrap(x) + 1\n}\nfn t4(x: sec[bool]) -> any {\n return why(x)\n}\nfn t5(x: \\(f64) -> f64) -> f64 {\n return \\x(1)\n}\n";

fn program(s: &mut Src) -> String {
    let mut p = P { s, t: String::from(HELPERS), ind: 1, vars: vec![], mutable: vec![], n: 10, in_closure: 0, in_loop: 0, labels: 0 };
    p.vars = (0..4).map(|i| format!("p{}", i)).collect();
    p.t.push_str("fn start(p0, p1, p2, p3) -> any {\n");
    // Values only a program can make.
    for (v, e) in [("q0", "\\(x) = x + 1"), ("q1", "module__in_string_imports(\"m\", \"fn f0() -> any {\\n return 1\\n}\\n\", [])"), ("q2", "in f0"), ("q3", "go f0(1, 2)"), ("q4", "syntax__in_string(\"s\", \"1 a = .$:\\\"n\\\"\")"), ("q5", "\\(x, y) = (x, y)"), ("q6", "clone(p0)"), ("q7", "clone(p1)"), ("q8", "unwrap(q1)"), ("q9", "unwrap(q4)")] {
        if matches!(v, "q6" | "q7") || p.s.chance(1, 4) {
            if v == "q8" && !p.vars.contains(&"q1".to_string()) || v == "q9" && !p.vars.contains(&"q4".to_string()) { continue }
            p.line(&format!("{} := id({})", v, e));
            p.vars.push(v.into());
            p.mutable.push(v.into());
        }
    }
    if p.s.chance(1, 4) { let v = p.var(); p.line(&format!("~ cu1 := clone({})", v)); }
    let n = 1 + p.s.us(6);
    for _ in 0..n { let d = if p.s.chance(1, 5) { 3 } else { 2 }; p.stmt(d) }
    let e = p.any(2);
    p.line(&format!("return clone({})", e));
    p.t.push_str("}\n");
    p.t
}

fn val(s: &mut Src) -> V {
    let o = gen::ValOpts { nums: gen::any_num, f32s: gen::any_f32, links: true, opts: true, results: true, mats: true, vecs: true };
    match s.below(8) {
        0 => V::Num(gen::small_num(s)),
        1 => V::Sec(Box::new(if s.bool() { V::Bool(s.bool()) } else { V::Num(gen::small_num(s)) }), (0..s.us(3)).map(|_| V::Num(1.0)).collect()),
        2 => { let n = s.us(4); V::Arr((0..n).map(|_| V::Num(gen::small_num(s))).collect()) }
        3 => { let n = s.us(4); V::Arr((0..n).map(|_| V::Obj([("a".to_string(), V::Num(1.0)), ("b".to_string(), V::Arr(vec![V::Num(1.0)]))].into_iter().collect())).collect()) }
        _ => gen::value(s, &o, 2),
    }
}

fn ping(o: &mut Outcome, rt: &mut Runtime, m: &Arc<Module>) {
    let (a, b) = (rt.stack.len(), rt.current_stack.len());
    if a != 0 || b != 0 { /* a failed call may leave values; they are cleared by the next host call */ }
    match dy::call(rt, m, "t0", &[V::Num(2.0)], false) { dy::Res::Ok(V::Num(x)) if x == 3.0 => {} r => o.fail(format!("after the call, t0(2) gave {:?}", r)) }
}

fn dynamic(s: &mut Src) -> Outcome {
    let src = program(s);
    let args: Vec<V> = (0..4).map(|_| val(s)).collect();
    if std::env::var("SHOW_SRC").is_ok() { println!("{}\n{:?}", src, args) }
    let mut o = Outcome::of(format!("{}\n{:?}", src, args));
    dy::take_log();
    dy::LIMIT.with(|l| l.set(16));
    match dy::load(&src) {
        Err(p) => o.fail(format!("panic while loading: {}", p)),
        Ok(Err(e)) => { if std::env::var("SHOW_SRC").is_ok() { println!("rejected: {}", e) } o.label("rejected at load"); o.nontrivial = s.rec.len() > 30 }
        Ok(Ok(m)) => {
            o.nontrivial = true;
            let mut rt = Runtime::new();
            match dy::call(&mut rt, &m, "start", &args, true) {
                dy::Res::Panic(p) => o.fail(format!("panic while running: {}", p)),
                dy::Res::RunErr(e) => { if std::env::var("SHOW_SRC").is_ok() { println!("error: {}", e) } o.label(if e.contains(dy::LIMIT_MSG) { "stopped" } else { "run-time error" }); ping(&mut o, &mut rt, &m) }
                _ => { o.label("returned"); ping(&mut o, &mut rt, &m) }
            }
        }
    }
    o
}

/// Splits text into words, numbers, strings and signs; spaces and newlines are tokens of their own.
fn tokens(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let mut r = vec![];
    let mut i = 0;
    while i < c.len() {
        let j = i;
        if c[i].is_alphanumeric() || c[i] == '_' { while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1 } }
        else if c[i] == '"' { i += 1; while i < c.len() && c[i] != '"' { if c[i] == '\\' { i += 1 } i += 1 } i = (i + 1).min(c.len()) }
        else if c[i] == ' ' { while i < c.len() && c[i] == ' ' { i += 1 } }
        else { i += 1 }
        r.push(c[j..i].iter().collect());
    }
    r
}
const DICT: &[&str] = &["fn", "mut", "return", "if", "else", "for", "loop", "break", "continue", "grab", "go", "in", "try", "link", "vec4", "mat4", "clone", "sum", "∑", "min", "sift", "any", "all", "use", "ns", "as", "~", "->", ":=", "=", "+=", "'", "'a", "'return", "?", ".", ",", ";", ":", "::", "(", ")", "[", "]", "{", "}", "\\", "|", "+", "-", "*", "/", "%", "^", "<", "==", "&&", "||", "!", "x", "y", "0", "1", "2.5", "1e400", "99999999999999999999999", "\"\"", "\"\\u12\"", "#ff00aa", "#", "none()", "some(1)", "ok(1)", "_", "__", "a", "f64", "str", "bool", "[f64]", "opt[f64]", "res[any]", "sec[bool]", "sec[f64]", "thr[f64]", "in[f64]", "{}", "any", "all T", "km f64", "\\(f64) -> f64", "=>", "//", "/*", "*/", "\n", "\t", " ", "é", "中", "\u{0}", "start", "id", "f0", "xy", "xyzw", "x p0", "return(", "(mut,_)", "foo__a_b", "(a: 1)", "{ }", "[,]", "()", "mut mut", "if if", "\"", "{", "in q::f", "1, 2", "[1; 2]"];

fn mutate(s: &mut Src, t: &str, donor: &str) -> String {
    let mut t = t.to_string();
    // Whole lines.
    if s.chance(1, 3) {
        let mut l: Vec<String> = t.lines().map(|x| x.to_string()).collect();
        for _ in 0..1 + s.us(3) {
            if l.is_empty() { break }
            let (i, j) = (s.us(l.len()), s.us(l.len()));
            match s.below(4) { 0 => { l.remove(i); } 1 => { let x = l[i].clone(); l.insert(j, x) } 2 => l.swap(i, j), _ => { let d: Vec<&str> = donor.lines().collect(); if !d.is_empty() { let k = s.us(d.len()); l.insert(i, d[k].to_string()) } } }
        }
        t = l.join("\n") + "\n";
        if s.bool() { return t }
    }
    let mut ts = tokens(&t);
    let ds = tokens(donor);
    if s.chance(1, 3) {
        // Words for words: mostly still a program.
        for _ in 0..1 + s.us(3) {
            let words: Vec<usize> = (0..ts.len()).filter(|&j| ts[j].chars().next().map_or(false, |c| c.is_alphanumeric())).collect();
            if words.len() > 1 { let a = words[s.us(words.len())]; let b = words[s.us(words.len())]; ts[a] = ts[b].clone() }
        }
        return ts.concat()
    }
    let n = 1 + s.weighted(&[5, 4, 3, 2, 1]);
    for _ in 0..n {
        if ts.is_empty() { break }
        let i = s.us(ts.len());
        match s.below(9) {
            0 => { ts.remove(i); }
            1 => { let d = s.pick(DICT).to_string(); ts.insert(i, d) }
            2 => { let d = s.pick(DICT).to_string(); ts[i] = d }
            3 => { let j = s.us(ts.len()); ts.swap(i, j) }
            4 => { let j = (i + 1 + s.us(6)).min(ts.len()); let c: Vec<String> = ts[i..j].to_vec(); let k = s.us(ts.len()); for (x, y) in c.into_iter().enumerate() { ts.insert((k + x).min(ts.len()), y) } }
            5 => { let j = (i + 1 + s.us(12)).min(ts.len()); ts.drain(i..j); }
            6 if !ds.is_empty() => { let a = s.us(ds.len()); let b = (a + 1 + s.us(8)).min(ds.len()); for (x, y) in ds[a..b].iter().enumerate() { ts.insert(i + x, y.clone()) } }
            7 => { let mut c: Vec<char> = ts[i].chars().collect(); let k = s.us(c.len() + 1); let ch = gen::any_char(s); if s.bool() || k >= c.len() { c.insert(k, ch) } else { c[k] = ch } ts[i] = c.into_iter().collect() }
            _ => { let words: Vec<usize> = (0..ts.len()).filter(|&j| ts[j].chars().next().map_or(false, |c| c.is_alphanumeric())).collect(); if words.len() > 1 { let a = words[s.us(words.len())]; let b = words[s.us(words.len())]; ts[a] = ts[b].clone() } }
        }
    }
    ts.concat()
}
/// Parsing backtracks: the cost grows quickly with nesting. Whitespace of several bytes: a finding of its own (probe).
fn too_deep(t: &str) -> bool {
    let mut d = 0i32;
    let mut mx = 0;
    let mut unary = 0;
    for c in t.chars() { match c { '(' | '[' | '{' => { d += 1; mx = mx.max(d) } ')' | ']' | '}' => d -= 1, '\\' => unary += 1, _ => {} } }
    t.chars().any(|c| c.is_whitespace() && c.len_utf8() > 1) || mx > 7 || t.len() > 6000 || unary > 40
}

/// Closures within closures or several operators in front of blocks are the slowest to parse.
fn closures_nested(t: &str) -> bool {
    let mut d = 0i32;
    let mut open: Vec<i32> = vec![];
    let c: Vec<char> = t.chars().collect();
    for i in 0..c.len() {
        match c[i] { '{' | '(' | '[' => d += 1, '}' | ')' | ']' => { d -= 1; while open.last().map_or(false, |&x| x > d) { open.pop(); } } '\\' if c.get(i + 1) == Some(&'(') => { open.push(d); if open.len() > 3 { return true } } '\n' => while open.last().map_or(false, |&x| x == d) { open.pop(); }, _ => {} }
    }
    false
}

fn texts(s: &mut Src) -> Outcome {
    let t = match s.below(4) { 0 => { let p = super::config::any_prof(s); let mut g = crate::progen::G::new(s, p); let (p, _) = g.program(); crate::lang::text(&p) } 1 => HELPERS.to_string() + "fn start() {\n}\n", _ => program(s) };
    let donor = if s.bool() { HELPERS.to_string() } else { program(s) };
    let t = mutate(s, &t, &donor);
    if std::env::var("SHOW_SRC").is_ok() { println!("{}", t) }
    let mut o = Outcome::of(t.clone());
    if too_deep(&t) || closures_nested(&t) { o.discard = true; return o }
    // Backtracking takes exponential time on some texts: those are left out.
    let (tx, rx) = std::sync::mpsc::channel();
    let t2 = t.clone();
    std::thread::Builder::new().name("load".into()).stack_size(256 << 20).spawn(move || { let _ = tx.send(dy::load(&t2).map(|r| r.map(|_| ()))); }).unwrap();
    let r = match rx.recv_timeout(std::time::Duration::from_secs(4)) { Ok(r) => r, Err(_) => { o.discard = true; o.label("slow to parse"); return o } };
    match r {
        Err(p) => o.fail(format!("panic while loading: {}", p)),
        Ok(Err(e)) => { o.label(if e.contains("Error #") || e.contains("Expected:") { "syntax error" } else { "rejected at load" }); o.nontrivial = true }
        Ok(Ok(_)) => { o.label("accepted"); o.nontrivial = true }
    }
    // The checker alone gives the same verdict.
    o
}

fn other(s: &mut Src) -> Outcome {
    let (f, base): (&str, &str) = match s.below(4) {
        0 => ("load_data__string", *s.pick(&["{a: [1, 2.5, \"x\\n\"], b: some(3), \"c d\": #ffaa00, e: (1, 2, 3, 4)}", "[link { 1 true \"a\" }, none(), ok(1), err(\"x\"), // c\n /* d */ -1e5]"])),
        1 => ("syntax__in_string", *s.pick(&["_seps: \"(){}[],.;:\\\"\"\n1 a = [.w? .$:\"n\" .s?.(, b:\"b\")]\n2 b = {\"x\":\"t\" \"y\":!\"t\" .t!:\"s\"}\n100 document = [.l(a:\"a\") ?w .._seps!:\"e\"]", "1 a = .$_:\"n\"\n2 b = [a .r?(\",\" a) ...\";\"?:\"rest\"]"])),
        2 => ("meta", *s.pick(&["1 \"abc\" x;\n2 \"é\" y;", "-1.5e3 \"\\u0041\" x;"])),
        _ => ("fmt", *s.pick(&["{\n a: [1, 2]\n \"x\\\"y\": \"z // {\"\n} // end\n", "/* [ */ (1, 2) \"[\"\n{ }\n\n\n"])),
    };
    let donor = *s.pick(&["{a: 1}", "_seps: \"\"", "\"\\\\\"", "[[[[1]]]]"]);
    let t = mutate(s, base, donor);
    let src = match f {
        "meta" => "fn start(x: str) -> any {\n s := unwrap(syntax__in_string(\"s\", \"_seps: \\\";\\\"\\n1 row = [.$:\\\"n\\\" .w! .t?:\\\"s\\\" .w! {[\\\"x\\\":\\\"b\\\"] [\\\"y\\\":!\\\"b\\\"] .._seps!:\\\"o\\\"} \\\";\\\"]\\n2 document = .r?([?w row:\\\"row\\\" ?w])\"))\n m := meta(syntax: s, in: \"d\", string: x)\n if is_ok(m) {\n  return json_from_meta_data(unwrap(m))\n }\n return unwrap_err(m)\n}\nfn t0(x: f64) -> f64 {\n return x + 1\n}\n".replace("meta(syntax: s, in: \"d\", string: x)", "meta__syntax_in_string(s, \"d\", x)"),
        "fmt" => "fn start(x: str) -> any {\n return fmt__tab_string(4, x)\n}\nfn t0(x: f64) -> f64 {\n return x + 1\n}\n".into(),
        f => format!("fn start(x: str) -> any {{\n r := {}({}x)\n return is_ok(r)\n}}\nfn t0(x: f64) -> f64 {{\n return x + 1\n}}\n", f, if f == "syntax__in_string" { "\"s\", " } else { "" }),
    };
    let mut o = Outcome::of(format!("{} {}", f, t));
    o.nontrivial = true;
    if too_deep(&t) { o.discard = true; return o }
    let m = match dy::load(&src) { Ok(Ok(m)) => m, r => { o.fail(format!("driver: {:?}", r.map(|r| r.map(|_| ())))); return o } };
    let mut rt = Runtime::new();
    match dy::call(&mut rt, &m, "start", &[V::Str(t)], false) {
        dy::Res::Panic(p) => o.fail(format!("panic in {}: {}", f, p)),
        dy::Res::RunErr(_) => { o.label("text: run-time error"); ping(&mut o, &mut rt, &m) }
        dy::Res::Ok(v) => { o.label(match v { V::Bool(true) => "text: read", V::Bool(false) => "text: rejected", _ => "text: answered" }); ping(&mut o, &mut rt, &m) }
        dy::Res::LoadErr(_) => {}
    }
    o
}

/// Built-in functions called by the host with arbitrary values.
fn host(s: &mut Src) -> Outcome {
    static M: OnceLock<Arc<Module>> = OnceLock::new();
    let m = M.get_or_init(|| dy::load(HELPERS).expect("loads").expect("loads"));
    let mut o = Outcome::default();
    let mut rt = Runtime::new();
    let n = 1 + s.us(4);
    let mut d = String::new();
    for _ in 0..n {
        let bs = builtins();
        let (name, muts, _) = &bs[s.us(bs.len())];
        let k = if s.chance(1, 6) { s.us(5) } else { muts.len() };
        let args: Vec<V> = (0..k).map(|_| val(s)).collect();
        let full = if muts.iter().any(|m| *m) { format!("{}({})", name, muts.iter().map(|m| if *m { "mut" } else { "_" }).collect::<Vec<_>>().join(",")) } else { name.clone() };
        d.push_str(&format!("{} {:?}\n", full, args));
        let r = if s.bool() { dy::call(&mut rt, m, &full, &args, true) } else {
            let a: Vec<dyon::Variable> = args.iter().map(dy::to_var).collect();
            match crate::engine::guard(|| rt.call_str(&full, &a, m)) { Err(p) => dy::Res::Panic(p), Ok(Err(e)) => dy::Res::RunErr(e), Ok(Ok(())) => dy::Res::Ok(V::Void) }
        };
        match r { dy::Res::Panic(p) => o.fail(format!("panic in {}: {}", full, p)), dy::Res::RunErr(_) => o.label("host: error"), _ => o.label("host: returned") }
        if o.violation.is_some() { break }
        ping(&mut o, &mut rt, m);
    }
    let l = o.labels.clone();
    let v = o.violation.take();
    let mut o = Outcome::of(d);
    o.labels = l;
    o.violation = v;
    o.nontrivial = true;
    o
}

fn case(s: &mut Src, _: &Cfg) -> Outcome {
    match s.below(9) { 8 => return host(s), k => { let _ = k; } }
    match s.below(8) { 0..=3 => dynamic(s), 4..=6 => texts(s), _ => other(s) }
}

/// The tokenizer dependency counts a multi-byte space as one byte when it looks for the line of a position.
fn probes(_: &Cfg) -> Vec<Probe> {
    let fails = dy::load("fn main() {\n}\u{2028}\nfn b() {\n}\n").is_err();
    vec![Probe { name: "multibyte-space-line", fails, desc: "loading a program with U+2028 between two functions panics".into() }]
}

pub fn check() -> Check { Check { id: "C11", quick: 13_000, thorough: 5_000_000, case, rule: "the program was loaded and run, or the text was mutated", probes, assumptions: &["recursion and nesting are bounded (stack depth and parser backtracking are not the subject)"] } }
