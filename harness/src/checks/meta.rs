//! C24: meta parsing from programs. A random syntax is generated together with texts of that syntax and the meta data
//! each text stands for; the JSON made of meta data is read back by a reader of its own.
use super::*;
use crate::dy::{self, Res, V};
use crate::gen;
use dyon::{Module, Runtime};
use std::sync::{Arc, OnceLock};

/// Every tag is `<n>` with a number of its own, so a derivation can be read in one way only.
enum R { Tag(usize, Option<(bool, String)>), Num(Option<String>, bool), Text(Option<String>, bool), Word(Option<String>), Rest(Option<String>, usize), Ws(bool), Not(usize, Option<(bool, String)>), Seq(Vec<R>), Sel(Vec<R>), Opt(Box<R>), Rep(Box<R>, bool), Sep(Box<R>, bool, bool, usize), Node(usize, Option<String>), Lines(Box<R>) }

struct G<'a> { s: &'a mut Src, tags: usize, nodes: Vec<R> }
impl<'a> G<'a> {
    fn name(&mut self) -> String { match self.s.below(6) { 0 => self.s.pick(&["a b", "\u{e9}", "q\\\"q", "tab", "x/y"]).replace("\\\"", "'"), 1 | 2 => gen::ident(self.s), _ => self.s.pick(&["name", "val", "item", "kind", "x"]).to_string() } }
    fn prop(&mut self) -> Option<String> { if self.s.chance(3, 4) { Some(self.name()) } else { None } }
    fn tag(&mut self) -> R { self.tags += 1; let p = self.prop(); let inv = self.s.chance(1, 3); R::Tag(self.tags, p.map(|p| (inv, p))) }
    /// Starts with a tag of its own.
    fn tagged(&mut self, d: usize) -> R {
        if d > 0 && self.s.chance(1, 4) {
            let r = self.tagged(d - 1);
            self.nodes.push(r);
            let k = self.nodes.len() - 1;
            return R::Node(k, self.prop());
        }
        let mut v = vec![self.tag()];
        for _ in 0..self.s.us(3) { let r = self.rule(d.saturating_sub(1)); v.push(r); }
        if v.len() == 1 && self.s.bool() { v.pop().unwrap() } else { R::Seq(v) }
    }
    fn rule(&mut self, d: usize) -> R {
        let k = if d == 0 { self.s.below(6) } else { self.s.below(16) };
        match k {
            0 => self.tag(),
            // A tag behind it, so that what follows cannot be taken for part of it.
            1 => { let n = R::Num(self.prop(), self.s.bool()); R::Seq(vec![n, self.tag()]) }
            2 => { let p = self.prop(); R::Text(p, self.s.bool()) }
            3 => { let w = R::Word(self.prop()); R::Seq(vec![w, self.tag()]) }
            4 => { let w = R::Ws(self.s.bool()); R::Seq(vec![w, self.tag()]) }
            5 => { self.tags += 1; let k = self.tags; let p = self.prop(); let inv = self.s.chance(1, 3); let n = R::Not(k, p.map(|p| (inv, p))); R::Seq(vec![n, self.tag()]) }
            6 | 7 => { let n = 1 + self.s.us(4); R::Seq((0..n).map(|_| self.rule(d - 1)).collect()) }
            8 | 9 => { let n = 1 + self.s.us(3); R::Sel((0..n).map(|_| self.tagged(d - 1)).collect()) }
            10 => R::Opt(Box::new(self.tagged(d - 1))),
            11 => R::Rep(Box::new(self.tagged(d - 1)), self.s.bool()),
            12 => { let r = self.tagged(d - 1); self.tags += 1; R::Sep(Box::new(r), self.s.bool(), self.s.bool(), self.tags) }
            13 => { self.tags += 1; R::Rest(self.prop(), self.tags) }
            _ => { let r = self.rule(d - 1); self.nodes.push(r); let k = self.nodes.len() - 1; R::Node(k, self.prop()) }
        }
    }
}
fn q(t: &str) -> String { format!("\"{}\"", t.replace('\\', "\\\\").replace('"', "\\\"")) }
fn pr(p: &Option<String>) -> String { match p { Some(p) => format!(":{}", q(p)), None => String::new() } }
fn ip(p: &Option<(bool, String)>) -> String { match p { Some((i, p)) => format!(":{}{}", if *i { "!" } else { "" }, q(p)), None => String::new() } }
fn syn(r: &R) -> String {
    let many = |v: &[R]| v.iter().map(syn).collect::<Vec<_>>().join(" ");
    match r {
        R::Tag(k, p) => format!("\"<{}>\"{}", k, ip(p)),
        R::Not(k, p) => format!("!\"<{}>\"{}", k, ip(p)),
        R::Num(p, u) => format!(".${}{}", if *u { "_" } else { "" }, pr(p)),
        R::Text(p, e) => format!(".t{}{}", if *e { "?" } else { "!" }, pr(p)),
        R::Word(p) => format!(".._seps!{}", pr(p)),
        R::Rest(p, k) => format!("[...\"<\"?{} \"<{}>\"]", pr(p), k),
        R::Ws(b) => if *b { ".w!".into() } else { ".w?".into() },
        R::Seq(v) => format!("[{}]", many(v)),
        R::Sel(v) => format!("{{{}}}", many(v)),
        R::Opt(r) => format!("?{}", syn(r)),
        R::Rep(r, m) => format!(".r{}({})", if *m { "!" } else { "?" }, syn(r)),
        R::Sep(r, m, t, k) => format!(".s{}{}(\"<{}>\" {})", if *m { "!" } else { "?" }, if *t { "." } else { "" }, k, syn(r)),
        R::Node(k, p) => format!("n{}{}", k, pr(p)),
        R::Lines(r) => format!(".l({})", syn(r)),
    }
}
struct D<'a> { s: &'a mut Src, nodes: &'a [R], t: String, toks: Vec<V>, tags: Vec<usize>, fuel: i32 }
impl<'a> D<'a> {
    fn tok(&mut self, at: usize, kind: &str, name: &str, v: Option<V>) {
        let mut a = vec![V::Num(at as f64), V::Num((self.t.len() - at) as f64), V::str(kind), V::str(name)];
        a.extend(v);
        self.toks.push(V::Arr(a));
    }
    fn lit(&mut self, k: usize) { self.tags.push(self.t.len()); self.t.push_str(&format!("<{}>", k)); }
    fn go(&mut self, r: &R) {
        self.fuel -= 1;
        let at = self.t.len();
        match r {
            R::Tag(k, p) => { self.lit(*k); if let Some((i, p)) = p { self.tok(at, "bool", p, Some(V::Bool(!*i))) } }
            R::Not(_, p) => if let Some((i, p)) = p { self.tok(at, "bool", p, Some(V::Bool(!*i))) },
            R::Num(p, u) => {
                let (t, x) = match self.s.below(5) { 0 => ("0".to_string(), 0.0), 1 => { let n = self.s.below(100000) as f64; (format!("{}", n), n) } 2 => { let n = self.s.below(1000) as f64 / 8.0; (format!("{}", n), n) } 3 => { let n = self.s.below(50) as f64; (format!("{}e2", n), n * 100.0) } _ => if *u { ("12_000_5".to_string(), 120005.0) } else { let n = 0.5 + self.s.below(9) as f64; (format!("-{}", n), -n) } };
                self.t.push_str(&t);
                if let Some(p) = p { self.tok(at, "f64", p, Some(V::Num(x))) }
            }
            R::Text(p, empty) => {
                let mut x: String = gen::any_string(self.s, 5).chars().filter(|c| *c != '\0').collect();
                if x.is_empty() && !*empty { x = "t".into() }
                self.t.push('"');
                for c in x.chars() { match c { '"' => self.t.push_str("\\\""), '\\' => self.t.push_str("\\\\"), '\n' if self.s.bool() => self.t.push_str("\\n"), '\t' if self.s.bool() => self.t.push_str("\\t"), c if (c as u32) < 0xd800 && self.s.chance(1, 8) => self.t.push_str(&format!("\\u{:04x}", c as u32)), c => self.t.push(c) } }
                self.t.push('"');
                if let Some(p) = p { self.tok(at, "str", p, Some(V::Str(x))) }
            }
            R::Word(p) => { let x = match self.s.below(4) { 0 => "\u{e9}\u{4e2d}\u{1f600}".to_string(), 1 => "a-b_c".into(), _ => gen::ident(self.s) }; self.t.push_str(&x); if let Some(p) = p { self.tok(at, "str", p, Some(V::Str(x))) } }
            R::Rest(p, k) => { let x = self.s.pick(&["", "free text, \"with\" signs", "\u{e9} \n x", " ", "a\tb>"]).to_string(); self.t.push_str(&x); if let Some(p) = p { self.tok(at, "str", p, Some(V::Str(x))) } self.lit(*k) }
            R::Ws(must) => { if *must { self.t.push(' ') } for _ in 0..self.s.us(3) { let w = *self.s.pick(&[" ", "\n", "\t", "\r\n"]); self.t.push_str(w) } }
            R::Seq(v) => for r in v { self.go(r) },
            R::Sel(v) => { let i = self.s.us(v.len()); self.go(&v[i]) }
            R::Opt(r) => if self.fuel > 0 && self.s.bool() { self.go(r) },
            R::Rep(r, must) => { if *must { self.go(r) } while self.fuel > 0 && self.s.chance(1, 2) { self.go(r) } }
            R::Sep(r, must, trail, k) => {
                let n = if *must { 1 } else { 0 } + if self.fuel > 0 { self.s.us(3) } else { 0 };
                for i in 0..n { if i > 0 { self.lit(*k) } self.go(r) }
                if n > 0 && *trail && self.s.chance(1, 3) { self.lit(*k) }
            }
            R::Node(k, p) => {
                if let Some(p) = p { self.toks.push(V::Arr(vec![V::Num(at as f64), V::Num(0.0), V::str("start"), V::str(p.clone())])) }
                let n: &'a [R] = self.nodes;
                self.go(&n[*k]);
                if let Some(p) = p { self.tok(at, "end", p, None) }
            }
            R::Lines(r) => { let n = 1 + self.s.us(4); for i in 0..n { if i > 0 { let w = *self.s.pick(&["\n", "\n\n", "\n \n"]); self.t.push_str(w) } self.go(r) } if self.s.bool() { self.t.push('\n') } }
        }
    }
}

const PROG: &str = r#"
fn parse(syn: str, t: str) -> any {
    s := syntax(in: "syntax", string: syn)
    if is_err(s) { return err(["syntax", unwrap_err(s)]) }
    s := unwrap(s)
    return clone(meta(syntax: s, in: "text", string: t))
}
fn twice(syn: str, a: str, b: str) -> any {
    s := unwrap(syntax(in: "syntax", string: syn))
    x := meta(syntax: s, in: "a", string: a)
    y := meta(syntax: s, in: "b", string: b)
    return [clone(x), clone(y)]
}
fn parse_file(syn: str, t: str) -> any { return clone(load(meta: syn, file: t)) }
fn json(d: [[]]) -> any { return json_from_meta_data(d) }
"#;
fn module() -> Arc<Module> { static M: OnceLock<Arc<Module>> = OnceLock::new(); M.get_or_init(|| dy::load(PROG).expect("loads").expect("loads")).clone() }

/// Order and repeated names are kept.
#[derive(Debug, Clone)]
enum J { Obj(Vec<(String, J)>), Val(V) }
fn same(a: &J, b: &J) -> bool { match (a, b) { (J::Val(x), J::Val(y)) => match (x, y) { (V::Num(a), V::Num(b)) => a == b, _ => x.same(y) }, (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y)), _ => false } }
struct Rd<'a> { c: std::iter::Peekable<std::str::Chars<'a>> }
impl<'a> Rd<'a> {
    fn ws(&mut self) { while matches!(self.c.peek(), Some(' ' | '\n' | '\t' | '\r')) { self.c.next(); } }
    fn want(&mut self, x: char) -> Result<(), String> { self.ws(); match self.c.next() { Some(c) if c == x => Ok(()), c => Err(format!("expected {:?}, found {:?}", x, c)) } }
    fn string(&mut self) -> Result<String, String> {
        self.want('"')?;
        let mut r = String::new();
        loop { match self.c.next() {
            None => return Err("string without end".into()),
            Some('"') => return Ok(r),
            Some('\\') => match self.c.next() {
                Some('n') => r.push('\n'), Some('t') => r.push('\t'), Some('r') => r.push('\r'), Some('b') => r.push('\u{8}'), Some('f') => r.push('\u{c}'), Some(c @ ('"' | '\\' | '/')) => r.push(c),
                Some('u') => { let u = self.hex()?; let c = if (0xd800..0xdc00).contains(&u) { if self.c.next() != Some('\\') || self.c.next() != Some('u') { return Err("lone surrogate".into()) } let l = self.hex()?; 0x10000 + ((u - 0xd800) << 10) + (l.wrapping_sub(0xdc00) & 0x3ff) } else { u }; r.push(char::from_u32(c).ok_or("bad code")?) }
                c => return Err(format!("bad escape {:?}", c)),
            },
            Some(c) if (c as u32) < 0x20 => return Err(format!("control character {:?} in a string", c)),
            Some(c) => r.push(c),
        } }
    }
    fn hex(&mut self) -> Result<u32, String> { let mut u = 0; for _ in 0..4 { u = u * 16 + self.c.next().and_then(|c| c.to_digit(16)).ok_or("bad code")? } Ok(u) }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.c.peek() {
            Some('{') => self.object(),
            Some('"') => Ok(J::Val(V::Str(self.string()?))),
            _ => {
                let mut t = String::new();
                while let Some(&c) = self.c.peek() { if c.is_alphanumeric() || "+-.".contains(c) { t.push(c); self.c.next(); } else { break } }
                match &*t { "true" => Ok(J::Val(V::Bool(true))), "false" => Ok(J::Val(V::Bool(false))), t if t.starts_with(|c: char| c.is_ascii_digit() || c == '-') => t.parse().map(|x| J::Val(V::Num(x))).map_err(|e| format!("{}: {:?}", e, t)), t => Err(format!("not a value: {:?}", t)) }
            }
        }
    }
    fn object(&mut self) -> Result<J, String> {
        self.want('{')?;
        let mut v = vec![];
        self.ws();
        if self.c.peek() == Some(&'}') { self.c.next(); return Ok(J::Obj(v)) }
        loop {
            self.ws();
            let k = self.string()?;
            self.want(':')?;
            v.push((k, self.value()?));
            self.ws();
            match self.c.next() { Some(',') => {} Some('}') => return Ok(J::Obj(v)), c => return Err(format!("expected a comma or an end, found {:?}", c)) }
        }
    }
}
fn read(t: &str) -> Result<J, String> { let t = format!("{{{}}}", t); let mut r = Rd { c: t.chars().peekable() }; let j = r.object()?; r.ws(); match r.c.next() { None => Ok(j), c => Err(format!("{:?} after the end", c)) } }
fn tree(toks: &[V]) -> J {
    let mut st: Vec<(String, Vec<(String, J)>)> = vec![(String::new(), vec![])];
    for t in toks { if let V::Arr(a) = t { if let (V::Str(k), V::Str(n)) = (&a[2], &a[3]) { match &**k {
        "start" => st.push((n.clone(), vec![])),
        "end" => { let (n, c) = st.pop().unwrap(); st.last_mut().unwrap().1.push((n, J::Obj(c))) }
        _ => st.last_mut().unwrap().1.push((n.clone(), J::Val(a[4].clone()))),
    } } } }
    J::Obj(st.pop().unwrap().1)
}
fn json(o: &mut Outcome, toks: &[V]) {
    match dy::call(&mut Runtime::new(), &module(), "json", &[V::Arr(toks.to_vec())], false) {
        Res::Ok(V::Str(t)) => match read(&t) { Ok(j) => if !same(&j, &tree(toks)) { o.fail(format!("the JSON says {:?}:\n{}", j, t)) }, Err(e) => o.fail(format!("the JSON is malformed ({}):\n{}", e, t)) },
        r => o.fail(format!("json gave {:?}", r)),
    }
}
/// Meta data made by hand.
fn by_hand(s: &mut Src) -> Outcome {
    fn fill(s: &mut Src, d: usize, out: &mut Vec<V>, at: &mut f64) {
        for _ in 0..s.len(4) {
            let n = if s.bool() { gen::any_string(s, 6) } else { gen::ident(s) };
            *at += 1.0;
            let mut a = vec![V::Num(*at), V::Num(1.0)];
            match s.below(if d > 0 { 5 } else { 3 }) {
                0 => { a.extend([V::str("bool"), V::Str(n), V::Bool(s.bool())]); out.push(V::Arr(a)) }
                1 => { a.extend([V::str("f64"), V::Str(n), V::Num(gen::finite(s))]); out.push(V::Arr(a)) }
                2 => { a.extend([V::str("str"), V::Str(n), V::Str(gen::any_string(s, 8))]); out.push(V::Arr(a)) }
                _ => { a.extend([V::str("start"), V::Str(n.clone())]); out.push(V::Arr(a)); fill(s, d - 1, out, at); out.push(V::Arr(vec![V::Num(*at), V::Num(1.0), V::str("end"), V::Str(n)])) }
            }
        }
    }
    let mut toks = vec![];
    fill(s, 4, &mut toks, &mut 0.0);
    let mut o = Outcome::of(format!("{:?}", toks));
    o.nontrivial = toks.len() > 2;
    o.label("meta data made by hand");
    json(&mut o, &toks);
    o
}
fn case(s: &mut Src, cfg: &Cfg) -> Outcome {
    if s.chance(1, 5) { return by_hand(s) }
    let d = 1 + s.us(if cfg.thorough { 5 } else { 4 });
    let mut g = G { s, tags: 0, nodes: vec![] };
    let mut top = g.rule(d);
    if g.s.chance(1, 6) { top = R::Lines(Box::new(g.tagged(2))) }
    g.nodes.push(top);
    let G { s, nodes, .. } = g;
    let mut syntax = String::from("_seps: \"<>\\\" \"\n");
    if s.chance(1, 4) { syntax.push_str("// note\n/* more /* nested */ */\n"); }
    for (i, r) in nodes.iter().enumerate() { syntax.push_str(&format!("{} n{} = {}\n", i, i, syn(r))); }
    let last = &nodes[nodes.len() - 1];
    let mut dv = D { s, nodes: &nodes, t: String::new(), toks: vec![], tags: vec![], fuel: 40 };
    dv.go(last);
    let D { s, t, toks, tags, .. } = dv;
    let mut o = Outcome::of(format!("{}\n---- text\n{}\n---- says {:?}", syntax, t, toks));
    o.nontrivial = toks.len() > 1;
    let m = module();
    let mut rt = Runtime::new();
    let mode = s.weighted(&[5, 2, 2, 3]);
    match mode {
        0 | 1 => {
            o.label(if mode == 0 { "text" } else { "file" });
            let r = if mode == 0 { dy::call(&mut rt, &m, "parse", &[V::Str(syntax), V::Str(t)], false) } else {
                let (a, b) = (cfg.scratch.join("meta.txt"), cfg.scratch.join("text.txt"));
                std::fs::write(&a, &syntax).unwrap();
                std::fs::write(&b, &t).unwrap();
                dy::call(&mut rt, &m, "parse_file", &[V::str(a.to_str().unwrap()), V::str(b.to_str().unwrap())], false)
            };
            match r {
                Res::Ok(V::Ok(v)) => { if !v.same(&V::Arr(toks.clone())) { o.fail(format!("parsed as {:?}", v)) } else { json(&mut o, &toks) } }
                r => o.fail(format!("{:?}", r)),
            }
        }
        2 => {
            // The same syntax reads several texts.
            o.label("two texts");
            let mut dv = D { s, nodes: &nodes, t: String::new(), toks: vec![], tags: vec![], fuel: 40 };
            dv.go(last);
            let (t2, k2) = (dv.t, dv.toks);
            match dy::call(&mut rt, &m, "twice", &[V::Str(syntax), V::Str(t), V::Str(t2)], false) {
                Res::Ok(v) => { let w = V::Arr(vec![V::Ok(Box::new(V::Arr(toks))), V::Ok(Box::new(V::Arr(k2)))]); if !v.same(&w) { o.fail(format!("parsed as {:?}, wanted {:?}", v, w)) } }
                r => o.fail(format!("{:?}", r)),
            }
        }
        _ => {
            // Text outside the syntax.
            o.label("text outside the syntax");
            let mut t = t;
            if tags.is_empty() || s.chance(1, 4) { t.push_str("<999>") } else {
                let k = tags[s.us(tags.len())];
                if syntax.contains("...") || s.bool() { t.insert(k, '<') } else { t.remove(k); }
            }
            match dy::call(&mut rt, &m, "parse", &[V::Str(syntax), V::Str(t.clone())], false) {
                Res::Ok(V::Err(e)) => if !matches!(*e, V::Str(ref e) if e.contains("When parsing data in `text`")) { o.fail(format!("for {:?} the error is {:?}", t, e)) },
                r => o.fail(format!("{:?} gave {:?}", t, r)),
            }
        }
    }
    o
}
pub fn check() -> Check { Check { id: "C24", quick: 600_000, thorough: 20_000_000, case, rule: "at least two pieces of meta data are compared", probes: no_probes, assumptions: &["syntaxes are of a form that reads every text in one way"] } }
