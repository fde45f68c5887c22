//! Programs built around one feature each. The text is read by `parse` for the reference interpreter.
use crate::engine::Src;

pub struct W<'a> { pub s: &'a mut Src, pub o: String, pub ind: usize, pub n: usize }
impl<'a> W<'a> {
    pub fn new(s: &'a mut Src) -> W<'a> { W { s, o: String::new(), ind: 0, n: 0 } }
    pub fn l(&mut self, t: &str) { for x in t.split('\n') { for _ in 0..self.ind { self.o.push_str("  ") } self.o.push_str(x); self.o.push('\n'); } }
    pub fn open(&mut self, t: &str) { self.l(t); self.ind += 1; }
    pub fn close(&mut self) { self.ind -= 1; self.l("}"); }
    pub fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
    pub fn k(&mut self) -> i64 { self.n += 1; 100 + self.n as i64 }
    pub fn num(&mut self) -> String { match self.s.below(7) { 0..=4 => self.s.range(0, 6).to_string(), 5 => format!("{}", self.s.range(0, 12) as f64 * 0.5), _ => format!("(-{})", self.s.range(1, 5)) } }
    pub fn pk<'b>(&mut self, xs: &[&'b str]) -> &'b str { let i = self.s.us(xs.len()); xs[i] }
}

// ---------------------------------------------------------------- references and paths
#[derive(Clone, PartialEq, Debug)]
enum Sh { F, S, A(Box<Sh>, usize), O(Vec<(String, Sh)>) }
#[derive(Clone, Debug)]
struct Va { name: String, sh: Sh, w: bool }
struct Heap<'a, 'b> { w: &'b mut W<'a>, vs: Vec<Va>, inf: bool }

impl<'a, 'b> Heap<'a, 'b> {
    fn shape(&mut self, d: usize) -> Sh {
        // A few related shapes keep variables of equal shape around.
        let two = || Sh::A(Box::new(Sh::F), 2);
        match if d == 2 { self.w.s.below(14) } else { 99 } {
            0 | 1 | 2 => return Sh::F,
            3 | 4 | 5 => return two(),
            6 | 7 => return Sh::A(Box::new(two()), 2),
            8 | 9 => return Sh::O(vec![("p".into(), two()), ("q".into(), Sh::F)]),
            10 => return Sh::A(Box::new(Sh::O(vec![("p".into(), two()), ("q".into(), Sh::F)])), 1),
            _ => {}
        }
        if d == 0 { return if self.w.s.below(6) == 0 { Sh::S } else { Sh::F }; }
        match self.w.s.below(6) {
            0 => Sh::F,
            1 | 2 => Sh::A(Box::new(Sh::F), 1 + self.w.s.us(3)),
            3 => { let e = self.shape(d - 1); Sh::A(Box::new(e), 1 + self.w.s.us(2)) }
            _ => { let n = 1 + self.w.s.us(2); Sh::O((0..n).map(|i| (["p", "q"][i].to_string(), self.shape(d - 1))).collect()) }
        }
    }
    /// A value of the shape; variables before `lim` may be named.
    fn val(&mut self, sh: &Sh, lim: usize, named: bool, d: usize) -> String {
        if named && self.w.s.below(5) < 3 {
            let c: Vec<String> = self.vs[..lim].iter().filter(|v| &v.sh == sh).map(|v| v.name.clone()).collect();
            if !c.is_empty() { let n = c[self.w.s.us(c.len())].clone(); return if self.w.s.below(5) == 0 { format!("clone({})", n) } else { n }; }
        }
        if d > 0 && self.w.s.below(6) == 0 { if let Some(p) = self.read(sh, lim) { return format!("clone({})", p); } }
        match sh {
            Sh::F => self.w.num(),
            Sh::S => format!("\"{}\"", self.w.pk(&["", "a", "hi"])),
            Sh::A(e, n) => {
                if self.w.s.below(8) == 0 { let e = self.val(e, lim, false, 0); return format!("[{}; {}]", e, n); }
                format!("[{}]", (0..*n).map(|_| self.val(e, lim, named, d.saturating_sub(1))).collect::<Vec<_>>().join(", "))
            }
            Sh::O(kv) => format!("{{{}}}", kv.iter().map(|(k, e)| format!("{}: {}", k, self.val(e, lim, named, d.saturating_sub(1)))).collect::<Vec<_>>().join(", ")),
        }
    }
    fn index(&mut self, n: usize) -> String {
        let i = self.w.s.us(n.max(1));
        match self.w.s.below(6) { 0 | 1 => format!("z{}", i.min(1)), 2 => format!("z{} + 0", i.min(1)), _ => i.to_string() }
    }
    /// All paths from a variable: (text, shape).
    fn step(&mut self, sh: &Sh) -> Option<(String, Sh)> {
        match sh {
            Sh::A(e, n) => {
                if let Sh::A(f, m) = &**e { if self.w.s.below(2) == 0 {
                    let (a, b) = (self.index(*n), self.index(*m));
                    let ij = (self.w.s.us(2).min(n - 1), self.w.s.us(2).min(m - 1));
                    return Some((if self.w.s.below(4) == 0 { format!("[y{}{}]", ij.0, ij.1) } else { format!("[[{}, {}]]", a, b) }, (**f).clone()));
                } }
                let i = self.index(*n);
                Some((if self.w.s.below(9) == 0 { format!("[[{}]]", i) } else { format!("[{}]", i) }, (**e).clone()))
            }
            Sh::O(kv) => { let (k, e) = kv[self.w.s.us(kv.len())].clone(); Some((match self.w.s.below(5) { 0 => format!("[\"{}\"]", k), 1 => format!("[k{}]", k), _ => format!(".{}", k) }, e)) }
            _ => None,
        }
    }
    fn read(&mut self, sh: &Sh, lim: usize) -> Option<String> {
        for _ in 0..4 {
            let c: Vec<Va> = self.vs[..lim].iter().filter(|v| !matches!(v.sh, Sh::F | Sh::S)).cloned().collect();
            if c.is_empty() { return None; }
            let v = c[self.w.s.us(c.len())].clone();
            let (mut t, mut at) = (v.name.clone(), v.sh.clone());
            for _ in 0..4 {
                match self.step(&at) { Some((x, s)) => { t.push_str(&x); at = s; if &at == sh && self.w.s.below(3) > 0 { return Some(t); } } None => break }
            }
            if &at == sh { return Some(t); }
        }
        None
    }
    fn op(&mut self, d: usize) {
        let n = self.vs.len();
        match self.w.s.below(19) {
            16..=18 => {
                // A value that holds variables.
                if n == 0 { return; }
                let c: Vec<usize> = (0..n).filter(|&i| !matches!(self.vs[i].sh, Sh::F | Sh::S)).collect();
                let j = if c.is_empty() || self.w.s.below(4) == 0 { self.w.s.us(n) } else { c[self.w.s.us(c.len())] };
                let x = self.vs[j].clone();
                let v = self.w.fresh("v");
                let (t, sh) = match self.w.s.below(4) {
                    0 => (format!("[{}]", x.name), Sh::A(Box::new(x.sh.clone()), 1)),
                    1 => { let o = self.val(&x.sh, n, true, 1); (format!("[{}, {}]", x.name, o), Sh::A(Box::new(x.sh.clone()), 2)) }
                    2 => { let o = self.val(&Sh::F, n, true, 1); (format!("{{p: {}, q: {}}}", x.name, o), Sh::O(vec![("p".into(), x.sh.clone()), ("q".into(), Sh::F)])) }
                    _ => (format!("[[{}]]", x.name), Sh::A(Box::new(Sh::A(Box::new(x.sh.clone()), 1)), 1)),
                };
                self.w.l(&format!("{} := {}", v, t));
                self.vs.push(Va { name: v, sh, w: true });
            }
            14 | 15 => {
                // A reference stored in a list.
                let c: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).filter(|&(i, j)| self.vs[i].w && match &self.vs[i].sh { Sh::A(e, _) => **e == self.vs[j].sh, _ => false }).collect();
                if c.is_empty() { return; }
                let (i, j) = c[self.w.s.us(c.len())];
                let (nm, m, x) = (self.vs[i].name.clone(), match &self.vs[i].sh { Sh::A(_, m) => *m, _ => 0 }, self.vs[j].name.clone());
                let k = self.w.s.us(m + 1);
                match self.w.s.below(4) { 0 => self.w.l(&format!("push_ref(mut {}, {})", nm, x)), 1 => self.w.l(&format!("insert_ref(mut {}, {}, {})", nm, k, x)), _ => { self.w.l(&format!("{}[{}] = {}", nm, k.min(m - 1), x)); return; } }
                let e = self.vs[j].sh.clone();
                self.vs[i].sh = Sh::A(Box::new(e), m + 1);
            }
            0 | 1 | 2 => { let sh = self.shape(2); let e = self.val(&sh, n, true, 2); let v = self.w.fresh("v"); self.w.l(&format!("{} := {}", v, e)); self.vs.push(Va { name: v, sh, w: true }); }
            3..=7 => {
                // A write through a path.
                let c: Vec<usize> = (0..n).filter(|&i| self.vs[i].w).collect();
                if c.is_empty() { return; }
                let i = if self.w.s.below(3) == 0 { *c.last().unwrap() } else { c[self.w.s.us(c.len())] };
                let v = self.vs[i].clone();
                let (mut t, mut at) = (v.name.clone(), v.sh.clone());
                let deep = 1 + self.w.s.us(4);
                for _ in 0..deep { match self.step(&at) { Some((x, s)) => { t.push_str(&x); at = s; } None => break } }
                if at == Sh::F && self.w.s.bool() { let e = if self.w.s.below(4) == 0 { self.val(&Sh::F, n, true, 1) } else { self.w.num() }; let o = self.w.pk(&["+=", "-=", "*="]); self.w.l(&format!("{} {} {}", t, o, e)); }
                else { let e = self.val(&at, i, true, 2); self.w.l(&format!("{} = {}", t, e)); }
            }
            8 => {
                // Copies of parts.
                let sh = match self.w.s.below(3) { 0 => Sh::F, 1 => Sh::A(Box::new(Sh::F), 1 + self.w.s.us(3)), _ => self.shape(1) };
                if let Some(p) = self.read(&sh, n) { let v = self.w.fresh("v"); self.w.l(&format!("{} := {}", v, p)); self.vs.push(Va { name: v, sh, w: true }); }
            }
            9 => {
                let c: Vec<Va> = self.vs.iter().filter(|v| v.w).cloned().collect();
                if c.is_empty() { return; }
                let v = c[self.w.s.us(c.len())].clone();
                match &v.sh {
                    Sh::F => { let f = self.w.pk(&["wf", "wf2"]); self.w.l(&format!("{}(mut {})", f, v.name)) }
                    Sh::S => self.w.l(&format!("ws(mut {})", v.name)),
                    Sh::A(e, m) if **e == Sh::F => { let f = self.w.pk(&["wa", "wa2", "wa3"]); if f == "wa3" && *m != 2 { return; } self.w.l(&format!("{}(mut {})", f, v.name)) }
                    _ => { let e = self.val(&v.sh, 0, false, 0); self.w.l(&format!("wx(mut {}, {})", v.name, e)) }
                }
            }
            10 => {
                let c: Vec<usize> = (0..n).filter(|&i| self.vs[i].w && matches!(self.vs[i].sh, Sh::A(..))).collect();
                if c.is_empty() { return; }
                let i = c[self.w.s.us(c.len())];
                let (nm, e, m) = match self.vs[i].clone() { Va { name, sh: Sh::A(e, m), .. } => (name, *e, m), _ => unreachable!() };
                match self.w.s.below(7) {
                    0 => { let x = self.val(&e, i, true, 1); self.w.l(&format!("push(mut {}, {})", nm, x)); self.vs[i].sh = Sh::A(Box::new(e), m + 1); }
                    1 | 2 => {
                        let c: Vec<String> = self.vs[..i].iter().filter(|v| v.sh == e).map(|v| v.name.clone()).collect();
                        if c.is_empty() { return; }
                        let x = c[self.w.s.us(c.len())].clone();
                        if self.w.s.bool() { self.w.l(&format!("push_ref(mut {}, {})", nm, x)) } else { let k = self.w.s.us(m + 1); self.w.l(&format!("insert_ref(mut {}, {}, {})", nm, k, x)) }
                        self.vs[i].sh = Sh::A(Box::new(e), m + 1);
                    }
                    3 => { let x = self.val(&e, i, true, 1); let k = self.w.s.us(m + 1); self.w.l(&format!("insert(mut {}, {}, {})", nm, k, x)); self.vs[i].sh = Sh::A(Box::new(e), m + 1); }
                    4 => self.w.l(&format!("reverse(mut {})", nm)),
                    5 if m > 1 => { let (a, b) = (self.w.s.us(m), self.w.s.us(m)); self.w.l(&format!("swap(mut {}, {}, {})", nm, a, b)) }
                    _ if m > 1 => {
                        let v = self.w.fresh("v");
                        if self.w.s.bool() { self.w.l(&format!("{} := pop(mut {})", v, nm)) } else { let k = self.w.s.us(m); self.w.l(&format!("{} := remove(mut {}, {})", v, nm, k)) }
                        self.vs[i].sh = Sh::A(Box::new(e.clone()), m - 1);
                        self.vs.push(Va { name: v, sh: e, w: true });
                    }
                    _ => {}
                }
            }
            11 if d > 0 => {
                // A nested scope.
                if self.w.s.bool() { self.w.open("if true {"); } else { self.w.open("for q9 2 {"); }
                // Lengths may change per turn: only scalar writes and copies inside.
                let keep = self.vs.clone();
                let m = 1 + self.w.s.us(3);
                for _ in 0..m { match self.w.s.below(2) { 0 => self.op_in(0), _ => self.op_in(8) } }
                if let Some(v) = self.vs.last().cloned() { self.w.l(&format!("emit({})", v.name)); }
                self.vs = keep;
                self.w.close();
            }
            12 => {
                let c: Vec<Va> = self.vs.clone();
                if c.is_empty() { return; }
                let v = c[self.w.s.us(c.len())].clone();
                let x = self.w.fresh("v");
                let e = match self.w.s.below(3) { 0 => format!("rd({})", v.name), 1 => format!("rd2({}, {})", self.w.num(), v.name), _ => format!("rd(clone({}))", v.name) };
                self.w.l(&format!("{} := {}", x, e));
                self.vs.push(Va { name: x, sh: v.sh, w: true });
            }
            _ => { if let Some(i) = (0..n).filter(|_| true).last() { let i = self.w.s.us(i + 1); let v = self.vs[i].name.clone(); self.w.l(&format!("emit({})", v)); } }
        }
        if self.inf && self.w.s.below(3) == 0 && !self.vs.is_empty() { let i = self.w.s.us(self.vs.len()); let v = self.vs[i].name.clone(); self.w.l(&format!("emit({})", v)); }
    }
    fn op_in(&mut self, k: u64) {
        let n = self.vs.len();
        if k == 8 {
            let sh = if self.w.s.bool() { Sh::F } else { Sh::A(Box::new(Sh::F), 1 + self.w.s.us(3)) };
            if let Some(p) = self.read(&sh, n) { let v = self.w.fresh("v"); self.w.l(&format!("{} := {}", v, p)); self.vs.push(Va { name: v, sh, w: true }); }
            return;
        }
        let c: Vec<usize> = (0..n).filter(|&i| self.vs[i].w).collect();
        if c.is_empty() { return; }
        let i = c[self.w.s.us(c.len())];
        let v = self.vs[i].clone();
        let (mut t, mut at) = (v.name.clone(), v.sh.clone());
        for _ in 0..3 { match self.step(&at) { Some((x, s)) => { t.push_str(&x); at = s; } None => break } }
        match at { Sh::F => { let e = self.w.num(); let o = self.w.pk(&["+=", "="]); self.w.l(&format!("{} {} {}", t, o, e)) } Sh::S => self.w.l(&format!("{} += \"+\"", t)), _ => {} }
    }
}
pub fn heap(s: &mut Src) -> String {
    let mut w = W::new(s);
    w.l("fn rd(x) -> {\n  return clone(x)\n}\nfn rd2(n: f64, x) -> {\n  emit(n)\n  y := x\n  return clone(y)\n}\nfn wf(mut x: f64) {\n  x += 1\n}\nfn wf2(mut x) {\n  y := x\n  y = 50\n  x = y + 1\n}\nfn ws(mut x: str) {\n  x += \"!\"\n}\nfn wa(mut x: [f64]) {\n  x[0] += 10\n}\nfn wa2(mut x) {\n  y := x\n  y[0] = 77\n  emit(y)\n  x[0] = 5\n}\nfn wa3(mut x: [f64]) {\n  x = [7, 8]\n}\nfn wx(mut x, y) {\n  emit(x)\n  x = clone(y)\n}");
    w.open("fn start() -> {");
    w.l("z0 := 0\nz1 := 1\nkp := \"p\"\nkq := \"q\"\ny00 := [0, 0]\ny01 := [z0, 1]\ny10 := [1, 0]\ny11 := [1, z1]");
    let n = 4 + w.s.us(10);
    let mut h = Heap { w: &mut w, vs: vec![Va { name: "z0".into(), sh: Sh::F, w: false }], inf: true };
    h.vs.clear();
    let k = 2 + h.w.s.us(2);
    for _ in 0..k { let sh = if h.w.s.bool() { Sh::F } else { h.shape(2) }; let m = h.vs.len(); let e = h.val(&sh, m, true, 2); let v = h.w.fresh("v"); h.w.l(&format!("{} := {}", v, e)); h.vs.push(Va { name: v, sh, w: true }); }
    for _ in 0..n { h.op(1); }
    let vs = h.vs.clone();
    for v in &vs { w.l(&format!("emit({})", v.name)); }
    w.l("return 0");
    w.close();
    w.o
}

// ---------------------------------------------------------------- closures
/// Variables in scope of the closures: n number, a numbers, o object, t text.
fn grabbed(w: &mut W, lv: &str) -> (String, bool) {
    let l = if lv.is_empty() { "grab ".to_string() } else { format!("grab '{} ", lv) };
    let (e, isnum): (&str, bool) = match w.s.below(18) {
        0 => ("n", true), 1 => ("a", false), 2 => ("o", false), 3 => ("t", false),
        4 => ("[n, 2]", false), 5 => ("[a, a]", false), 6 => ("{p: n, q: a}", false), 7 => ("a[0]", true), 8 => ("o.p", true), 9 => ("o.q", false),
        10 => ("n + 1", true), 11 => ("if n > 2 { clone(n) } else { 7 }", true), 12 => ("rd(a)", false), 13 => ("sum i len(a) { a[i] }", true),
        14 => ("some(n)", false), 15 => ("(n, 1)", false), 16 => ("[[n], [3]]", false), _ => ("plus(n, 1)", true),
    };
    (format!("{}{}", l, e), isnum)
}
fn body(w: &mut W, args: &[&str], lv: &str) -> String {
    let mut t = String::from("{\n");
    let k = w.s.us(3);
    for _ in 0..k {
        let q = if !lv.is_empty() && w.s.bool() { lv } else { "" };
        let (g, _) = grabbed(w, q);
        let v = w.fresh("y");
        t.push_str(&format!("{} := {}\nemit({})\n", v, g, v));
        if w.s.below(3) == 0 { t.push_str(&format!("emit([{}, {}])\n", v, v)); }
    }
    let mut e = args[w.s.us(args.len())].to_string() + " * 1";
    let terms = w.s.us(3);
    let mut k = k;
    for _ in 0..terms {
        let q = if !lv.is_empty() && w.s.bool() { lv } else { "" };
        let x = match w.s.below(4) {
            0 => args[w.s.us(args.len())].to_string(),
            1 => { let l = if q.is_empty() { "".to_string() } else { format!("'{} ", q) }; let v = w.pk(&["n", "o.p", "a[0]"]); format!("(grab {}{})", l, v) }
            _ => { let g = loop { let (g, n) = grabbed(w, q); if n { break g; } }; let v = w.fresh("y"); t.push_str(&format!("{} := {}\n", v, g)); k += 1; v }
        };
        e = format!("{} + {}", e, x);
    }
    t.push_str(&format!("{}\n}}", e));
    if k == 0 { return e; }
    t
}
fn mutate(w: &mut W) {
    let m = w.pk(&["n += 1", "n = 40", "a[0] = 9", "push(mut a, 3)", "o.p = 5", "o.q[0] = 8", "t += \"x\"", "a = [6, 5]", "o = {p: 1, q: [2]}", "reverse(mut a)"]);
    w.l(m);
}
pub fn closures(s: &mut Src) -> String {
    let mut w = W::new(s);
    w.l("fn rd(x) -> {\n  return clone(x)\n}\nfn plus(x: f64, y: f64) -> f64 {\n  return x + y\n}\nfn app(f: \\(f64) -> f64, x: f64) -> f64 {\n  q := 3\n  emit(q)\n  return \\f(x + 1)\n}\nfn app2(f, x: f64) -> {\n  return \\f(x)\n}");
    w.open("fn mk(n: f64, a: [f64], o: {}, t: str) -> \\(f64) -> f64 {");
    let b = body(&mut w, &["x"], "");
    w.l(&format!("return \\(x: f64) = {}", b));
    w.close();
    w.open("fn start() -> {");
    let n = w.num();
    w.l(&format!("n := {}\na := [1, n, 3]\no := {{p: n, q: [4, 5]}}\nt := \"s\"", n));
    let mut fs: Vec<(String, usize)> = vec![]; // call text, arity: 1 number -> number, 2 number -> closure
    let steps = 4 + w.s.us(8);
    for _ in 0..steps {
        match w.s.below(10) {
            0 | 1 => { let f = w.fresh("f"); let b = body(&mut w, &["x"], ""); w.l(&format!("{} := \\(x: f64) = {}", f, b)); fs.push((f, 1)); }
            2 => { let f = w.fresh("f"); let b = body(&mut w, &["x"], ""); w.l(&format!("{} := {{k: 1, g: \\(x: f64) = {}}}", f, b)); fs.push((format!("{}.g", f), 1)); }
            3 => { let f = w.fresh("f"); let b = body(&mut w, &["x"], ""); let c = body(&mut w, &["x"], ""); w.l(&format!("{} := [\\(x: f64) = {}, \\(x: f64) = {}]", f, b, c)); let i = w.s.us(2); fs.push((format!("{}[{}]", f, i), 1)); }
            4 => { let f = w.fresh("f"); w.l(&format!("{} := mk(n, a, o, t)", f)); fs.push((f, 1)); }
            5 => { let f = w.fresh("f"); let b = body(&mut w, &["y"], "2"); let gx = w.pk(&["(grab x)", "(grab x + 1)", "(grab '2 n)"]); 
                   // The inner closure grabs from the outer one's arguments and, two levels out, from here.
                                      let b = fix_inner(&b);
                   let b = if w.s.bool() { format!("y + {}", gx) } else { b };
                   w.l(&format!("{} := \\(x: f64) = \\(y: f64) = {}", f, b)); fs.push((f, 2)); }
            6 => { let f = w.fresh("f"); w.l(&format!("{} := []", f)); let b = body(&mut w, &["x"], ""); let b = if w.s.bool() { format!("x + (grab i) + (grab n)") } else { b };
                   w.l(&format!("for i 3 {{\n  push(mut {}, \\(x: f64) = {})\n  n += 1\n}}", f, b)); let i = w.s.us(3); fs.push((format!("{}[{}]", f, i), 1)); }
            7 => { let f = w.fresh("f"); if let Some((g, 1)) = fs.last().cloned() { if !g.contains(['.', '[']) { w.l(&format!("{} := {{h: {}}}", f, g)); fs.push((format!("{}.h", f), 1)); } } }
            _ => mutate(&mut w),
        }
        if w.s.below(2) == 0 { mutate(&mut w); }
        if !fs.is_empty() && w.s.below(3) > 0 { invoke(&mut w, &fs); }
    }
    let all = fs.clone();
    for f in all { invoke(&mut w, &[f]); }
    w.l("emit([n, len(a)])\nemit(a)\nemit(o)");
    w.l("return 0");
    w.close();
    w.o
}
/// Inside the inner closure only the second level sees the outer variables.
fn fix_inner(b: &str) -> String { let mut r = String::new(); let mut rest = b; while let Some(i) = rest.find("grab ") { r.push_str(&rest[..i + 5]); rest = &rest[i + 5..]; if !rest.starts_with('\'') { r.push_str("'2 "); } } r.push_str(rest); r }
fn invoke(w: &mut W, fs: &[(String, usize)]) {
    let (f, k) = fs[w.s.us(fs.len())].clone();
    let x = w.num();
    if k == 2 {
        let g = w.fresh("g");
        w.l(&format!("{} := \\{}({})", g, f, x));
        if w.s.bool() { mutate(w); }
        let y = w.num();
        w.l(&format!("emit(\\{}({}))", g, y));
        return;
    }
    let plain = !f.contains(['.', '[']);
    match w.s.below(5) {
        0 if plain => w.l(&format!("emit(app({}, {}))", f, x)),
        1 if plain => w.l(&format!("emit(app2({}, {}))", f, x)),
        2 => w.l(&format!("emit(n + \\{}(n))", f)),
        3 if plain => { let g = w.fresh("g"); w.l(&format!("{} := {}\nemit(\\{}({}))", g, f, g, x)) }
        _ => w.l(&format!("emit(\\{}({}))", f, x)),
    }
}

// ---------------------------------------------------------------- current objects
pub fn currents(s: &mut Src) -> String {
    let mut w = W::new(s);
    w.l("fn show() ~ cu: f64 -> f64 {\n  return clone(cu)\n}\nfn showv() ~ cv: [f64] -> [f64] {\n  return clone(cv)\n}\nfn both() ~ cu: f64, cv: [f64] -> {\n  q := 5\n  return [clone(cu), len(cv), q + 0]\n}\nfn bump() ~ mut cu: f64 {\n  cu += 1\n}\nfn bumpv() ~ mut cv: [f64] {\n  cv[0] += 2\n  push(mut cv, 1)\n}");
    let mut fns: Vec<(String, bool)> = vec![];
    let nf = 1 + w.s.us(4);
    for _ in 0..nf {
        let f = w.fresh("f");
        let ret = w.s.bool();
        let how = w.s.below(3);
        w.open(&format!("fn {}(x: f64){} {}{{", f, match how { 0 => "", 1 => " ~ mut cu: f64", _ => " ~ cu: f64" }, if ret { "-> " } else { "" }));
        scope(&mut w, &fns, how == 1, how > 0, 2, ret);
        if ret { let e = w.pk(&["x + 1", "show()", "clone(x)", "ok(x)"]); w.l(&format!("return {}", e)); }
        w.close();
        fns.push((f, ret));
    }
    w.open("fn start() -> {");
    let n = w.num();
    if w.s.below(8) > 0 { w.l(&format!("~ cu := {}\n~ cv := [1, 2]", n)); } else { w.l("cu := 3\ncv := [4]"); }
    scope(&mut w, &fns, true, true, 3, true);
    scope(&mut w, &fns, true, true, 2, true);
    w.l("emit(cu)\nemit(cv)\nreturn both()");
    w.close();
    w.o
}
fn scope(w: &mut W, fns: &[(String, bool)], mutc: bool, have: bool, d: usize, ret: bool) {
    let k = 1 + w.s.us(4);
    let mut mutc = mutc;
    let mut have = have;
    for _ in 0..k {
        match w.s.below(18) {
            15 => w.l("emit(host_cu())"),
            16 => { let c = w.fresh("c"); let b = w.pk(&["cu * 10 + x", "show() + x + cu", "{\n  ~ cu := cu + 20\n  show() + x\n}", "host_cu() + x"]); let pre = w.pk(&["", "", "~ cu := 31\n", "~ cv := [5]\n"]); w.l(&format!("{} := \\(x: f64) ~ cu = {}\n{}emit(\\{}(2))", c, b, pre, c)); }
            17 if d > 0 => {
                // A closure called under other currents than it was made under.
                let c = w.fresh("c");
                let b = w.pk(&["cu * 10 + x", "show() - x", "{\n  q := cu + x\n  q + cu\n}"]);
                w.l(&format!("{} := \\(x: f64) ~ cu = {}", c, b));
                w.open("if true {");
                scope(w, fns, mutc, have, 0, ret);
                w.l(&format!("~ cu := 8\nemit(\\{}(1))\n~ cu := 9\nemit(\\{}(1))", c, c));
                w.close();
                w.l(&format!("r{} := try \\{}(1)\nemit(is_ok(r{}))", c, c, c));
            }
            0 | 1 => { let e = w.num(); w.l(&format!("~ cu := {}", e)); mutc = true; have = true; }
            2 => { let e = w.num(); w.l(&format!("~ cv := [{}, 4]", e)); }
            3 => w.l("emit(show())"),
            4 => w.l("emit(both())"),
            5 => { let b = w.pk(&["bump()", "bumpv()", "emit(showv())"]); w.l(b) }
            6 if mutc => { let b = w.pk(&["cu += 2", "cu = 9", "cu *= 2"]); w.l(b) }
            7 => { let v = w.fresh("v"); let e = w.num(); w.l(&format!("{} := {}", v, e)); }
            8 | 9 if !fns.is_empty() => {
                let (f, r) = fns[w.s.us(fns.len())].clone();
                let x = w.num();
                if r {
                    let v = w.fresh("r");
                    match w.s.below(3) { 0 => w.l(&format!("{} := try {}({})\nemit(is_ok({}))", v, f, x, v)), 1 => w.l(&format!("{} := {}({})\nemit({})", v, f, x, v)), _ => w.l(&format!("emit({}({}))", f, x)) }
                } else { w.l(&format!("{}({})", f, x)) }
            }
            10 if d > 0 => { w.open("if true {"); scope(w, fns, mutc, have, d - 1, ret); w.close(); }
            11 if d > 0 => {
                let l = w.pk(&["", "'l: "]);
                w.open(&format!("{}for i 3 {{", l));
                scope(w, fns, mutc, have, d - 1, ret);
                let j = if l.is_empty() { w.pk(&["break", "continue"]) } else { w.pk(&["break 'l", "continue 'l", "break"]) };
                w.l(&format!("if i > 0 {{\n  ~ cu := 66\n  q := 4\n  emit(show() + q)\n  {}\n}}", j));
                if w.s.bool() { w.l("emit(show())"); }
                w.close();
            }
            12 if ret => { let c = w.pk(&["1 > 2", "show() > 3"]); w.l(&format!("if {} {{\n  ~ cu := 55\n  return show() + 0\n}}", c)) }
            13 => {
                // An error inside a scope with currents of its own.
                let v = w.fresh("r");
                let e = w.pk(&["{\n  ~ cu := 7\n  boom(\"b\") + show()\n}", "{\n  ~ cv := [7]\n  q := 2\n  [q, 3][show() * 100] \n}", "boom(\"c\")", "{\n  ~ cu := 8\n  show()\n}"]);
                let e = if e.contains("[q, 3]") { "{\n  ~ cv := [7]\n  q := [2]\n  clone(q[show() * 100 + 50])\n}" } else { e };
                w.l(&format!("{} := try {}\nemit(is_ok({}))\nz{} := 3\nemit(show())", v, e, v, v));
            }
            _ => if have { w.l("emit(cu)") },
        }
    }
}

// ---------------------------------------------------------------- errors along paths
#[derive(Clone, Debug)]
enum Q { F, O(Box<Q>), R(Box<Q>), B(Vec<(String, Q)>), A(Box<Q>, usize) }
fn qshape(w: &mut W, d: usize) -> Q {
    if d == 0 { return Q::F; }
    match w.s.below(7) { 0 => Q::F, 1 | 2 => Q::O(Box::new(qshape(w, d - 1))), 3 | 4 => Q::R(Box::new(qshape(w, d - 1))), 5 => Q::A(Box::new(qshape(w, d - 1)), 1 + w.s.us(2)), _ => Q::B((0..1 + w.s.us(2)).map(|i| (["a", "b"][i].to_string(), qshape(w, d - 1))).collect()) }
}
fn qval(w: &mut W, q: &Q) -> String {
    match q {
        Q::F => match w.s.below(4) { 0 => "n".into(), _ => w.num() },
        Q::O(x) => if w.s.below(6) == 0 { "none()".into() } else { format!("some({})", qval(w, x)) },
        Q::R(x) => if w.s.below(6) == 0 { let e = w.pk(&["\"bad\"", "7", "[1, 2]"]); format!("err({})", e) } else { format!("ok({})", qval(w, x)) },
        Q::B(kv) => format!("{{{}}}", kv.iter().map(|(k, x)| format!("{}: {}", k, qval(w, x))).collect::<Vec<_>>().join(", ")),
        Q::A(x, n) => format!("[{}]", (0..*n).map(|_| qval(w, x)).collect::<Vec<_>>().join(", ")),
    }
}
/// A path of ids where every option or result on the way is opened with `?`.
fn qpath(w: &mut W, q: &Q) -> Option<(String, Q)> {
    let mut t = String::new();
    let mut at = q.clone();
    let mut ids = 0;
    loop {
        match at.clone() {
            Q::F => break,
            Q::B(kv) => { let (k, x) = kv[w.s.us(kv.len())].clone(); t.push_str(&if w.s.below(6) == 0 { format!("[\"{}\"]", k) } else { format!(".{}", k) }); at = x; ids += 1; }
            Q::A(x, n) => { let past = if w.s.below(10) == 0 { 1 } else { 0 }; let i = w.s.us(n + past); t.push_str(&if w.s.below(3) == 0 { format!("[z{}]", i) } else { format!("[{}]", i) }); at = *x; ids += 1; }
            Q::O(x) | Q::R(x) => {
                if t.is_empty() || t.ends_with('?') { return None; }
                if w.s.below(9) == 0 { break; }
                t.push('?'); at = *x;
            }
        }
        if ids > 0 && w.s.below(8) == 0 { break; }
    }
    if t.is_empty() { None } else { Some((t, at)) }
}
pub fn errors(s: &mut Src) -> String {
    let mut w = W::new(s);
    let nf = 1 + w.s.us(3);
    let mut calls = vec![];
    w.l("fn half(x: f64) -> res[f64] {\n  if x > 3 {\n    return err(\"big\")\n  }\n  return ok(x / 2)\n}\nfn pick(a: [], i: f64) -> opt[any] {\n  if i < 1 {\n    return some(clone(a[0]))\n  }\n  return none()\n}\nfn use2(x, y) -> {\n  emit(y)\n  return clone(x)\n}");
    for _ in 0..nf {
        let kv = Q::B((0..2).map(|i| (["a", "b"][i].to_string(), qshape(&mut w, 3))).collect());
        let root = if w.s.below(4) == 0 { Q::A(Box::new(qshape(&mut w, 3)), 2) } else { kv };
        let f = w.fresh("f");
        w.open(&format!("fn {}(o: any, n: f64) -> any {{", f));
        w.l("z0 := 0\nz1 := 1\nz2 := 2\nu := [n, 2]");
        let k = 1 + w.s.us(4);
        for _ in 0..k {
            let v = w.fresh("v");
            let p = qpath(&mut w, &root);
            match w.s.below(15) {
                0..=4 => if let Some((p, at)) = p {
                    let e = format!("o{}", p);
                    match (at, w.s.below(5)) {
                        (Q::F, 0) => w.l(&format!("{} := 1 + {}\nemit({})", v, e, v)),
                        (Q::F, 1) => w.l(&format!("{} := [3, clone({})]\nemit({})", v, e, v)),
                        (_, 2) => w.l(&format!("{} := use2(clone({}), 4)\nemit({})", v, e, v)),
                        (_, 3) => w.l(&format!("{} := {{\n  w1 := 6\n  emit(w1)\n  clone({})\n}}\nemit({})", v, e, v)),
                        _ => w.l(&format!("{} := clone({})\nemit({})", v, e, v)),
                    }
                },
                5 => if let Some((p, Q::F)) = p { w.l(&format!("for i 2 {{\n  {} := n + i\n  emit({} + o{})\n}}", v, v, p)) },
                6 => if let Some((p, Q::F)) = p { w.l(&format!("if o{} > 2 {{\n  emit(\"gt\")\n}} else {{\n  emit(\"le\")\n}}", p)) },
                7 => { let x = w.num(); w.l(&format!("{} := half({})? + 1\nemit({})", v, x, v)) }
                8 => { let x = w.num(); w.l(&format!("{} := clone(pick([5, 6], {})?)\nemit({})", v, x, v)) }
                9 => { let x = w.num(); let y = w.num(); w.l(&format!("{} := unwrap_or(half({}), ev_f(1, {}))\nemit({})", v, x, y, v)) }
                10 => { let x = w.num(); w.l(&format!("{} := try unwrap(half({}))\nemit(is_ok({}))\nemit(unwrap_or({}, ev_f(2, 0)))", v, x, v, v)) }
                12 => { let e = w.pk(&["[u, 1]", "{k: u}", "[[u]]", "[n, 4]", "u"]); let e2 = w.pk(&["u[0] += 5", "u = [8]", "push(mut u, 3)"]); w.l(&format!("{} := try {}\n{}\nemit({})\nu = [n, 2]", v, e, e2, v)) }
                13 => { let e = w.pk(&["n", "u[1]", "(n - n)", "(n > 1)", "(n > 99)", "max i 2 { u[i] }", "min i 0 { u[i] }", "any i 2 { u[i] > 3 }", "all i 2 { u[i] > 3 }", "all i 0 { u[i] > 3 }", "(0 / 0)"]); let p = if e.contains(' ') && !e.starts_with('(') { format!("({})", e) } else { e.to_string() }; w.l(&format!("{} := {}?\nemit({})", v, p, v)) }
                _ => { let x = w.num(); w.l(&format!("{} := sum i 3 {{\n  half({} + i)? + u[1]\n}}\nemit({})", v, x, v)) }
            }
        }
        w.l("emit(u)");
        if let Some((p, _)) = qpath(&mut w, &root) { w.l(&format!("return ok(clone(o{}))", p)); } else { w.l("return ok(n)"); }
        w.close();
        calls.push((f, root));
    }
    w.open("fn start() -> {");
    w.l("n := 4\nkeep := [1, 2]");
    let m = 2 + w.s.us(4);
    for _ in 0..m {
        let (f, q) = calls[w.s.us(calls.len())].clone();
        let (a, r) = (w.fresh("a"), w.fresh("r"));
        let e = qval(&mut w, &q);
        let x = w.num();
        w.l(&format!("{} := {}", a, e));
        match w.s.below(3) {
            0 => w.l(&format!("{} := {}({}, {})", r, f, a, x)),
            1 => w.l(&format!("{} := try {}({}, {})", r, f, a, x)),
            _ => w.l(&format!("{} := {}({}, {})", r, f, e, x)),
        }
        w.l(&format!("emit({})\nemit({})\nemit(keep)\nn += 1", r, a));
    }
    w.l("return n + 0");
    w.close();
    w.o
}

// ---------------------------------------------------------------- folds
fn range(w: &mut W, arr: &str) -> String {
    match w.s.below(12) {
        0..=3 => format!(" len({})", arr),
        4 | 5 => { let (a, b) = (w.s.range(0, 3), w.s.range(0, 4)); format!(" [{}, {})", a, b) }
        6 => format!(" {}", w.s.range(0, 4)),
        7 => " n".into(),
        8 => " [1, len(a))".into(),
        9 => { let (a, b) = (w.s.range(0, 3) as f64 * 0.5, w.s.range(0, 8) as f64 * 0.5); format!(" [{}, {})", a, b) }
        10 => " [n - 2, n)".into(),
        _ => String::new(),
    }
}
pub fn folds(s: &mut Src) -> String {
    match s.below(8) { 0 | 1 => return unrolled(s), 2 => return inferred(s), _ => {} }
    let mut w = W::new(s);
    w.open("fn start() -> {");
    let vals = |w: &mut W, n: usize| (0..n).map(|_| match w.s.below(8) { 0 => "(-1)".to_string(), 1 => "2.5".to_string(), 2 => "(0 / 0)".to_string(), _ => w.s.range(0, 4).to_string() }).collect::<Vec<_>>().join(", ");
    let n = 2 + w.s.us(4);
    let a = vals(&mut w, n);
    let rows: Vec<String> = (0..1 + w.s.us(3)).map(|_| { let k = n; format!("[{}]", vals(&mut w, k)) }).collect();
    let bs: Vec<&str> = (0..n).map(|_| if w.s.bool() { "true" } else { "false" }).collect();
    let nn = w.s.range(0, 4);
    w.l(&format!("a := [{}]\nb := [{}]\nc := [{}]\nn := {}\nacc := 0", a, rows.join(", "), bs.join(", "), nn));
    let k = 2 + w.s.us(4);
    for _ in 0..k {
        let v = w.fresh("r");
        let (t, sec) = one_fold(&mut w, 0);
        w.l(&format!("{} := {}\nemit({})", v, t, v));
        match sec {
            1 => { let q = w.pk(&["why", "where"]); let _ = q; w.l(&format!("emit(try where({}))", v)); if w.s.bool() { w.l(&format!("emit({} > 2)\nemit({} + 1)\nemit(-{})", v, v, v)); } }
            2 => { w.l(&format!("emit(try why({}))", v)); if w.s.bool() { w.l(&format!("emit(!{})\nemit({} && true)", v, v)); } }
            _ => {}
        }
    }
    w.l("emit(acc)\nemit(a)\nreturn 0");
    w.close();
    w.o
}
/// 0 no secret, 1 number secret, 2 boolean secret, 3 other.
fn one_fold(w: &mut W, d: usize) -> (String, u8) {
    let k = w.s.below(13);
    let (kw, sec, body): (&str, u8, u8) = match k { 0 => ("sum", 0, 0), 1 => ("prod", 0, 0), 2 | 3 => ("min", 1, 0), 4 | 5 => ("max", 1, 0), 6 | 7 => ("any", 2, 1), 8 | 9 => ("all", 2, 1), 10 => ("sift", 3, 2), 11 => ("link", 3, 3), _ => (if w.s.bool() { "sum_vec4" } else { "prod_vec4" }, 3, 4) };
    let form = w.s.below(10);
    // Index setup and an item it addresses.
    let (ix, num, boo): (String, String, String) = match form {
        0 | 1 => ("i, j".into(), "b[i][j]".into(), "b[i][j] > 1".into()),
        2 => (format!("i{}, j{}", " len(b)", " len(b[i])"), "b[i][j]".into(), "b[i][j] < 2".into()),
        3 => ("i".into(), "a[i]".into(), "c[i]".into()),
        4 => (format!("i{}, j{}, k 2", match range(w, "b") { r if r.is_empty() => " 2".to_string(), r => r }, " [0, 2)"), "i * 4 + j * 2 + k".into(), "(i + j + k) > 2".into()),
        5 => ("i 2, j [i, 3)".into(), "i - j".into(), "i == j".into()),
        _ => { let r = range(w, "a"); (format!("i{}", r), if w.s.below(3) == 0 { "a[i] % 3".into() } else { "a[i]".into() }, if w.s.bool() { "c[i]".into() } else { "a[i] > 1".into() }) }
    };
    let two = form <= 2;
    if kw == "link" && two && false { return one_fold(w, d); }
    let infer = ix == "i, j" || ix == "i";
    let lab = w.s.below(5) == 0;
    let mut b = String::new();
    if w.s.below(3) == 0 && body != 3 { b.push_str("acc += 1\n"); }
    if w.s.below(4) == 0 && body != 3 && !infer {
        let j = if lab { w.pk(&["break 'l", "continue 'l", "break", "continue"]) } else { w.pk(&["break", "continue"]) };
        let c = w.pk(&["i == 1", "acc > 3", "i > 1"]);
        b.push_str(&format!("if {} {{\n  {}\n}}\n", c, j));
    }
    if w.s.below(4) == 0 && body != 3 { let x = w.pk(&["q := acc + 1\nemit(q)\n", "emit(i)\n"]); if !infer { b.push_str(x); } }
    let e = match body {
        0 => if d == 0 && w.s.below(4) == 0 && !infer { let (t, s2) = loop { let (t, s2) = one_fold(w, 1); if s2 < 2 { break (t, s2); } }; let _ = s2; let t = rename(&t); if t.contains("'l:") { num } else { format!("{} + {}", num_lit_first(&num), t) } } else { let x = w.pk(&["", " + 0", " * 2", "#"]); if x == "#" { format!("clone({})", num) } else { format!("{}{}", num, x) } },
        1 => if w.s.below(5) == 0 { format!("explain_why({}, {})", boo, w.pk(&["\"p\"", "i", "[i, 2]"])) } else { boo },
        2 => match w.s.below(3) { 0 => format!("[i + 0, {} + 0]", num), 1 => format!("{} * 2", num), _ => format!("({}) > 1", num) },
        3 => match w.s.below(4) { 0 => format!("{}\n\"s\"", num), 1 => format!("({}) > 1", num), 2 => format!("{}\nlink {{\n  i\n  \"t\"\n}}", num), _ => num },
        _ => format!("({}, i + 1, 2)", num),
    };
    b.push_str(&e);
    let body_t = b.split('\n').map(|x| format!("  {}", x)).collect::<Vec<_>>().join("\n");
    (format!("{}{} {} {{\n{}\n}}", if lab { "'l: " } else { "" }, kw, ix, body_t), sec)
}
fn num_lit_first(n: &str) -> String { n.to_string() }
/// Renames the indices of a nested loop.
fn rename(t: &str) -> String {
    let mut r = String::new();
    let cs: Vec<char> = t.chars().collect();
    for (k, c) in cs.iter().enumerate() {
        let id = |x: Option<&char>| x.map(|c| c.is_alphanumeric() || *c == '_' || *c == '\'').unwrap_or(false);
        let alone = !id(if k > 0 { cs.get(k - 1) } else { None }) && !id(cs.get(k + 1));
        r.push(match c { 'i' if alone => 'u', 'j' if alone => 'v', c => *c });
    }
    r
}

// ---------------------------------------------------------------- loops written out per component
/// Vectors made of one expression per component, where the index meets other uses of its name.
pub fn unrolled(s: &mut Src) -> String {
    let mut w = W::new(s);
    w.l("fn g(x: f64) -> f64 {\n  return x * 3\n}\nfn h(x: f64, y: f64) -> f64 {\n  return x * 10 + y\n}");
    w.open("fn start() -> {");
    w.l("a := [3, 1, 4, 1]\nb := [[5, 9, 2], [6, 5, 3], [5, 8, 9], [7, 9, 3]]\no := {p: [2, 7, 1, 8]}\nfs := [\\(x: f64) = x + 1, \\(x: f64) = x * 2, \\(i: f64) = i - 3, \\(x: f64) = 7]\nacc := 0");
    for _ in 0..1 + w.s.us(3) {
        let v = w.fresh("r");
        let k = w.pk(&["vec4", "vec4", "vec3", "vec2"]);
        let e = unrolled_num(&mut w);
        w.l(&format!("{} := {} i {}\nemit({})", v, k, e, v));
    }
    w.l("emit(acc)\nemit(a)\nreturn 0");
    w.close();
    w.o
}
/// A body of statements that each keep a number, to keep the text cheap to parse.
fn unrolled_num(w: &mut W) -> String {
    const ATOMS: &[&str] = &["i", "i + 1", "a[i]", "b[i][1]", "o.p[i]", "g(i)", "h(i, 2)", "\\fs[i](i + 2)", "\\fs[2](i)", "i * i", "-i", "2 - i", "clone(i)"];
    let n = w.s.us(3);
    let last = w.pk(ATOMS).to_string();
    if n == 0 && w.s.below(3) > 0 { return match w.s.below(5) { 0 => format!("h(xy (i, {}))", last), 1 => format!("{} + sum i 3 {{ i * 2 }}", last).replace("-i + sum", "i + sum"), 2 => format!("if i == 0 {{ {} }} else if i == 1 {{ i + 7 }} else {{ a[i] + 1 }}", last), 3 => format!("unwrap(try {})", last), _ => last }; }
    let mut o = String::from("{\n");
    let mut sum = String::new();
    for _ in 0..n + 1 {
        let t = w.fresh("t");
        let f = w.fresh("f");
        let e = w.pk(ATOMS).to_string();
        let at = w.pk(ATOMS).to_string();
        let st = match w.s.below(22) {
            0 => format!("{} := {}", t, e),
            1 => format!("{} := \\(i: f64) = i * 2 + 1\n{} := \\{}({}) + i", f, t, f, e),
            2 => format!("{} := \\(x: f64) = x + (grab i)\n{} := \\{}({})", f, t, f, e),
            3 => format!("{} := \\(x: f64) = x + (grab a[i]) * 10\n{} := \\{}({})", f, t, f, e),
            4 => format!("{} := {}\nfor i := 0; i < 3; i += 1 {{\n  {} += i\n}}\n{} += i", t, e, t, t),
            5 => format!("{} := {}\nfor i 3 {{\n  {} += i + 1\n}}\n{} += i", t, e, t, t),
            6 => format!("{} := {}\nfor j := i; j < 5; j += 1 {{\n  {} += i\n}}", t, e, t),
            7 => format!("{} := sum i 3 {{ i * 2 }}\n{} += {}", t, t, e),
            8 => format!("{} := sum j 3 {{ i * j }}\n{} += {}", t, t, e),
            9 => format!("{} := sum i [i, 5) {{ i }}\n{} += {}", t, t, e),
            10 => format!("{} := {{\n  i := i + 5\n  i + 1\n}}\n{} += {}", t, t, e),
            11 => format!("{} := {}\nif {} > 1 {{\n  i := {} + 2\n  {} += i\n}}", t, e, t, t, t),
            12 => format!("{} := if i == 0 {{ {} }} else if i == 1 {{ i + 7 }} else {{ {} }}", t, e, at),
            13 => format!("{} := if i > 1 {{\n  i := 9\n  i + 1\n}} else if i == 1 {{\n  i := i + 20\n  i + 0\n}} else {{ {} }}", t, e),
            14 => format!("{} := [i; 2]\n{} := {}[1] + {}", f, t, f, at.replace('-', "2 - ").replace("2 2 - ", "2 - ")),
            15 => format!("{} := {{i: i, q: {}}}\n{} := {}.i + {}.q", f, e, t, f, f),
            16 => format!("{} := vec4 i i + 1\n{} := {} *. (i, 2, 1, 0)", f, t, f),
            17 => format!("{} := vec4 j i * j\n{} := {} *. (1, 2, i, {})", f, t, f, e),
            18 => format!("{} := h(xy (i, {}))", t, e),
            19 => format!("acc += i\na[i] = clone({})\n{} := a[i] + acc", e, t),
            20 => format!("{} := unwrap(try {})", t, e),
            _ => format!("if i == 1 {{\n  acc += 10\n}} else if i == 2 {{\n  acc += i\n}} else {{\n  acc += i + 1\n}}\n{} := acc + i", t),
        };
        // What follows may be about another variable of the same name.
        if w.s.below(8) == 0 { o += "i := (i + 1) % 4\n"; }
        o += &st;
        o.push('\n');
        sum += &format!("{} + ", t);
    }
    o += &format!("{}i\n}}", sum);
    o
}
/// Loops without a range: the length comes from the one list that the index addresses.
pub fn inferred(s: &mut Src) -> String {
    let mut w = W::new(s);
    w.l("fn g(x: f64) -> f64 {\n  return x * 3\n}");
    w.open("fn start() -> {");
    w.l("a := [3, 1, 4, 1, 5]\nb := [[5, 9, 2], [6, 5, 3]]\no := {p: [2, 7, 1, 8], q: [[1], [2, 3]]}\nfs := [\\(x: f64) = x + 1, \\(x: f64) = x * 2, \\(x: f64) = x - 3]\nk := 1\nkey := \"p\"\nn := 2");
    for _ in 0..2 + w.s.us(3) {
        let x = w.pk(&["a[i]", "b[1][i]", "b[k][i]", "o.p[i]", "o.q[1][i]", "o.q[k][i]", "\\fs[i](2)", "o[key][i]", "b[i][0]", "b[i][k]", "b[a[1]][i]", "b[a[k]][i]", "o[\"p\"][i]"]).to_string();
        let usesk = x.contains('k');
        let e = match w.s.below(16) {
            0 | 1 => x.clone(),
            2 => format!("{} + 1", x),
            3 => format!("g({})", x),
            4 => format!("unwrap(some({}))", x),
            5 => format!("(if {} > 2 {{ 1 }} else {{ 2 }})", x),
            6 => format!("(if 1 > 2 {{ 1 }} else if n == 2 {{ {} }} else {{ 3 }})", x),
            7 => format!("({{\n  z := {}\n  z + 0\n}})", x),
            8 => format!("({{\n  z := [{}, 2]\n  z[0] + z[1]\n}})", x),
            9 => format!("({{\n  z := [{}; 3]\n  z[2] + 0\n}})", x),
            10 => format!("({{\n  z := {{u: {}}}\n  z.u + 1\n}})", x),
            11 => format!("(1 - {})", x),
            12 => format!("({{\n  v := ({}, 2)\n  v *. (1, 1)\n}})", x),
            13 => format!("unwrap(try {})", x),
            14 if !usesk => format!("({{\n  z := sum k 2 {{ k + {} }}\n  z + 0\n}})", x),
            14 | 15 => format!("({{\n  z := sum {} 2 {{ 1 }}\n  z + {}\n}})", w.pk(&["k", "n", "j", "key"]), x),
            _ => x.clone(),
        };
        let mut pre = String::new();
        match w.s.below(6) {
            0 => pre = "for k 2 {\n  emit(k)\n}\n".into(),
            1 => pre = "if n == 2 {\n  k := 7\n  emit(k)\n}\n".into(),
            2 => pre = "z0 := sum n 3 { n }\nemit(z0)\n".into(),
            3 => pre = "n += 0\n".into(),
            _ => {}
        }
        let v = w.fresh("r");
        let t = match w.s.below(8) {
            0 => format!("for i {{\n{}emit({})\n}}", pre, e),
            1 => format!("{} := any i {{\n{}({}) > 3\n}}\nemit({})", v, pre, e, v),
            2 => format!("{} := all i {{\n{}({}) < 6\n}}\nemit({})", v, pre, e, v),
            3 => format!("{} := sift i {{\n{}({}) * 2\n}}\nemit({})", v, pre, e, v),
            4 => format!("{} := sum_vec4 i {{\n{}({}, 1)\n}}\nemit({})", v, pre, e, v),
            k => format!("{} := {} i {{\n{}{}\n}}\nemit({})", v, ["sum", "min", "max"][k as usize - 5], pre, if e.starts_with('(') { format!("0 + {}", e) } else { e.clone() }, v),
        };
        w.l(&t);
    }
    w.l("return 0");
    w.close();
    w.o
}

// ---------------------------------------------------------------- lazy invariants
/// Calls of host, built-in and loaded functions with lazy invariants, whose arguments are observed.
pub fn lazies(s: &mut Src) -> String {
    let mut w = W::new(s);
    w.l("fn fa(a: any => err(_) | some(_), b, c: any => 3 | \"s\") -> {\n  emit(\"fa\")\n  return clone([a, b, c])\n}\nfn fb(a, b: any => ok(_) | false, c) -> {\n  emit(\"fb\")\n  return clone({a: a, b: b, c: c})\n}");
    w.open("fn start() -> {");
    w.l("n := 2\nu := [n, 5]\ne := err([1, 2])\no := some(u)\nk := ok({a: 1})\nt := true\ns := \"s\"");
    let vals = ["e", "o", "k", "t", "n", "s", "u", "err(\"bad\")", "err([n, 2])", "err(none())", "some(3)", "some(err(1))", "some([u])", "none()", "ok(4)", "ok(some(2))", "2", "3", "true", "false", "\"s\"", "\"\"", "1 + 1", "n > 1", "[2]", "u[0]", "max i 2 { u[i] }", "any i 2 { u[i] > 1 }"];
    let mut k = 0;
    for _ in 0..2 + w.s.us(5) {
        let v = w.fresh("v");
        let f = w.pk(&["hz", "hz", "hy", "hy", "fa", "fb"]);
        let mut arg = |w: &mut W| -> String {
            let e = w.pk(&vals);
            k += 1;
            match w.s.below(8) { 0 => e.to_string(), 1 => "boom(\"x\")".into(), 2 => format!("clone({})", e), _ => format!("ev({}, {})", k, e) }
        };
        let a: Vec<String> = (0..3).map(|_| arg(&mut w)).collect();
        let call = format!("{}({})", f, a.join(", "));
        match w.s.below(6) {
            0 => w.l(&format!("{} := unwrap_or({}, ev(0, 7))\nemit({})", v, call, v)),
            1 | 2 => w.l(&format!("{} := try {}\nemit({})", v, call, v)),
            3 => { let z = w.fresh("w"); w.l(&format!("{} := {{\n  {} := {}\n  clone({})\n}}\nemit({})", v, z, call, z, v)) }
            _ => w.l(&format!("{} := {}\nemit({})", v, call, v)),
        }
        if w.s.below(4) == 0 { let m = w.pk(&["n += 1", "u[0] = 9", "n = 2", "t = false", "o = none()"]); w.l(m); }
    }
    w.l("emit([n, u])\nreturn 0");
    w.close();
    w.o
}
