//! C07: the text of closures and values read back as source.
use super::*;
use super::progs::LOG_LIMIT;
use crate::dy::{self, Res, V};
use crate::gen;
use crate::lang::*;
use crate::progen::{self, Prof, G, T};

/// A closure under test: functions it uses, the parameters of the function that makes it
/// (for grabs), its own parameters, its text.
struct Clo { funs: String, outer: Vec<(String, String)>, params: Vec<(String, String)>, lit: String, calls: Vec<(Vec<V>, Vec<V>)>, what: &'static str }

fn list(ps: &[(String, String)]) -> String { ps.iter().map(|(n, t)| if t.is_empty() { n.clone() } else { format!("{}: {}", n, t) }).collect::<Vec<_>>().join(", ") }
fn names(ps: &[(String, String)]) -> String { ps.iter().map(|(n, _)| n.clone()).collect::<Vec<_>>().join(", ") }

fn program(c: &Clo, lit: &str, first: bool) -> String {
    let all: Vec<_> = if first { c.outer.iter().chain(&c.params).cloned().collect() } else { c.params.clone() };
    let call: String = names(&c.params);
    let mut s = format!("{}\nfn start({}) -> any {{\n    clo := {}\n    res := \\clo({})\n    return clone(res)\n}}\n", c.funs, list(&all), lit, call);
    if first { s += &format!("fn text({}) -> str {{\n    clo := {}\n    return str(clo)\n}}\n", list(&c.outer), lit); }
    s
}

fn subst(e: &E, gr: &[String]) -> E {
    let mut e = e.clone();
    fn go(e: &mut E, gr: &[String]) {
        if let E::Var(n, ids, false) = e { if ids.is_empty() && gr.contains(n) { *e = E::Grab(1, Box::new(var(n.clone()))); return; } }
        kids(e, &mut |k| go(k, gr));
    }
    go(&mut e, gr);
    e
}

fn operators(s: &mut Src) -> Clo {
    let t = match s.below(12) { 0..=3 => T::F, 4..=7 => T::B, 8 => T::S, 9 => T::V, 10 => T::M, _ => T::L };
    let mut x = super::expr::X { s, k: 0, params: vec![] };
    let mut e = if let T::F | T::B = t { x.ex(&t, 3) } else { x.ex(&t, 2) };
    let ps = std::mem::take(&mut x.params);
    if let E::Var(..) = e { e = clone(e); }
    let typed = s.bool();
    let grabbed: Vec<String> = ps.iter().filter(|_| s.below(3) == 0).map(|p| p.0.clone()).collect();
    e = subst(&e, &grabbed);
    let (outer, inner): (Vec<_>, Vec<_>) = ps.iter().cloned().partition(|p| grabbed.contains(&p.0));
    let tx = |v: &Vec<(String, T)>, typed: bool| v.iter().map(|(n, t)| (n.clone(), if typed { t.text() } else { String::new() })).collect::<Vec<_>>();
    let clo = E::Clo(tx(&inner, typed).iter().map(|(n, t)| (n.clone(), if t.is_empty() { "any".to_string() } else { t.clone() })).collect(), vec![], Box::new(e));
    let og: Vec<V> = outer.iter().map(|(_, t)| super::expr::value(s, t)).collect();
    let calls = (0..3).map(|_| (og.clone(), inner.iter().map(|(_, t)| super::expr::value(s, t)).collect())).collect();
    Clo { funs: String::new(), outer: tx(&outer, true), params: tx(&inner, typed), lit: expr_text(&clo), calls, what: "operators" }
}

fn prof() -> Prof { Prof { decl: 6, assign: 5, emit: 4, ifs: 4, forn: 3, forc: 2, lp: 2, block: 2, callm: 3, jump: 4, path: 2, arrs: 2, fold: 4, clos: 4, tries: 2, rich: 4, funs: 1, stmts: 2, depth: 1, ..Prof::NONE } }

fn bodies(s: &mut Src) -> Clo {
    let mut g = G::new(s, prof());
    let (mut prog, tys) = g.program();
    let whole = prog.clone();
    let st = prog.funs.pop().unwrap();
    let mut body = st.body;
    if let Some(E::Return(Some(e))) = body.last().cloned() { *body.last_mut().unwrap() = *e; }
    let body = if body.len() == 1 { body.pop().unwrap() } else { E::Block(body) };
    let ps: Vec<(String, String)> = st.params.iter().map(|p| (p.name.clone(), p.ty.clone())).collect();
    let clo = E::Clo(ps.clone(), vec![], Box::new(body));
    // Calls that the reference interpreter finishes within its budget.
    let calls = (0..2).map(|_| tys.iter().map(|t| progen::arg_value(s, t)).collect::<Vec<V>>()).filter(|a| !matches!(super::progs::run_model(&whole, "start", a, true).want, Err(crate::model::Stop::Budget))).map(|a| (vec![], a)).collect();
    Clo { funs: text(&prog), outer: vec![], params: ps, lit: expr_text(&clo), calls, what: "statements" }
}

const VALS: gen::ValOpts = gen::ValOpts { nums: gen::any_num, f32s: f32s, links: true, opts: true, results: true, mats: true, vecs: true };
fn f32s(s: &mut Src) -> f32 { match s.below(8) { 0 => *s.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, 0.1, 3.4e38, 1e-40]), _ => gen::any_f32(s) } }
fn grabs(s: &mut Src) -> Clo {
    let n = 1 + s.us(3);
    let outer: Vec<(String, String)> = (0..n).map(|i| (format!("g{}", i), "any".to_string())).collect();
    let og: Vec<V> = (0..n).map(|_| gen::value(s, &VALS, 2)).collect();
    let mut items: Vec<String> = vec!["x".into()];
    for i in 0..n {
        items.push(match s.below(6) {
            0 => format!("grab g{}", i),
            1 => format!("{{k: grab g{}}}", i),
            2 => format!("\\(y: f64) = [grab '2 g{}, y + 0]", i),
            3 => format!("some(grab g{})", i),
            4 => format!("if x == 1 {{ grab g{} }} else {{ clone(grab g{}) }}", i, i),
            _ => format!("(grab g{})", i),
        });
    }
    // A nested closure is called to get at its value.
    let mut body = String::from("{\n");
    let mut out = vec![];
    for (i, it) in items.iter().enumerate() {
        body += &format!("    t{} := {}\n", i, it);
        out.push(if it.starts_with('\\') { format!("\\t{}(7)", i) } else { format!("clone(t{})", i) });
    }
    body += &format!("    [{}]\n}}", out.join(", "));
    let calls = (0..2).map(|i| (og.clone(), vec![V::Num(i as f64)])).collect();
    Clo { funs: String::new(), outer, params: vec![("x".into(), "f64".into())], lit: format!("\\(x: f64) = {}", body), calls, what: "grabbed values" }
}

/// Pieces that the other generators do not make, put together at random.
/// A labelled loop of any kind, left or resumed from a loop inside it.
fn labelled(s: &mut Src) -> String {
    let kind = *s.pick(&["sum", "prod", "min", "max", "any", "all", "sift", "sum_vec4", "prod_vec4", "link"]);
    let (a, b) = (s.range(0, 3), s.range(0, 2));
    let jump = if s.bool() { "continue 'lab" } else { "break 'lab" };
    let cond = format!("(i {} {}) && (k == {})", s.pick(&["==", ">", "!="]), a, b);
    let head = match s.below(4) { 0 => "i [1, 4)".to_string(), 1 => "i l".into(), 2 => "i 2, h 2".into(), _ => "i 4".into() };
    // A label of a packed loop belongs to its outermost loop.
    let body = match kind {
        "link" => return format!("str('lab: link {} {{ i \";\" link k 3 {{ if {} {{ {} }}\n k }} \"-\" }})", head, cond, jump),
        "any" | "all" => format!("(i % 2) == {}", b),
        "sum_vec4" | "prod_vec4" => "(i + 1, 2, i, 3)".into(),
        _ => "i + 1".into(),
    };
    let inner = match s.below(5) {
        0 => format!("for k 3 {{ if {} {{ {} }} }}", cond, jump),
        1 => format!("k := 0\n loop {{ if {} {{ {} }}\n k += 1\n if k > 2 {{ break }}\n}}", cond, jump),
        2 => format!("for k := 0; k < 3; k += 1 {{ if {} {{ {} }}\n}}", cond, jump),
        3 => format!("w := {} k 3 {{ if {} {{ {} }}\n {}\n}}", s.pick(&["sum", "prod", "min", "max", "sift"]), cond, jump, "k + i"),
        _ => format!("w := {} k 3 {{ if {} {{ {} }}\n {}\n}}", s.pick(&["sum_vec4", "prod_vec4"]), cond, jump, "(k, i, 1, 2)"),
    };
    format!("'lab: {} {} {{ {}\n {}\n}}", kind, head, inner, body)
}

fn pieces(s: &mut Src) -> Clo {
    let funs = "inc(mut a, b) = { a += b\n clone(a)\n}\nset2(mut a, mut b) = { a = 7\n b = 8\n 1\n}\npair__left_right(a, b) = a - b\nfn gets(a) ~ cu -> f64 { return cu * 10 + a }\nres(x) -> res[f64] { return if x < 2 { ok(x) } else { err(\"big\") } }\nopt_(x: f64) -> opt[f64] { return if x < 2 { some(x) } else { none() } }\n".replace("res(x) ->", "fn res(x) ->").replace("opt_(x: f64) ->", "fn opt_(x: f64) ->");
    let num = |s: &mut Src| -> String { match s.below(10) { 0 => "clone(x)".into(), 1 => "(x - 2)".into(), 2 => "(y * 1)".into(), 3 => "(-x)".into(), 4 => "(-3)".into(), 5 => "|(x, 2)|".into(), 6 => "len(l)".into(), 7 => "(l[0] + 0)".into(), 8 => "(o.a - 1)".into(), _ => format!("{}", s.range(0, 4)) } };
    let n = 1 + s.us(3);
    let mut body = String::from("{\n    t := []\n    l := [1, 2, 3]\n    o := {a: 4, b_c: [5, {k: 6}], \"q r\": 8, \"\": 9}\n    m := 1\n    q := 2\n    f := \\(z: f64) = z * 2 - 1\n");
    for _ in 0..n {
        let (a, b, c) = (num(s), num(s), num(s));
        let e = match s.below(52) {
            0 => format!("[{}; 3]", a), 1 => format!("[[{}; 2]; len([0; 2])]", a),
            2 => format!("clone(l[{}])", s.range(0, 2)), 3 => "o[\"q r\"]".into(), 4 => "o[\"\"]".into(), 5 => "o.b_c[1].k".into(), 6 => "l[(2 - 1)]".into(), 7 => "l[floor(x) % 3]".into(), 8 => "o[(\"b\" + \"_c\")][0]".into(),
            9 => "inc(mut m, 3)".into(), 10 => "set2(mut m, mut q)".into(), 11 => format!("pair(left: {}, right: {})", a, b), 12 => format!("pair__left_right({}, {})", a, b),
            13 => format!("try res({})?", a), 14 => format!("unwrap_or(try (res({}))?, {})", a, b), 15 => format!("try clone(o.b_c[{}])", s.range(0, 4)), 16 => format!("try (opt_({})?) + 1", a),
            17 => "link { 2\n (1 + 1) \"s\" }".to_string(), 18 => format!("str(link {{ {}\n -1\n {} }})", "1", b), 19 => "str(link i 3 { i \"-\" })".into(), 20 => "str(link i 2, j 2 { i j \";\" })".into(), 21 => format!("link {{}} + link {{ {} }}", a),
            22 => "'lab: sum i 3 { sum j [1, 3) { if i == 2 { continue 'lab }\n i * j\n} }".into(),
            23 => "'lab: any i 3 { all j 2 { (i + j) > 1 } }".into(), 24 => "min i l { l[i] * 2 }".into(), 25 => "'lab: sift i 4 { if i == 1 { continue 'lab }\n i + 1\n}".into(), 26 => "sum i { l[i] }".into(), 27 => "sift i, j 2 { l[i] * j }".into(),
            28 => format!("vec4 i i + {}", a), 29 => format!("(vec3 i i * 2) + {}", a), 30 => "(zyx (1, 2, 3), 4)".into(), 31 => "(wx (1, 2, 3, 4), yz (5, 6, 7, 8))".into(), 32 => format!("({}, {}, 0, 0)", a, b), 33 => format!("({},)", a), 34 => "(0, 0, 0, 0)".into(),
            35 => format!("mat4 {{{}, 0, 0, {}; 0, 2, 0, 0; 1, 0, 1, 0; 0, 0, 0, 1}}", a, b), 36 => "mat4 {1,2; 3,4}".into(), 37 => "#ff8800".into(), 38 => "#0a141e28".into(),
            39 => format!("\\f({}) ^ 2", a), 40 => format!("\\f(\\f({}))", a), 41 => format!("if ({} < {}) && !({} == 2) {{ 1 }} else if {} > 1 {{ 2 }} else {{ {} }}", a, b, c, a, b),
            42 => format!("!(({} == {}) || (|(1, {})| > 2))", a, b, c), 43 => format!("(|({}, 1)| - |(1, {})|) * -2", a, b), 44 => format!("{} - ({} - ({} - 1))", a, b, c), 45 => format!("({} ^ 2) ^ 2 % 7", a), _ => labelled(s),
        };
        match s.below(12) {
            0 => body += &format!("    if {} == {} {{ push(mut t, {}) }} else {{ push(mut t, \"e\") }}\n", b, c, e),
            1 => body += &format!("    'out: for i 3 {{\n for j [1, 3) {{\n if i == j {{ continue 'out }}\n push(mut t, {})\n if j == 2 {{ break 'out }}\n }}\n }}\n", e),
            2 => body += &format!("    for i := 0; i < 2; i += 1 {{ push(mut t, {}) }}\n", e),
            3 => body += &format!("    'far: loop {{\n m += 1\n if m > 4 {{ break 'far }}\n push(mut t, {})\n loop {{ if m > 2 {{ continue 'far }}\n break\n}}\n }}\n", e),
            4 => body += &format!("    {{\n ~ cu := {}\n push(mut t, gets({}))\n }}\n", a, b),
            5 => body += &format!("    l[0] {} {}\n    push(mut t, {})\n", s.pick(&["=", "+=", "-=", "*=", "%=", "^="]), a, e),
            6 => body += &format!("    o.b_c[1].k = {}\n    o[\"q r\"] += 1\n    o.new := {}\n    push(mut t, {})\n", a, b, e),
            7 => { let e2 = match s.below(5) { 0 => "z ^ 2", 1 => "{ w := z\n w + 1\n}", 2 => "if z == 1 { \"a\" } else { \"b\" }", 3 => "sum i 3 { i * z }", _ => "\\(v: f64) = v + 0" }; body += &format!("    h := \\(z: f64) = {}\n    push(mut t, {}\\h({}))\n", e2, if e2.starts_with('\\') { "typeof(" } else { "" }, a).replace("typeof(\\h", "typeof(\\h").replace("))\n", if e2.starts_with('\\') { ")))\n" } else { "))\n" }); }
            8 => body += &format!("    h := \\(z: f64, w: f64) = \\(v: f64) = v + grab (z - w)\n    h1 := \\h({}, {})\n    push(mut t, \\h1({}))\n", a, b, c),
            _ => body += &format!("    push(mut t, {})\n", e),
        }
    }
    body += "    push(mut t, l)\n    push(mut t, o)\n    push(mut t, m + q)\n    clone(t)\n}";
    let calls = (0..3).map(|_| (vec![], vec![V::Num(s.range(-2, 4) as f64), V::Num(s.range(0, 6) as f64 * 0.5)])).collect();
    Clo { funs, outer: vec![], params: vec![("x".into(), "f64".into()), ("y".into(), "f64".into())], lit: format!("\\(x: f64, y: f64) = {}", body), calls, what: "pieces" }
}

/// Equal but for the source positions in the text of caught errors.
fn alike(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Str(x), V::Str(y)) => x == y || (x.contains('^') && y.contains('^') && x.lines().next() == y.lines().next()),
        (V::Arr(a), V::Arr(b)) | (V::Link(a), V::Link(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| alike(x, y)),
        (V::Obj(a), V::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && alike(x, y)),
        (V::Some(a), V::Some(b)) | (V::Ok(a), V::Ok(b)) | (V::Err(a), V::Err(b)) => alike(a, b),
        (V::Sec(a, s), V::Sec(b, t)) => alike(a, b) && s.len() == t.len() && s.iter().zip(t).all(|(x, y)| alike(x, y)),
        (a, b) => a.same(b),
    }
}
fn same(a: &Res, b: &Res) -> bool {
    match (a, b) { (Res::Ok(x), Res::Ok(y)) => alike(x, y), (Res::RunErr(_), Res::RunErr(_)) => true, _ => false }
}

fn closure(s: &mut Src) -> Outcome {
    let c = match s.below(8) { 0..=3 => operators(s), 4 => bodies(s), 5 => grabs(s), _ => pieces(s) };
    let src = program(&c, &c.lit, true);
    let mut o = Outcome::of(src.clone());
    if std::env::var("SHOW_SRC").is_ok() { eprintln!("{}", src); }
    let load = |o: &mut Outcome, src: &str, what: &str| match dy::load(src) {
        Err(p) => { o.fail(format!("panic while loading the {}: {}", what, p)); None }
        Ok(Err(e)) => { o.fail(format!("the {} was rejected: {}", what, e)); None }
        Ok(Ok(m)) => Some(m),
    };
    let m = match load(&mut o, &src, "program with the original closure") { Some(m) => m, None => return o };
    if c.calls.is_empty() { o.discard = true; return o; }
    let mut second = None;
    for (outer, inner) in &c.calls {
        if second.is_none() {
            let t = match dy::call(&mut dyon::Runtime::new(), &m, "text", outer, false) { Res::Ok(V::Str(t)) => t, r => { o.fail(format!("str of the closure gives {:?}", r)); return o; } };
            let src2 = program(&c, &t, false);
            o.desc = format!("{}\nread back as\n{}", src, t);
            second = Some(match load(&mut o, &src2, "text of the closure") { Some(m) => m, None => return o });
        }
        let mut run = |m: &std::sync::Arc<dyon::Module>, args: &[V]| {
            let _ = dy::take_log();
            dy::LIMIT.with(|l| l.set(LOG_LIMIT));
            let r = dy::call(&mut dyon::Runtime::new(), m, "start", args, true);
            (r, dy::take_log())
        };
        let all: Vec<V> = outer.iter().chain(inner).cloned().collect();
        let (r1, l1) = run(&m, &all);
        let (r2, l2) = run(second.as_ref().unwrap(), inner);
        if let Res::Ok(_) = r1 { o.nontrivial = true; o.label("value"); } else { o.label("run-time error"); }
        if !same(&r1, &r2) { o.fail(format!("on {:?} the closure gives {:?}, its text gives {:?}", inner, r1, r2)); return o; }
        if l1.len() != l2.len() || !l1.iter().zip(&l2).all(|(a, b)| alike(a, b)) { o.fail(format!("on {:?} the closure has effects {:?}, its text {:?}", inner, l1, l2)); return o; }
    }
    o.label(c.what);
    o
}

/// A value nested in an array, printed and read back as source.
fn value(s: &mut Src) -> Outcome {
    // Larger whole numbers are printed with more digits than a literal may have.
    fn fin(s: &mut Src) -> f64 { let x = gen::finite(s); if x.abs() < 1e15 { x } else { x / 1e308 } }
    fn f32s(s: &mut Src) -> f32 { let x = gen::any_f32(s); if x.abs() < 1e15 { x } else { x / 1e38 } }
    const O: gen::ValOpts = gen::ValOpts { nums: fin, f32s, links: true, opts: true, results: true, mats: true, vecs: true };
    let mut v = V::Arr((0..1 + s.us(3)).map(|_| gen::value(s, &O, 3)).collect());
    // Strings and links alone are printed as they are.
    if s.below(3) == 0 { let w = gen::value(s, &O, 3); v = match s.below(4) { 0 => V::Some(Box::new(w)), 1 => V::Ok(Box::new(w)), 2 => V::Err(Box::new(w)), _ => if let V::Str(_) | V::Link(_) = w { v } else { w } }; }
    let mut o = Outcome::of(format!("{:?}", v));
    o.label("value text");
    let t = match dy::run_fn("fn start(x: any) -> str { return str(x) }", "start", &[v.clone()], 10, false).0 { Res::Ok(V::Str(t)) => t, r => { o.fail(format!("str gives {:?}", r)); return o; } };
    o.desc = format!("{:?} printed as {}", v, t);
    o.nontrivial = true;
    match dy::run_fn(&format!("fn start() -> any {{\n    v := {}\n    return clone(v)\n}}", t), "start", &[], 10, false).0 {
        Res::Ok(w) => if !w.same(&v) { o.fail(format!("read back as {:?}", w)); },
        r => o.fail(format!("not read back: {:?}", r)),
    }
    o
}

/// Numbers and strings alone.
fn scalar(s: &mut Src) -> Outcome {
    let xs: Vec<f64> = (0..8).map(|_| gen::any_num(s)).collect();
    let ss: Vec<String> = (0..4).map(|_| gen::any_string(s, 8)).collect();
    let mut o = Outcome::of(format!("{:?} {:?}", xs, ss));
    o.label("numbers and strings");
    o.nontrivial = true;
    let src = "fn num(x: f64) -> any { return [str(x), parse_number(str(x)), str(link {x \"|\" x})] }\nfn txt(x: str) -> any { return [str(x), json_string(x), str([x])] }";
    let m = match dy::load(src) { Ok(Ok(m)) => m, r => { o.fail(format!("rejected: {:?}", r.err())); return o; } };
    for x in xs {
        match dy::call(&mut dyon::Runtime::new(), &m, "num", &[V::Num(x)], false) {
            Res::Ok(V::Arr(a)) => {
                let t = match &a[0] { V::Str(t) => t.clone(), r => { o.fail(format!("str({}) is {:?}", x, r)); return o; } };
                if t.parse::<f64>().map(|y| !(y == x || y.is_nan() && x.is_nan()) || y.is_sign_negative() != x.is_sign_negative() && !x.is_nan()).unwrap_or(true) { o.fail(format!("str({:?}) is {:?}", x, t)); return o; }
                if x.is_finite() && !matches!(&a[1], V::Some(y) if y.same(&V::Num(x))) { o.fail(format!("parse_number(str({:?})) is {:?}", x, a[1])); return o; }
                if !a[2].same(&V::Str(format!("{}|{}", t, t))) { o.fail(format!("in a link {:?} is printed as {:?}", x, a[2])); return o; }
            }
            r => { o.fail(format!("num({}): {:?}", x, r)); return o; }
        }
    }
    for x in ss {
        match dy::call(&mut dyon::Runtime::new(), &m, "txt", &[V::Str(x.clone())], false) {
            Res::Ok(V::Arr(a)) => {
                if !a[0].same(&V::Str(x.clone())) { o.fail(format!("str({:?}) is {:?}", x, a[0])); return o; }
                let j = match &a[1] { V::Str(j) => j.clone(), r => { o.fail(format!("json_string is {:?}", r)); return o; } };
                if !a[2].same(&V::Str(format!("[{}]", j))) { o.fail(format!("str of an array with {:?} is {:?}, json_string gives {:?}", x, a[2], j)); return o; }
            }
            r => { o.fail(format!("txt({:?}): {:?}", x, r)); return o; }
        }
    }
    o
}

fn case(s: &mut Src, _: &Cfg) -> Outcome { match s.below(12) { 0 | 1 => value(s), 2 => scalar(s), _ => closure(s) } }
pub fn check() -> Check {
    Check { id: "C07", quick: 4_000, thorough: 3_000_000, case, rule: "the closure gives a value on at least one of its arguments, or a value or scalar was printed and read back", probes: no_probes,
        assumptions: &["the parser and evaluator are used to read text back; they are the subject of C01, C02, C16 and C23"] }
}
