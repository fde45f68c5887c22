//! C05: links against plain lists.
use super::*;
use crate::dy::*;
use dyon::{Link, Runtime, Variable};
use std::sync::Arc;

#[derive(Clone)]
enum It { B(bool), N(f64), S(usize) }

const NSTR: usize = 5;

fn var(it: &It, pool: &[Arc<String>]) -> Variable {
    match it { It::B(b) => Variable::bool(*b), It::N(x) => Variable::f64(*x), It::S(i) => Variable::Str(pool[*i].clone()) }
}
fn is(v: &Variable, it: &It, pool: &[Arc<String>]) -> bool {
    match (v, it) {
        (Variable::Bool(a, _), It::B(b)) => a == b,
        (Variable::F64(a, _), It::N(b)) => a.to_bits() == b.to_bits(),
        (Variable::Str(a), It::S(i)) => Arc::ptr_eq(a, &pool[*i]) && **a == *pool[*i],
        _ => false,
    }
}
fn item(s: &mut Src) -> It {
    match s.below(4) {
        0 => It::N(match s.below(6) { 0..=2 => s.below(9) as f64, 3 => -0.0, 4 => f64::INFINITY, _ => 0.1 * s.below(1000) as f64 }),
        1 => It::B(s.bool()),
        _ => It::S(s.us(NSTR)),
    }
}
fn show(it: &It) -> String { match it { It::B(b) => format!("{}", b), It::N(x) => format!("{}", x), It::S(i) => format!("s{}", i) } }

/// Observes one link completely and compares with the model.
fn same_link(l: &Link, m: &[It], pool: &[Arc<String>]) -> Result<(), String> {
    if l.is_empty() != m.is_empty() { return Err(format!("is_empty {} for {} items", l.is_empty(), m.len())); }
    match (l.tip(), m.last()) {
        (None, None) => {}
        (Some(ref v), Some(it)) if is(v, it, pool) => {}
        (x, _) => return Err(format!("tip {:?}, model {:?}", x, m.last().map(show))),
    }
    let mut cur = l.clone();
    for (i, it) in m.iter().enumerate() {
        match cur.head() {
            Some(ref v) if is(v, it, pool) => {}
            x => return Err(format!("item {} of {}: {:?}, model {}", i, m.len(), x, show(it))),
        }
        cur = cur.tail();
    }
    if cur.head().is_some() || !cur.is_empty() { return Err(format!("more than the {} items of the model", m.len())); }
    Ok(())
}

fn api_case(s: &mut Src, cfg: &Cfg) -> Outcome {
    let pool: Vec<Arc<String>> = (0..NSTR).map(|i| Arc::new(format!("s{}", "x".repeat(i)))).collect();
    let mut desc = String::new();
    let mut links: Vec<(Link, Vec<It>)> = vec![(Link::new(), vec![])];
    let n = if cfg.thorough { 1 + s.us(60) } else { 1 + s.us(30) };
    let mut o = Outcome::default();
    let mut crossed = false;
    let mut shared = false;
    let r = guard(|| -> Result<(), String> {
        for step in 0..n {
            let i = s.us(links.len());
            let op = s.weighted(&[5, 3, 3, 3, 3, 2, 2, 1, 1]);
            let (l, m) = links[i].clone();
            match op {
                0 => { // push some items to a live link in place
                    let k = match s.below(8) { 0..=4 => 1 + s.us(3), 5 => 1 + s.us(30), 6 => 100 + s.us(40), _ => 120 + s.us(140) };
                    let proto: Vec<It> = (0..1 + s.us(4)).map(|_| item(s)).collect();
                    drop(l);
                    for j in 0..k {
                        let it = proto[j % proto.len()].clone();
                        links[i].0.push(&var(&it, &pool)).map_err(|e| format!("push: {}", e))?;
                        links[i].1.push(it);
                    }
                    desc.push_str(&format!("push L{} {}x[{}]\n", i, k, proto.iter().map(show).collect::<Vec<_>>().join(" ")));
                    if links[i].1.len() > 124 { crossed = true; }
                }
                1 => { desc.push_str(&format!("L{} = tail L{}\n", links.len(), i)); links.push((l.tail(), m.into_iter().skip(1).collect())); shared = true; }
                2 => { desc.push_str(&format!("L{} = neck L{}\n", links.len(), i)); let mut m = m; m.pop(); links.push((l.neck(), m)); shared = true; }
                3 => {
                    let j = s.us(links.len());
                    desc.push_str(&format!("L{} = L{} + L{}\n", links.len(), i, j));
                    let mut m = m; m.extend(links[j].1.iter().cloned());
                    if m.len() <= 2000 { let x = l.add(&links[j].0); links.push((x, m)); }
                }
                4 => { desc.push_str(&format!("L{} = clone L{}\n", links.len(), i)); links.push((l, m)); shared = true; }
                5 => { // push a whole link
                    let j = s.us(links.len());
                    let other = links[j].clone();
                    drop(l);
                    if links[i].1.len() + other.1.len() <= 2000 {
                        desc.push_str(&format!("push L{} L{}\n", i, j));
                        links[i].0.push(&Variable::Link(Box::new(other.0))).map_err(|e| format!("push: {}", e))?;
                        links[i].1.extend(other.1);
                    }
                }
                6 => { // walk
                    let k = s.us(140);
                    let front = s.bool();
                    let (mut l, mut m) = (l, m);
                    for _ in 0..k { if front { l = l.tail(); if !m.is_empty() { m.remove(0); } } else { l = l.neck(); m.pop(); } }
                    desc.push_str(&format!("L{} = {}^{} L{}\n", links.len(), if front { "tail" } else { "neck" }, k, i));
                    links.push((l, m)); shared = true;
                }
                7 => { // drop
                    if links.len() > 1 { desc.push_str(&format!("swap_remove L{}\n", i)); links.swap_remove(i); }
                }
                _ => { // a refused value changes nothing
                    desc.push_str(&format!("push L{} vec4\n", i));
                    drop(l);
                    if links[i].0.push(&Variable::Vec4([0.0; 4])).is_ok() { return Err("push of vec4 accepted".into()); }
                }
            }
            for (k, (l, m)) in links.iter().enumerate() {
                // Look at everything at the end, and at what moved at each step.
                if step + 1 == n || k == i || k + 1 == links.len() || m.len() <= 12 {
                    same_link(l, m, &pool).map_err(|e| format!("after step {} link L{}: {}", step, k, e))?;
                }
            }
            // Every string held by some link has its holders.
            for (p, a) in pool.iter().enumerate() {
                let used = links.iter().any(|(_, m)| m.iter().any(|x| matches!(x, It::S(i) if *i == p)));
                if used && Arc::strong_count(a) < 2 { return Err(format!("string s{} held by a link but not counted", p)); }
            }
        }
        links.clear();
        for (p, a) in pool.iter().enumerate() {
            if Arc::strong_count(a) != 1 { return Err(format!("string s{}: {} owners left after every link was dropped", p, Arc::strong_count(a) - 1)); }
        }
        Ok(())
    });
    o.key = hash_str(&desc);
    o.nontrivial = shared && n >= 4;
    if crossed { o.label("crossed a block"); }
    if shared { o.label("shared storage"); }
    o.desc = desc;
    match r { Err(p) => o.fail(format!("panic: {}", p)), Ok(Err(e)) => o.fail(e), _ => {} }
    // A failed history leaves its memory to the process.
    if o.violation.is_some() { std::mem::forget(links); }
    o
}

fn lit(it: &V) -> String { match it { V::Str(s) => str_lit(s), V::Num(x) => num_lit(*x), V::Bool(b) => b.to_string(), _ => unreachable!() } }

/// A Dyon program over several link variables, against lists.
fn prog_case(s: &mut Src, _cfg: &Cfg) -> Outcome {
    let mut src = String::from("fn main() -> any {\n");
    let mut vars: Vec<Vec<V>> = vec![];
    let n = 2 + s.us(14);
    let mut expect: Vec<V> = vec![];
    let gen_item = |s: &mut Src| -> V { match s.below(4) { 0 => V::Num(s.below(20) as f64), 1 => V::Bool(s.bool()), _ => V::Str(["a", "b", "", "\"", "é\n"][s.us(5)].to_string()) } };
    let mut big = false;
    for step in 0..n {
        let k = vars.len();
        let op = if k == 0 { 0 } else { s.weighted(&[4, 3, 3, 3, 3, 2, 3, 3, 2, 2, 2]) };
        let i = if k == 0 { 0 } else { s.us(k) };
        match op {
            0 => {
                let its: Vec<V> = (0..s.us(7)).map(|_| gen_item(s)).collect();
                if s.chance(1, 3) && k > 0 {
                    // Splice a variable link in the middle.
                    let at = s.us(its.len() + 1);
                    let mut t: Vec<String> = its.iter().map(lit).collect();
                    t.insert(at, format!("l{}", i));
                    src.push_str(&format!("l{} := link {{ {} }}\n", k, t.join(" ")));
                    let mut m = its.clone();
                    let mut tail = m.split_off(at);
                    m.extend(vars[i].iter().cloned());
                    m.append(&mut tail);
                    vars.push(m);
                } else {
                    src.push_str(&format!("l{} := link {{ {} }}\n", k, its.iter().map(lit).collect::<Vec<_>>().join(" ")));
                    vars.push(its);
                }
            }
            1 => { src.push_str(&format!("l{} := tail(l{})\n", k, i)); let m = vars[i].iter().skip(1).cloned().collect(); vars.push(m); }
            2 => { src.push_str(&format!("l{} := neck(l{})\n", k, i)); let mut m = vars[i].clone(); m.pop(); vars.push(m); }
            3 => { let j = s.us(k); if vars[i].len() + vars[j].len() < 3000 {
                src.push_str(&format!("l{} := l{} + l{}\n", k, i, j)); let mut m = vars[i].clone(); m.extend(vars[j].iter().cloned()); vars.push(m); } }
            4 => { let it = gen_item(s); src.push_str(&format!("l{} += {}\n", i, lit(&it))); vars[i].push(it); }
            5 => { let j = s.us(k); if j != i && vars[i].len() + vars[j].len() < 3000 {
                src.push_str(&format!("l{} += l{}\n", i, j)); let m = vars[j].clone(); vars[i].extend(m); } }
            6 => { let c = [3, 10, 123, 124, 125, 250][s.us(6)]; let it = gen_item(s); if vars[i].len() < 2000 {
                src.push_str(&format!("for q {} {{ l{} += {} }}\n", c, i, lit(&it))); for _ in 0..c { vars[i].push(it.clone()); } if vars[i].len() > 124 { big = true; } } }
            7 => { src.push_str(&format!("l{} := clone(l{})\n", k, i)); let m = vars[i].clone(); vars.push(m); }
            8 => { let c = s.us(6); let it = gen_item(s);
                src.push_str(&format!("l{} := link q {} {{ q {} }}\n", k, c, lit(&it)));
                let mut m = vec![]; for q in 0..c { m.push(V::Num(q as f64)); m.push(it.clone()); } vars.push(m); }
            9 => { src.push_str(&format!("emit(head(l{}))\nemit(tip(l{}))\n", i, i));
                let w = |x: Option<&V>| match x { None => V::None, Some(v) => V::Some(Box::new(v.clone())) };
                expect.push(w(vars[i].first())); expect.push(w(vars[i].last())); }
            _ => { src.push_str(&format!("emit(is_empty(l{}))\nemit(str(l{}))\n", i, i));
                expect.push(V::Bool(vars[i].is_empty()));
                let mut t = String::new();
                for x in &vars[i] { match x { V::Str(a) => t.push_str(a), V::Num(a) => t.push_str(&a.to_string()), V::Bool(b) => t.push_str(&b.to_string()), _ => {} } }
                expect.push(V::Str(t)); }
        }
        let _ = step;
    }
    for (i, m) in vars.iter().enumerate() { src.push_str(&format!("emit(l{})\n", i)); expect.push(V::Link(m.clone())); }
    src.push_str("return 1\n}\n");
    let (r, log) = run_fn(&src, "main", &[], 10_000, false);
    let mut o = Outcome::of(src);
    o.nontrivial = vars.len() >= 2 && n >= 4;
    o.label("dyon program");
    if big { o.label("crossed a block"); }
    match r {
        Res::Ok(_) => {}
        r => { o.fail(format!("program did not run: {:?}", r)); return o; }
    }
    if log.len() != expect.len() { o.fail(format!("{} effects, model {}", log.len(), expect.len())); return o; }
    for (i, (a, b)) in log.iter().zip(&expect).enumerate() {
        if !a.same(b) {
            let cut = |v: &V| format!("{:?}", v).chars().take(600).collect::<String>();
            o.fail(format!("effect {}: {} , model {}", i, cut(a), cut(b)));
            break;
        }
    }
    o
}

fn case(s: &mut Src, cfg: &Cfg) -> Outcome {
    if s.chance(1, 4) { prog_case(s, cfg) } else { api_case(s, cfg) }
}

fn probes(_: &Cfg) -> Vec<Probe> {
    let a = Arc::new(String::from("leak"));
    {
        let mut l = Link::new();
        l.push(&Variable::Str(a.clone())).unwrap();
        l.push(&Variable::Str(a.clone())).unwrap();
        let mut m = l.neck();
        m.push(&Variable::f64(1.0)).unwrap();
    }
    let _ = Runtime::new();
    vec![Probe { name: "neck-push-leak", fails: Arc::strong_count(&a) != 1, desc: format!("neck then push leaves {} owners of a released string", Arc::strong_count(&a) - 1) }]
}

pub fn check() -> Check {
    Check {
        id: "C05", quick: 40_000, thorough: 1_000_000, case, probes,
        rule: "at least four operations, some link sharing storage with another (tail, neck or clone), or a Dyon program over two or more links",
        assumptions: &["strings held by a block that is still shared may outlive the link that shows them"],
    }
}
