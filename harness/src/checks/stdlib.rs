//! C20: array, string, object, option and result library functions. C21: numbers, vectors, matrices and colors.
use super::*;
use crate::dy::{self, Res, V};
use crate::gen;
use dyon::{Module, Runtime};
use std::cell::RefCell;
use std::sync::Arc;

const PROG: &str = r#"
fn history(start: [any], ops: [any]) -> any {
    a := clone(start)
    keep := a
    out := []
    for i len(ops) {
        op := ops[i]
        k := op.k
        if k == "push" { push(mut a, op.x) }
        else if k == "insert" { insert(mut a, op.i, op.x) }
        else if k == "pop" {
            x := pop(mut a)
            push(mut out, clone(x))
        }
        else if k == "remove" {
            x := remove(mut a, op.i)
            push(mut out, clone(x))
        }
        else if k == "reverse" { reverse(mut a) }
        else if k == "clear" { clear(mut a) }
        else if k == "swap" { swap(mut a, op.i, op.j) }
        else if k == "keep" { keep = clone(a) }
        else if k == "set" { a[op.i] = clone(op.x) }
        else if k == "get" { push(mut out, a[op.i]) }
        emit([len(a), clone(a), clone(keep)])
    }
    return [clone(a), clone(keep), clone(out)]
}
fn l_len(a: any) -> any { return len(a) }
fn l_push(a: any, x: any) -> any { b := clone(a)
    push(mut b, x)
    return clone(b)
}
fn l_push_ref(a: any, x: any) -> any { y := clone(x)
    b := clone(a)
    push_ref(mut b, y)
    return clone(b)
}
fn l_insert(a: any, i: any, x: any) -> any { b := clone(a)
    insert(mut b, i, x)
    return clone(b)
}
fn l_insert_ref(a: any, i: any, x: any) -> any { y := clone(x)
    b := clone(a)
    insert_ref(mut b, i, y)
    return clone(b)
}
fn l_pop(a: any) -> any { b := clone(a)
    x := pop(mut b)
    return clone([x, b])
}
fn l_remove(a: any, i: any) -> any { b := clone(a)
    x := remove(mut b, i)
    return clone([x, b])
}
fn l_reverse(a: any) -> any { b := clone(a)
    reverse(mut b)
    return clone(b)
}
fn l_clear(a: any) -> any { b := clone(a)
    clear(mut b)
    return clone(b)
}
fn l_swap(a: any, i: any, j: any) -> any { b := clone(a)
    swap(mut b, i, j)
    return clone(b)
}
fn l_trim(t: any) -> any { return trim(t) }
fn l_trim_left(t: any) -> any { return trim_left(t) }
fn l_trim_right(t: any) -> any { return trim_right(t) }
fn l_str(t: any) -> any { return str(t) }
fn l_parse_number(t: any) -> any { return parse_number(t) }
fn l_json_string(t: any) -> any { return json_string(t) }
fn l_chars(t: any) -> any { return chars(t) }
fn l_typeof(t: any) -> any { return typeof(t) }
fn l_has(o: any, k: any) -> any { return has(o, k) }
fn l_keys(o: any) -> any { return keys(o) }
fn l_min(a: any) -> any { return min(a) }
fn l_max(a: any) -> any { return max(a) }
fn l_eq(a: any, b: any) -> any { return a == b }
fn l_ne(a: any, b: any) -> any { return a != b }
fn l_some(a: any) -> any { return some(a) }
fn l_none() -> any { return none() }
fn l_ok(a: any) -> any { return ok(a) }
fn l_err(a: any) -> any { return err(a) }
fn l_unwrap(a: any) -> any { return unwrap(a) }
fn l_unwrap_or(a: any, b: any) -> any { return clone(unwrap_or(a, b)) }
fn l_unwrap_err(a: any) -> any { return unwrap_err(a) }
fn l_is_ok(a: any) -> any { return is_ok(a) }
fn l_is_err(a: any) -> any { return is_err(a) }
fn l_less(a: any, b: any) -> any { return [a < b, a <= b, a > b, a >= b] }
fn m_round(a: any) -> any { return round(a) }
fn m_abs(a: any) -> any { return abs(a) }
fn m_floor(a: any) -> any { return floor(a) }
fn m_ceil(a: any) -> any { return ceil(a) }
fn m_sqrt(a: any) -> any { return sqrt(a) }
fn m_sin(a: any) -> any { return sin(a) }
fn m_asin(a: any) -> any { return asin(a) }
fn m_cos(a: any) -> any { return cos(a) }
fn m_acos(a: any) -> any { return acos(a) }
fn m_tan(a: any) -> any { return tan(a) }
fn m_atan(a: any) -> any { return atan(a) }
fn m_atan2(a: any, b: any) -> any { return atan2(a, b) }
fn m_exp(a: any) -> any { return exp(a) }
fn m_ln(a: any) -> any { return ln(a) }
fn m_log2(a: any) -> any { return log2(a) }
fn m_log10(a: any) -> any { return log10(a) }
fn m_is_nan(a: any) -> any { return is_nan(a) }
fn m_tau() -> any { return tau() }
fn m_random() -> any { return random() }
fn m_dir(a: any) -> any { return dir(angle: a) }
fn v_x(a: any) -> any { return x(a) }
fn v_y(a: any) -> any { return y(a) }
fn v_z(a: any) -> any { return z(a) }
fn v_w(a: any) -> any { return w(a) }
fn v_s(a: any, i: any) -> any { return s(a, i) }
fn v_norm(a: any) -> any { return norm(a) }
fn v_bars(a: any) -> any { return |a| }
fn v_dot(a: any, b: any) -> any { return dot(a, b) }
fn v_cross(a: any, b: any) -> any { return cross(a, b) }
fn r_x(m: any) -> any { return rx(m) }
fn r_y(m: any) -> any { return ry(m) }
fn r_z(m: any) -> any { return rz(m) }
fn r_w(m: any) -> any { return rw(m) }
fn r_v(m: any, i: any) -> any { return rv(m, i) }
fn c_x(m: any) -> any { return cx(m) }
fn c_y(m: any) -> any { return cy(m) }
fn c_z(m: any) -> any { return cz(m) }
fn c_w(m: any) -> any { return cw(m) }
fn c_v(m: any, i: any) -> any { return cv(m, i) }
fn t_det(m: any) -> any { return det(m) }
fn t_inv(m: any) -> any { return inv(m) }
fn t_mov(v: any) -> any { return mov(v) }
fn t_scale(v: any) -> any { return scale(v) }
fn t_rot(a: any, b: any) -> any { return rot(axis: a, angle: b) }
fn t_ortho(a: any, b: any, c: any, d: any) -> any { return ortho(pos: a, right: b, up: c, forward: d) }
fn t_proj(a: any, b: any, c: any, d: any) -> any { return proj(fov: a, near: b, far: c, ar: d) }
fn t_mvp(a: any, b: any, c: any) -> any { return mvp(model: a, view: b, projection: c) }
fn t_rows(a: any, b: any, c: any, d: any) -> any { return mat4 {a; b; c; d} }
fn t_mul(a: any, b: any) -> any { return a * b }
fn k_str(v: any) -> any { return str(color: v) }
fn k_lin(v: any) -> any { return srgb_to_linear(color: v) }
fn k_srgb(v: any) -> any { return linear_to_srgb(color: v) }
fn k_data(t: str) -> any { return load_data(string: t) }
"#;

thread_local! { static MODULE: RefCell<Option<Arc<Module>>> = RefCell::new(None); }
fn module() -> Result<Arc<Module>, String> {
    if let Some(m) = MODULE.with(|m| m.borrow().clone()) { return Ok(m); }
    match dy::load(PROG) {
        Ok(Ok(m)) => { MODULE.with(|x| *x.borrow_mut() = Some(m.clone())); Ok(m) }
        Ok(Err(e)) | Err(e) => Err(e),
    }
}
fn lib(f: &str, args: &[V]) -> Res {
    match module() { Ok(m) => dy::call(&mut Runtime::new(), &m, f, args, true), Err(e) => Res::LoadErr(e) }
}
fn desc(f: &str, args: &[V]) -> String { format!("{}{:?}", f, args) }

/// Expected outcome of a library call.
enum W { Is(V), Error, Where(fn(&V, &[V]) -> bool, &'static str) }
fn expect(o: &mut Outcome, f: &'static str, args: &[V], w: W) {
    o.label(f);
    let r = lib(f, args);
    match (&w, &r) {
        (_, Res::Panic(p)) => o.fail(format!("{}: panic {}", desc(f, args), p)),
        (_, Res::LoadErr(e)) => o.fail(format!("library program rejected: {}", e)),
        (W::Is(v), Res::Ok(g)) => if !v.same(g) { o.fail(format!("{}: expected {:?}, got {:?}", desc(f, args), v, g)) },
        (W::Where(t, text), Res::Ok(g)) => if !t(g, args) { o.fail(format!("{}: {:?} is not {}", desc(f, args), g, text)) },
        (W::Error, Res::Ok(g)) => o.fail(format!("{}: expected an error, got {:?}", desc(f, args), g)),
        (W::Error, Res::RunErr(_)) => o.label("error reported"),
        (_, Res::RunErr(e)) => o.fail(format!("{}: unexpected error {}", desc(f, args), e)),
    }
}

const ANY: gen::ValOpts = gen::ValOpts { nums: gen::any_num, f32s: gen::any_f32, links: true, opts: true, results: true, mats: true, vecs: true };
const PLAIN: gen::ValOpts = gen::ValOpts { nums: gen::small_num, f32s: gen::any_f32, links: false, opts: true, results: false, mats: false, vecs: true };
fn any(s: &mut Src) -> V { gen::value(s, &ANY, 2) }
fn kind(v: &V) -> &'static str {
    match v {
        V::Bool(_) => "boolean", V::Num(_) => "number", V::Str(_) => "string", V::Vec4(_) => "vec4", V::Mat4(_) => "mat4", V::Arr(_) => "array",
        V::Obj(_) => "object", V::Link(_) => "link", V::None | V::Some(_) => "option", V::Ok(_) | V::Err(_) => "result", _ => "?",
    }
}
fn other_kind(s: &mut Src, k: &str) -> V { loop { let v = if s.bool() { any(s) } else { gen::scalar(s, &ANY) }; if kind(&v) != k { return v; } if s.rec.len() > 5000 { return if k == "number" { V::Bool(false) } else { V::Num(0.0) }; } if s.chance(0, 2) { break V::None } } }

/// An index: mostly in range, sometimes with a fraction (which is dropped), sometimes past the end.
fn index(s: &mut Src, n: usize, ok: &mut bool, slack: usize) -> (f64, usize) {
    let lim = n + slack;
    if lim > 0 && !s.chance(1, 12) {
        let i = s.us(lim);
        let x = i as f64 + if s.chance(1, 8) { *s.pick(&[0.25, 0.5, 0.999]) } else { 0.0 };
        (x, i)
    } else {
        *ok = false;
        let i = lim + s.us(4);
        (if s.chance(1, 4) { *s.pick(&[1e300, 4294967296.0, f64::INFINITY]) } else { i as f64 }, i)
    }
}
fn obj(kv: Vec<(&str, V)>) -> V { V::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect()) }

fn history(s: &mut Src) -> Outcome {
    let n = s.len(8);
    let start: Vec<V> = (0..n).map(|_| gen::value(s, &ANY, 1)).collect();
    let mut a = start.clone();
    let mut keep = start.clone();
    let mut ops = vec![];
    let mut outs = vec![];
    let mut log = vec![];
    let mut ok = true;
    let mut o = Outcome::default();
    let m = 1 + s.len(24);
    for _ in 0..m {
        let k = *s.pick(&["push", "insert", "pop", "remove", "reverse", "swap", "clear", "keep", "set", "get", "push", "insert", "remove"]);
        if k == "clear" && s.bool() { continue; }
        let mut f = vec![("k", V::str(k))];
        match k {
            "push" | "push_ref" => { let x = gen::value(s, &ANY, 1); f.push(("x", x.clone())); a.push(x); }
            "insert" | "insert_ref" => { let (x, i) = index(s, a.len(), &mut ok, 1); let v = gen::value(s, &ANY, 1); f.push(("i", V::Num(x))); f.push(("x", v.clone())); if ok { a.insert(i, v); } }
            "pop" => match a.pop() { Some(x) => outs.push(x), None => ok = false },
            "remove" => { let (x, i) = index(s, a.len(), &mut ok, 0); f.push(("i", V::Num(x))); if ok { outs.push(a.remove(i)); } }
            "get" => { let (x, i) = index(s, a.len(), &mut ok, 0); f.push(("i", V::Num(x))); if ok { outs.push(a[i].clone()); } }
            "set" => {
                // `=` keeps the type of the element.
                let (x, i) = index(s, a.len(), &mut ok, 0);
                f.push(("i", V::Num(x)));
                let v = if ok { match &a[i] { V::Num(_) => V::Num(gen::small_num(s)), V::Str(_) => V::Str(gen::any_string(s, 4)), V::Bool(b) => V::Bool(!*b), V::Arr(_) => V::Arr(vec![V::Num(1.0)]), _ => continue } } else { V::Num(1.0) };
                f.push(("x", v.clone()));
                if ok { a[i] = v; }
            }
            "reverse" => a.reverse(),
            "clear" => a.clear(),
            "swap" => { let (x, i) = index(s, a.len(), &mut ok, 0); let (y, j) = index(s, a.len(), &mut ok, 0); f.push(("i", V::Num(x))); f.push(("j", V::Num(y))); if ok { a.swap(i, j); } }
            _ => keep = a.clone(),
        }
        o.label(match k { "push" => "push", "insert" => "insert", "pop" => "pop", "remove" => "remove", "swap" => "swap", "set" => "set", "reverse" => "reverse", "clear" => "clear", "push_ref" => "push_ref", "insert_ref" => "insert_ref", _ => "read" });
        ops.push(obj(f));
        if !ok { break; }
        log.push(V::Arr(vec![V::Num(a.len() as f64), V::Arr(a.clone()), V::Arr(keep.clone())]));
    }
    o.desc = format!("start {:?}\nops {:#?}", start, ops);
    o.key = crate::engine::hash_str(&o.desc);
    o.nontrivial = ops.len() >= 3;
    let _ = dy::take_log();
    dy::LIMIT.with(|l| l.set(1000));
    let r = lib("history", &[V::Arr(start), V::Arr(ops)]);
    let got = dy::take_log();
    match r {
        Res::Panic(p) => o.fail(format!("panic {}", p)),
        Res::LoadErr(e) => o.fail(format!("library program rejected: {}", e)),
        Res::Ok(v) => {
            if !ok { o.fail(format!("the last operation is out of range but no error was reported; result {:?}", v)); }
            else { let w = V::Arr(vec![V::Arr(a), V::Arr(keep), V::Arr(outs)]); if !w.same(&v) { o.fail(format!("expected {:?}, got {:?}", w, v)); } }
        }
        Res::RunErr(e) => { o.label("error reported"); if ok { o.fail(format!("unexpected error {}", e)); } }
    }
    for (i, w) in log.iter().enumerate() {
        match got.get(i) { Some(g) if w.same(g) => {}, g => { o.fail(format!("after operation {}: expected [length, array, copy] {:?}, got {:?}", i, w, g)); break; } }
    }
    o
}

fn is_space(c: char) -> bool {
    // Unicode White_Space.
    matches!(c as u32, 9..=13 | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}
fn spacey(s: &mut Src) -> String {
    let mut t = String::new();
    let sp = |s: &mut Src, t: &mut String| { let n = s.len(3); for _ in 0..n { t.push(*s.pick(&[' ', '\n', '\t', '\r', '\u{a0}', '\u{2003}', '\u{b}', '\u{c}', '\u{85}', '\u{3000}', '\u{200b}', '\u{feff}'])); } };
    sp(s, &mut t);
    t.push_str(&gen::any_string(s, 6));
    sp(s, &mut t);
    if s.bool() { t.push_str(&gen::any_string(s, 3)); }
    sp(s, &mut t);
    t
}
fn trimmed(t: &str, l: bool, r: bool) -> String {
    let c: Vec<char> = t.chars().collect();
    let (mut i, mut j) = (0, c.len());
    while l && i < j && is_space(c[i]) { i += 1 }
    while r && j > i && is_space(c[j - 1]) { j -= 1 }
    c[i..j].iter().collect()
}
/// Reads a JSON string.
pub fn unjson(t: &str) -> Option<String> {
    let c: Vec<char> = t.chars().collect();
    if c.len() < 2 || c[0] != '"' || c[c.len() - 1] != '"' { return None; }
    let mut r = String::new();
    let mut i = 1;
    while i < c.len() - 1 {
        match c[i] {
            '"' => return None,
            '\\' => {
                i += 1;
                if i >= c.len() - 1 { return None; }
                match c[i] {
                    'n' => r.push('\n'), 't' => r.push('\t'), 'r' => r.push('\r'), 'b' => r.push('\u{8}'), 'f' => r.push('\u{c}'), '"' => r.push('"'), '\\' => r.push('\\'), '/' => r.push('/'),
                    'u' => {
                        if i + 4 >= c.len() - 1 + 0 && i + 4 > c.len() - 2 { return None; }
                        let h: String = c[i + 1..i + 5].iter().collect();
                        r.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                        i += 4;
                    }
                    _ => return None,
                }
            }
            x if (x as u32) < 0x20 => return None,
            x => r.push(x),
        }
        i += 1;
    }
    Some(r)
}
/// Equality as documented: numbers, strings, booleans, vec4, objects, arrays and options; nested values of other kinds differ.
fn eq(a: &V, b: &V) -> Option<bool> {
    Some(match (a, b) {
        (V::Num(a), V::Num(b)) => a == b,
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Str(a), V::Str(b)) => a == b,
        (V::Vec4(a), V::Vec4(b)) => a == b,
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y) == Some(true)),
        (V::Obj(a), V::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| eq(x, y) == Some(true))),
        (V::None, V::None) => true,
        (V::None, V::Some(_)) | (V::Some(_), V::None) => false,
        (V::Some(a), V::Some(b)) => return eq(a, b),
        _ => return None,
    })
}
/// Changes one place of a value, keeping its kind mostly.
fn tweak(s: &mut Src, v: &V) -> V {
    match v {
        V::Num(x) => V::Num(*s.pick(&[x + 1.0, -x, x * 2.0, f64::from_bits(x.to_bits() ^ 1)])),
        V::Bool(b) => V::Bool(!b),
        V::Str(t) => { let mut c: Vec<char> = t.chars().collect(); match s.below(3) { 0 => c.push('x'), 1 => { c.pop(); } _ => if let Some(x) = c.first_mut() { *x = 'q' } } V::Str(c.into_iter().collect()) }
        V::Vec4(x) => { let mut x = *x; let i = s.us(4); x[i] += 1.0; V::Vec4(x) }
        V::Arr(a) => { let mut a = a.clone(); match s.below(3) { 0 => a.push(V::Num(0.0)), 1 => { a.pop(); } _ => if !a.is_empty() { let i = s.us(a.len()); a[i] = tweak(s, &a[i].clone()); } } V::Arr(a) }
        V::Obj(o) => {
            let mut o = o.clone();
            let k = if o.is_empty() { None } else { let i = s.us(o.len()); Some(o.keys().nth(i).unwrap().clone()) };
            match (s.below(4), k) {
                (0, _) => { o.insert("new".into(), V::Num(0.0)); }
                (1, Some(k)) => { o.remove(&k); }
                (2, Some(k)) => { let x = o.remove(&k).unwrap(); o.insert(format!("{}z", k), x); }
                (_, Some(k)) => { let x = tweak(s, &o[&k].clone()); o.insert(k, x); }
                _ => {}
            }
            V::Obj(o)
        }
        V::Some(x) => if s.chance(1, 4) { V::None } else { V::Some(Box::new(tweak(s, x))) },
        V::None => V::Some(Box::new(V::None)),
        x => x.clone(),
    }
}
/// Numbers in text form as people write them.
fn number_text(s: &mut Src) -> String {
    match s.below(8) {
        0 => format!("{}", gen::any_num(s)),
        1 => format!("{:e}", gen::finite(s)),
        2 => s.pick(&["", ".", "+", "-", "1.", ".5", "+1", "--1", "1e", "1e5", "1E-3", "0x10", "1_000", "inf", "-inf", "nan", "NaN", "infinity", "1 2", "1,5", "1e400", "00012", "-0", "∞"]).to_string(),
        3 => gen::any_string(s, 4),
        4 => format!("{}.{}", s.range(-999, 999), s.range(0, 99999)),
        5 => format!("{}e{}", s.range(-99, 99), s.range(-320, 320)),
        6 => { let mut t = format!("{}", gen::finite(s)); t.push(gen::any_char(s)); t }
        _ => format!("{}", s.range(-100000, 100000)),
    }
}
/// Decimal number syntax: optional sign, digits with an optional fraction, optional exponent, or inf/infinity/nan.
fn decimal(t: &str) -> Option<f64> {
    let u = t.strip_prefix(|c| c == '+' || c == '-').unwrap_or(t);
    let neg = t.starts_with('-');
    let l = u.to_ascii_lowercase();
    if l == "inf" || l == "infinity" { return Some(if neg { f64::NEG_INFINITY } else { f64::INFINITY }); }
    if l == "nan" { return Some(f64::NAN); }
    let (mant, exp) = match l.find('e') { Some(i) => (&l[..i], Some(&l[i + 1..])), None => (&l[..], None) };
    let mut parts = mant.splitn(2, '.');
    let a = parts.next().unwrap();
    let b = parts.next().unwrap_or("");
    if a.is_empty() && b.is_empty() || !a.bytes().all(|c| c.is_ascii_digit()) || !b.bytes().all(|c| c.is_ascii_digit()) { return None; }
    if let Some(e) = exp { let e = e.strip_prefix(|c| c == '+' || c == '-').unwrap_or(e); if e.is_empty() || !e.bytes().all(|c| c.is_ascii_digit()) { return None; } }
    t.parse().ok()
}

fn plain_text(v: &V) -> Option<String> {
    // Text of values whose text form has no choice.
    fn nested(v: &V) -> Option<String> {
        Some(match v {
            V::Bool(b) => b.to_string(),
            V::Num(x) => format!("{}", x),
            V::Arr(a) => { let t: Option<Vec<String>> = a.iter().map(nested).collect(); format!("[{}]", t?.join(", ")) }
            V::None => "none()".into(),
            V::Some(x) => format!("some({})", nested(x)?),
            V::Ok(x) => format!("ok({})", nested(x)?),
            V::Err(x) => format!("err({})", nested(x)?),
            V::Str(t) => if t.chars().all(|c| c.is_ascii_alphanumeric()) { format!("\"{}\"", t) } else { return None },
            V::Vec4(c) => { let mut n = 2; if c[2] != 0.0 { n = 3 } if c[3] != 0.0 { n = 4 } format!("({})", c[..n].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")) }
            _ => return None,
        })
    }
    match v { V::Str(t) => Some(t.clone()), V::Link(l) => l.iter().map(plain_text).collect::<Option<Vec<_>>>().map(|t| t.concat()), _ => nested(v) }
}

fn c20(s: &mut Src, _: &Cfg) -> Outcome {
    if s.below(3) == 0 { return history(s); }
    let mut o = Outcome::default();
    o.nontrivial = true;
    let mut d: Vec<String> = vec![];
    macro_rules! ex { ($f:expr, $args:expr, $w:expr) => {{ let a = $args; d.push(desc($f, &a)); expect(&mut o, $f, &a, $w); }} }
    for _ in 0..1 + s.us(4) {
        match s.below(14) {
            0 => { let t = spacey(s); ex!("l_trim", vec![V::str(&t[..])], W::Is(V::Str(trimmed(&t, true, true)))); ex!("l_trim_left", vec![V::str(&t[..])], W::Is(V::Str(trimmed(&t, true, false)))); ex!("l_trim_right", vec![V::str(&t[..])], W::Is(V::Str(trimmed(&t, false, true)))); }
            1 => { let t = number_text(s); let mut u = String::new(); if s.bool() { u.push_str(s.pick(&[" ", "\n", "\t "])); } u.push_str(&t); if s.bool() { u.push_str(s.pick(&[" ", "\n", "\r\n"])); }
                let w = decimal(&trimmed(&u, true, true));
                ex!("l_parse_number", vec![V::Str(u)], W::Is(match w { Some(x) => V::Some(Box::new(V::Num(x))), None => V::None })); }
            2 => { let x = gen::any_num(s); let t = format!("{}", x); ex!("l_str", vec![V::Num(x)], W::Is(V::Str(t.clone()))); ex!("l_parse_number", vec![V::Str(t)], W::Is(V::Some(Box::new(V::Num(x))))); }
            3 => { let v = any(s); if let Some(t) = plain_text(&v) { ex!("l_str", vec![v], W::Is(V::Str(t))); } }
            4 => { let t = gen::any_string(s, 10); ex!("l_json_string", vec![V::str(&t[..])], W::Where(|g, a| match (g, &a[0]) { (V::Str(g), V::Str(t)) => unjson(g).as_ref() == Some(t), _ => false }, "the JSON form of the text")); }
            5 => { let t = gen::any_string(s, 10); let w = V::Arr(t.chars().map(|c| V::Str(c.to_string())).collect()); ex!("l_chars", vec![V::Str(t)], W::Is(w)); }
            6 => { let v = any(s); let k = kind(&v); ex!("l_typeof", vec![v], W::Is(V::str(k))); }
            7 => {
                let v = loop { let v = gen::value(s, &ANY, 2); if let V::Obj(_) = v { break v; } if s.rec.len() > 2000 { break V::Obj(Default::default()); } if s.chance(0, 2) { break v } };
                let m = match &v { V::Obj(m) => m.clone(), _ => Default::default() };
                let k = if !m.is_empty() && s.bool() { let i = s.us(m.len()); m.keys().nth(i).unwrap().clone() } else { gen::key(s) };
                let h = m.contains_key(&k);
                ex!("l_has", vec![v.clone(), V::Str(k)], W::Is(V::Bool(h)));
                ex!("l_keys", vec![v], W::Where(|g, a| match (g, &a[0]) {
                    (V::Arr(g), V::Obj(m)) => g.len() == m.len() && m.keys().all(|k| g.iter().any(|x| matches!(x, V::Str(t) if t == k))), _ => false }, "the list of keys"));
            }
            8 => {
                let n = s.len(6);
                let a: Vec<V> = (0..n).map(|_| V::Num(if s.chance(1, 10) { gen::any_num(s) } else { gen::finite(s) })).collect();
                if a.iter().any(|x| matches!(x, V::Num(x) if x.is_nan())) { continue; }
                let xs: Vec<f64> = a.iter().map(|x| if let V::Num(x) = x { *x } else { 0.0 }).collect();
                let lo = xs.iter().cloned().fold(f64::NAN, f64::min);
                let hi = xs.iter().cloned().fold(f64::NAN, f64::max);
                if lo == 0.0 || hi == 0.0 { continue; }
                ex!("l_min", vec![V::Arr(a.clone())], W::Is(V::Num(lo)));
                ex!("l_max", vec![V::Arr(a.clone())], W::Is(V::Num(hi)));
                ex!("l_len", vec![V::Arr(a)], W::Is(V::Num(n as f64)));
            }
            9 => {
                let op = if s.bool() { &ANY } else { &PLAIN };
                let a = gen::value(s, op, 2);
                let b = match s.below(4) { 0 => a.clone(), 1 | 2 => tweak(s, &a), _ => any(s) };
                let w = eq(&a, &b);
                ex!("l_eq", vec![a.clone(), b.clone()], match w { Some(x) => W::Is(V::Bool(x)), None => W::Error });
                ex!("l_ne", vec![a.clone(), b.clone()], match w { Some(x) => W::Is(V::Bool(!x)), None => W::Error });
                ex!("l_eq", vec![b, a], match w { Some(x) => W::Is(V::Bool(x)), None => W::Error });
            }
            10 => {
                let v = any(s);
                let (a, b) = (any(s), V::Ok(Box::new(v.clone())));
                ex!("l_some", vec![v.clone()], W::Is(V::Some(Box::new(v.clone()))));
                ex!("l_ok", vec![v.clone()], W::Is(b.clone()));
                ex!("l_err", vec![v.clone()], W::Is(V::Err(Box::new(v.clone()))));
                ex!("l_unwrap", vec![V::Some(Box::new(v.clone()))], W::Is(v.clone()));
                ex!("l_unwrap", vec![b.clone()], W::Is(v.clone()));
                ex!("l_unwrap", vec![V::Err(Box::new(v.clone()))], W::Error);
                ex!("l_unwrap_err", vec![V::Err(Box::new(v.clone()))], W::Is(v.clone()));
                ex!("l_unwrap_err", vec![b.clone()], W::Error);
                ex!("l_unwrap_or", vec![b.clone(), a.clone()], W::Is(v.clone()));
                ex!("l_unwrap_or", vec![V::Some(Box::new(v.clone())), a.clone()], W::Is(v.clone()));
                ex!("l_unwrap_or", vec![V::Err(Box::new(v.clone())), a.clone()], W::Is(a.clone()));
                ex!("l_unwrap_or", vec![V::None, a.clone()], W::Is(a.clone()));
                ex!("l_is_ok", vec![b.clone()], W::Is(V::Bool(true)));
                ex!("l_is_err", vec![b], W::Is(V::Bool(false)));
                ex!("l_is_ok", vec![V::Err(Box::new(v.clone()))], W::Is(V::Bool(false)));
                ex!("l_is_err", vec![V::Err(Box::new(v))], W::Is(V::Bool(true)));
                ex!("l_unwrap", vec![V::None], W::Error);
                ex!("l_none", vec![], W::Is(V::None));
            }
            11 => {
                let (a, b) = if s.bool() { (V::Str(gen::any_string(s, 3)), V::Str(gen::any_string(s, 3))) } else { (V::Num(gen::any_num(s)), V::Num(gen::any_num(s))) };
                let b = if s.chance(1, 3) { a.clone() } else { b };
                let w = match (&a, &b) { (V::Num(x), V::Num(y)) => [x < y, x <= y, x > y, x >= y], (V::Str(x), V::Str(y)) => [x < y, x <= y, x > y, x >= y], _ => continue };
                ex!("l_less", vec![a, b], W::Is(V::Arr(w.iter().map(|x| V::Bool(*x)).collect())));
            }
            12 => {
                // Arguments of a wrong kind are errors.
                let arr = V::Arr((0..s.len(3)).map(|_| any(s)).collect());
                let (na, nn, ns, no) = (other_kind(s, "array"), other_kind(s, "number"), other_kind(s, "string"), other_kind(s, "object"));
                let nr = other_kind(s, "result");
                match s.below(18) {
                    0 => ex!("l_len", vec![na], W::Error),
                    1 => ex!("l_push", vec![na, V::Num(1.0)], W::Error),
                    2 => ex!("l_insert", vec![na, V::Num(0.0), V::Num(1.0)], W::Error),
                    3 => ex!("l_insert", vec![arr, nn, V::Num(1.0)], W::Error),
                    4 => ex!("l_pop", vec![na], W::Error),
                    5 => ex!("l_remove", vec![na, V::Num(0.0)], W::Error),
                    6 => ex!("l_remove", vec![arr, nn], W::Error),
                    7 => ex!("l_reverse", vec![na], W::Error),
                    8 => ex!("l_clear", vec![na], W::Error),
                    9 => ex!("l_swap", vec![na, V::Num(0.0), V::Num(0.0)], W::Error),
                    10 => ex!("l_swap", vec![V::Arr(vec![V::Num(0.0), V::Num(1.0)]), V::Num(0.0), nn], W::Error),
                    11 => { let f = *s.pick(&["l_trim", "l_trim_left", "l_trim_right", "l_parse_number", "l_chars"]); ex!(f, vec![ns], W::Error) }
                    12 => ex!("l_has", vec![no, V::str("a")], W::Error),
                    13 => ex!("l_has", vec![V::Obj(Default::default()), ns], W::Error),
                    14 => ex!("l_keys", vec![no], W::Error),
                    15 => { let f = *s.pick(&["l_min", "l_max"]); ex!(f, vec![na], W::Error) }
                    16 => { let f = *s.pick(&["l_is_ok", "l_is_err", "l_unwrap_err"]); ex!(f, vec![nr], W::Error) }
                    _ => { let f = *s.pick(&["l_push_ref", "l_swap"]); if f == "l_swap" { ex!(f, vec![arr, V::Num(1e9), V::Num(0.0)], W::Error) } else { ex!(f, vec![na, V::Num(1.0)], W::Error) } }
                }
            }
            _ => {
                // Single operations on an array leave the argument alone and change what they say.
                let n = s.len(6);
                let a: Vec<V> = (0..n).map(|_| gen::value(s, &ANY, 1)).collect();
                let x = any(s);
                let mut w = a.clone(); w.push(x.clone());
                ex!("l_push", vec![V::Arr(a.clone()), x.clone()], W::Is(V::Arr(w.clone())));
                ex!("l_push_ref", vec![V::Arr(a.clone()), x.clone()], W::Is(V::Arr(w)));
                let i = s.us(n + 1);
                let mut w = a.clone(); w.insert(i, x.clone());
                ex!("l_insert", vec![V::Arr(a.clone()), V::Num(i as f64), x.clone()], W::Is(V::Arr(w.clone())));
                ex!("l_insert_ref", vec![V::Arr(a.clone()), V::Num(i as f64), x.clone()], W::Is(V::Arr(w)));
            }
        }
        if o.violation.is_some() { break; }
    }
    o.desc = d.join("\n");
    o.key = crate::engine::hash_str(&o.desc);
    if d.is_empty() { o.discard = true; }
    o
}

fn probes20(_: &Cfg) -> Vec<Probe> {
    let (r, _) = dy::run_fn("fn main() -> any {\n x := 2\n return ([x]) == [2]\n}\n", "main", &[], 100, false);
    vec![Probe { name: "equality-of-array-holding-variable", fails: !matches!(&r, Res::Ok(V::Bool(true))), desc: "x := 2; [x] == [2] is false because the comparison does not follow the reference to x stored in the array".into() }]
}
pub fn check20() -> Check {
    Check { id: "C20", quick: 1_000_000, thorough: 20_000_000, case: c20, rule: "a history of at least three array operations, or at least one library call with generated arguments", probes: probes20,
        assumptions: &["negative and NaN indices are not part of the claim (the library reads them as index 0)", "keys are compared as a set"] }
}

// ---- C21 ----

fn close(a: f64, b: f64, scale: f64, eps: f64) -> bool { (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= eps * scale.abs().max(b.abs()) + 1e-37 }
type M4 = [[f64; 4]; 4];
/// Columns in double precision.
fn m64(m: &[[f32; 4]; 4]) -> M4 { let mut r = [[0.0; 4]; 4]; for j in 0..4 { for i in 0..4 { r[j][i] = m[j][i] as f64 } } r }
fn mul64(a: &M4, b: &M4) -> M4 { let mut r = [[0.0; 4]; 4]; for j in 0..4 { for i in 0..4 { for k in 0..4 { r[j][i] += a[k][i] * b[j][k] } } } r }
fn apply64(a: &M4, v: &[f64; 4]) -> [f64; 4] { let mut r = [0.0; 4]; for i in 0..4 { for k in 0..4 { r[i] += a[k][i] * v[k] } } r }
fn amax(m: &M4) -> f64 { m.iter().flat_map(|c| c.iter()).fold(0.0, |a: f64, x| a.max(x.abs())) }
/// Inverse and determinant by Gauss-Jordan with full row pivoting.
fn inv64(m: &M4) -> Option<(M4, f64)> {
    let mut a = [[0.0f64; 8]; 4];
    for i in 0..4 { for j in 0..4 { a[i][j] = m[j][i]; } a[i][4 + i] = 1.0; }
    let mut det = 1.0;
    for c in 0..4 {
        let p = (c..4).max_by(|&x, &y| a[x][c].abs().partial_cmp(&a[y][c].abs()).unwrap_or(std::cmp::Ordering::Equal)).unwrap();
        if a[p][c] == 0.0 { return None; }
        if p != c { a.swap(p, c); det = -det; }
        det *= a[c][c];
        let d = a[c][c];
        for j in 0..8 { a[c][j] /= d }
        for r in 0..4 { if r != c { let f = a[r][c]; for j in 0..8 { a[r][j] -= f * a[c][j] } } }
    }
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 { for j in 0..4 { r[j][i] = a[i][4 + j] } }
    Some((r, det))
}
/// Sum over permutations: the determinant and the sum of the absolute terms.
fn det64(m: &M4) -> (f64, f64) {
    let (mut d, mut t) = (0.0, 0.0);
    for a in 0..4 { for b in 0..4 { for c in 0..4 { for e in 0..4 {
        let p = [a, b, c, e];
        let mut seen = [false; 4];
        for &x in &p { seen[x] = true }
        if seen.iter().any(|x| !x) { continue; }
        let mut inv = 0;
        for i in 0..4 { for j in i + 1..4 { if p[i] > p[j] { inv += 1 } } }
        let x = m[0][a] * m[1][b] * m[2][c] * m[3][e];
        d += if inv % 2 == 0 { x } else { -x };
        t += x.abs();
    } } } }
    (d, t)
}
fn comp(s: &mut Src) -> f32 { match s.below(5) { 0 => 0.0, 1 => s.range(-5, 5) as f32, 2 => s.range(-1000, 1000) as f32 / 64.0, 3 => s.range(-1000, 1000) as f32, _ => s.range(-100_000, 100_000) as f32 / 7919.0 } }
fn vec(s: &mut Src) -> [f32; 4] { [comp(s), comp(s), comp(s), comp(s)] }
fn v64(v: &[f32; 4]) -> [f64; 4] { [v[0] as f64, v[1] as f64, v[2] as f64, v[3] as f64] }
fn mat(s: &mut Src) -> [[f32; 4]; 4] {
    let mut m = [vec(s), vec(s), vec(s), vec(s)];
    if s.chance(1, 3) { for i in 0..4 { m[i][i] += 50.0 } }
    if s.chance(1, 4) { for j in 0..3 { m[j][3] = 0.0 } m[3][3] = 1.0 }
    m
}
fn angle(s: &mut Src) -> f64 { match s.below(4) { 0 => s.range(-8, 8) as f64 * std::f64::consts::PI / 4.0, 1 => s.range(-1000, 1000) as f64 / 100.0, 2 => s.range(-10, 10) as f64, _ => s.range(-1_000_000, 1_000_000) as f64 / 100_000.0 } }

/// Color literals of programs.
fn literals(s: &mut Src) -> Outcome {
    let n = 1 + s.us(12);
    let mut lits = vec![];
    let mut want = vec![];
    for _ in 0..n {
        let k = if s.bool() { 4 } else { 3 };
        let mut t = String::from("#");
        let mut w = [0f64, 0.0, 0.0, 1.0];
        for i in 0..k { let x = s.below(256); w[i] = x as f64 / 255.0; let h = format!("{:02x}", x); t.push_str(&if s.bool() { h.to_uppercase() } else { h }); }
        lits.push(t);
        want.push(w);
    }
    let mut o = Outcome::of(format!("fn main() -> any {{\n return [{}]\n}}\n", lits.join(", ")));
    o.nontrivial = true;
    o.label("color literal");
    let (r, _) = dy::run_fn(&o.desc.clone(), "main", &[], 10, false);
    let ok = match &r { Res::Ok(V::Arr(a)) => a.len() == n && a.iter().zip(&want).all(|(g, w)| matches!(g, V::Vec4(g) if (0..4).all(|i| (g[i] as f64 - w[i]).abs() < 1e-6))), _ => false };
    if !ok { o.fail(format!("expected {:?}, got {:?}", want, r)); }
    o
}

fn c21(s: &mut Src, _: &Cfg) -> Outcome {
    if s.chance(1, 100) { return literals(s); }
    let mut o = Outcome::default();
    o.nontrivial = true;
    let mut d: Vec<String> = vec![];
    macro_rules! run { ($f:expr, $args:expr) => {{
        let a: Vec<V> = $args;
        d.push(desc($f, &a));
        o.label($f);
        match lib($f, &a) {
            Res::Panic(p) => { o.fail(format!("{}: panic {}", desc($f, &a), p)); V::Void }
            Res::LoadErr(e) => { o.fail(format!("library program rejected: {}", e)); V::Void }
            Res::RunErr(e) => { o.fail(format!("{}: unexpected error {}", desc($f, &a), e)); V::Void }
            Res::Ok(v) => v,
        } }} }
    macro_rules! bad { ($($t:tt)*) => { o.fail(format!("{}: {}", d.last().cloned().unwrap_or_default(), format!($($t)*))) } }
    macro_rules! num { ($f:expr, $args:expr, $want:expr, $scale:expr, $eps:expr) => {{
        let w: f64 = $want; let sc: f64 = $scale;
        match run!($f, $args) { V::Num(x) => if !close(x, w, sc, $eps) { bad!("expected {}, got {}", w, x) }, V::Void => {}, x => bad!("expected a number, got {:?}", x) } }} }
    macro_rules! vecs { ($f:expr, $args:expr, $want:expr, $scale:expr, $eps:expr) => {{
        let w: [f64; 4] = $want; let sc: f64 = $scale;
        match run!($f, $args) { V::Vec4(x) => if !(0..4).all(|i| close(x[i] as f64, w[i], sc, $eps)) { bad!("expected {:?}, got {:?}", w, x) }, V::Void => {}, x => bad!("expected a vec4, got {:?}", x) } }} }
    macro_rules! mats { ($f:expr, $args:expr, $want:expr, $scale:expr, $eps:expr) => {{
        let w: M4 = $want; let sc: f64 = $scale;
        match run!($f, $args) { V::Mat4(x) => if !(0..4).all(|j| (0..4).all(|i| close(x[j][i] as f64, w[j][i], sc, $eps))) { bad!("expected columns {:?}, got {:?}", w, x) }, V::Void => {}, x => bad!("expected a mat4, got {:?}", x) } }} }
    for _ in 0..1 + s.us(3) {
        match s.below(16) {
            0 => {
                let x = match s.below(3) { 0 => s.range(-20, 20) as f64 / 4.0, 1 => gen::any_num(s), _ => s.range(-100_000, 100_000) as f64 / 1000.0 };
                let t = x.trunc();
                let fl = if x.is_finite() && t > x { t - 1.0 } else { t };
                let ce = if x.is_finite() && t < x { t + 1.0 } else { t };
                let fr = (x - t).abs();
                let ro = if x.is_finite() && fr >= 0.5 { t + x.signum() } else { t };
                num!("m_floor", vec![V::Num(x)], fl, 0.0, 0.0);
                num!("m_ceil", vec![V::Num(x)], ce, 0.0, 0.0);
                num!("m_round", vec![V::Num(x)], ro, 0.0, 0.0);
                num!("m_abs", vec![V::Num(x)], if x < 0.0 { -x } else { x }, 0.0, 0.0);
                match run!("m_is_nan", vec![V::Num(x)]) { V::Bool(b) if b == (x != x) => {}, V::Void => {}, g => bad!("got {:?}", g) }
            }
            1 => {
                let x = if s.bool() { gen::any_num(s) } else { s.range(-100_000, 1_000_000) as f64 / 777.0 };
                num!("m_sqrt", vec![V::Num(x)], x.sqrt(), 0.0, 1e-13);
                num!("m_exp", vec![V::Num(x)], x.exp(), 0.0, 1e-11);
                num!("m_ln", vec![V::Num(x)], x.ln(), 1.0, 1e-12);
                num!("m_log2", vec![V::Num(x)], x.log2(), 1.0, 1e-12);
                num!("m_log10", vec![V::Num(x)], x.log10(), 1.0, 1e-12);
                num!("m_atan", vec![V::Num(x)], x.atan(), 0.0, 1e-12);
            }
            2 => {
                let x = angle(s);
                num!("m_sin", vec![V::Num(x)], x.sin(), 1.0, 1e-12);
                num!("m_cos", vec![V::Num(x)], x.cos(), 1.0, 1e-12);
                if x.cos().abs() > 1e-3 { num!("m_tan", vec![V::Num(x)], x.sin() / x.cos(), 1.0, 1e-9); }
                vecs!("m_dir", vec![V::Num(x)], [x.cos(), x.sin(), 0.0, 0.0], 1.0, 1e-6);
                num!("m_tau", vec![], 2.0 * std::f64::consts::PI, 0.0, 1e-14);
                match run!("m_random", vec![]) { V::Num(x) if x >= 0.0 && x < 1.0 => {}, V::Void => {}, g => bad!("got {:?}", g) }
            }
            3 => {
                let x = s.range(-1200, 1200) as f64 / 1000.0;
                let (a, b) = if x.abs() > 1.0 { (f64::NAN, f64::NAN) } else { (x.atan2((1.0 - x * x).sqrt()), (1.0 - x * x).sqrt().atan2(x)) };
                num!("m_asin", vec![V::Num(x)], a, 1.0, 1e-9);
                num!("m_acos", vec![V::Num(x)], b, 1.0, 1e-9);
            }
            4 => { let (y, x) = (gen::small_num(s), gen::small_num(s)); num!("m_atan2", vec![V::Num(y), V::Num(x)], y.atan2(x), 0.0, 1e-12); }
            5 => {
                let v = vec(s);
                for (i, f) in ["v_x", "v_y", "v_z", "v_w"].iter().enumerate() { num!(f, vec![V::Vec4(v)], v[i] as f64, 0.0, 0.0); }
                let i = s.us(4);
                num!("v_s", vec![V::Vec4(v), V::Num(i as f64)], v[i] as f64, 0.0, 0.0);
                let n = v64(&v).iter().map(|x| x * x).sum::<f64>().sqrt();
                num!("v_norm", vec![V::Vec4(v)], n, 0.0, 1e-5);
                num!("v_bars", vec![V::Vec4(v)], n, 0.0, 1e-5);
            }
            6 => {
                let (a, b) = (vec(s), vec(s));
                let (p, q) = (v64(&a), v64(&b));
                let t: f64 = (0..4).map(|i| (p[i] * q[i]).abs()).sum();
                num!("v_dot", vec![V::Vec4(a), V::Vec4(b)], (0..4).map(|i| p[i] * q[i]).sum::<f64>(), t, 1e-5);
                let k = comp(s);
                num!("v_dot", vec![V::Vec4(a), V::Num(k as f64)], (0..4).map(|i| p[i] * k as f64).sum::<f64>(), (0..4).map(|i| (p[i] * k as f64).abs()).sum::<f64>(), 1e-5);
                let n = |v: &[f64; 4]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
                vecs!("v_cross", vec![V::Vec4(a), V::Vec4(b)], [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0], 0.0], n(&p) * n(&q), 1e-5);
            }
            7 => {
                let m = mat(s);
                let c = m64(&m);
                let row = |i: usize| [c[0][i], c[1][i], c[2][i], c[3][i]];
                for (i, f) in ["r_x", "r_y", "r_z", "r_w"].iter().enumerate() { vecs!(f, vec![V::Mat4(m)], row(i), 0.0, 0.0); }
                for (i, f) in ["c_x", "c_y", "c_z", "c_w"].iter().enumerate() { vecs!(f, vec![V::Mat4(m)], c[i], 0.0, 0.0); }
                let i = s.us(4);
                vecs!("r_v", vec![V::Mat4(m), V::Num(i as f64)], row(i), 0.0, 0.0);
                vecs!("c_v", vec![V::Mat4(m), V::Num(i as f64)], c[i], 0.0, 0.0);
                let r: Vec<V> = (0..4).map(|i| V::Vec4([m[0][i], m[1][i], m[2][i], m[3][i]])).collect();
                mats!("t_rows", r, c, 0.0, 0.0);
            }
            8 => { let m = mat(s); let (x, t) = det64(&m64(&m)); num!("t_det", vec![V::Mat4(m)], x, t, 1e-4); }
            9 => {
                let m = mat(s);
                let c = m64(&m);
                if let Some((r, _)) = inv64(&c) {
                    let cond = 16.0 * amax(&c) * amax(&r);
                    let (dt, t) = det64(&c);
                    if cond < 3e3 && dt.abs() > 1e-2 * t {
                        o.label("well-conditioned inverse");
                        mats!("t_inv", vec![V::Mat4(m)], r, amax(&r), 1e-5 * cond);
                        if let V::Mat4(g) = run!("t_inv", vec![V::Mat4(m)]) {
                            let id = { let mut z = [[0.0; 4]; 4]; for i in 0..4 { z[i][i] = 1.0 } z };
                            mats!("t_mul", vec![V::Mat4(m), V::Mat4(g)], id, 1.0, 1e-5 * cond);
                        }
                    }
                }
            }
            10 => {
                let (v, p) = (vec(s), vec(s));
                let (a, b) = (v64(&v), v64(&p));
                let mv: M4 = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [a[0], a[1], a[2], 1.0]];
                let sc: M4 = [[a[0], 0.0, 0.0, 0.0], [0.0, a[1], 0.0, 0.0], [0.0, 0.0, a[2], 0.0], [0.0, 0.0, 0.0, 1.0]];
                mats!("t_mov", vec![V::Vec4(v)], mv, 0.0, 0.0);
                mats!("t_scale", vec![V::Vec4(v)], sc, 0.0, 0.0);
                if let V::Mat4(g) = run!("t_mov", vec![V::Vec4(v)]) { let w = apply64(&mv, &b); vecs!("t_mul", vec![V::Mat4(g), V::Vec4(p)], w, amax(&mv) * b.iter().fold(0.0, |x: f64, y| x.max(y.abs())), 1e-5); }
            }
            11 => {
                let mut ax = v64(&vec(s));
                if s.chance(1, 3) { ax = *s.pick(&[[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0]]); }
                let n = (ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]).sqrt();
                if n < 1e-3 { continue; }
                let u = [(ax[0] / n) as f32, (ax[1] / n) as f32, (ax[2] / n) as f32, if s.bool() { 0.0 } else { 3.0 }];
                let (x, y, z) = (u[0] as f64, u[1] as f64, u[2] as f64);
                let t = angle(s);
                // Rodrigues; the library turns clockwise when the axis points at the viewer: column j is row j of the usual matrix.
                let (si, co) = (t.sin(), t.cos());
                let k = [[0.0, -z, y], [z, 0.0, -x], [-y, x, 0.0]];
                let uu = [x, y, z];
                let mut w = [[0.0; 4]; 4];
                for i in 0..3 { for j in 0..3 { w[i][j] = (if i == j { co } else { 0.0 }) + si * k[i][j] + (1.0 - co) * uu[i] * uu[j]; } }
                w[3][3] = 1.0;
                mats!("t_rot", vec![V::Vec4(u), V::Num(t)], w, 1.0, 1e-5);
                // Turns about one axis add up.
                let t2 = angle(s);
                if let (V::Mat4(a), V::Mat4(b), V::Mat4(c)) = (run!("t_rot", vec![V::Vec4(u), V::Num(t)]), run!("t_rot", vec![V::Vec4(u), V::Num(t2)]), run!("t_rot", vec![V::Vec4(u), V::Num(t + t2)])) {
                    mats!("t_mul", vec![V::Mat4(a), V::Mat4(b)], m64(&c), 1.0, 1e-4);
                }
            }
            12 => {
                let (p, r, u, f) = (vec(s), vec(s), vec(s), vec(s));
                let dt = |a: &[f32; 4], b: &[f32; 4]| -> (f64, f64) { let (a, b) = (v64(a), v64(b)); ((0..4).map(|i| a[i] * b[i]).sum(), (0..4).map(|i| (a[i] * b[i]).abs()).sum()) };
                let (a, b, c) = (dt(&r, &p), dt(&u, &p), dt(&f, &p));
                let (rr, uu, ff) = (v64(&r), v64(&u), v64(&f));
                let w: M4 = [[rr[0], uu[0], ff[0], 0.0], [rr[1], uu[1], ff[1], 0.0], [rr[2], uu[2], ff[2], 0.0], [-a.0, -b.0, -c.0, 1.0]];
                mats!("t_ortho", vec![V::Vec4(p), V::Vec4(r), V::Vec4(u), V::Vec4(f)], w, a.1.max(b.1).max(c.1), 1e-5);
            }
            13 => {
                let fov = s.range(5, 45) as f64 / 100.0;
                let near = s.range(1, 100) as f64 / 50.0;
                let far = near + s.range(1, 10000) as f64 / 10.0;
                let ar = s.range(1, 40) as f64 / 10.0;
                let f = 1.0 / (fov * std::f64::consts::PI).tan();
                let w: M4 = [[f / ar, 0.0, 0.0, 0.0], [0.0, f, 0.0, 0.0], [0.0, 0.0, (far + near) / (near - far), -1.0], [0.0, 0.0, 2.0 * far * near / (near - far), 0.0]];
                mats!("t_proj", vec![V::Num(fov), V::Num(near), V::Num(far), V::Num(ar)], w, 1.0, 1e-5);
                let (a, b, c) = (mat(s), mat(s), mat(s));
                let (x, y, z) = (m64(&a), m64(&b), m64(&c));
                let w = mul64(&mul64(&z, &y), &x);
                mats!("t_mvp", vec![V::Mat4(a), V::Mat4(b), V::Mat4(c)], w, 16.0 * amax(&x) * amax(&y) * amax(&z), 1e-5);
            }
            14 => {
                let col = |s: &mut Src| match s.below(4) { 0 => s.below(256) as f32 / 255.0, 1 => s.range(-20, 20) as f32 / 10.0, 2 => s.range(0, 1000) as f32 / 1000.0, _ => *s.pick(&[0.0, 1.0, 0.04, 0.0031, 0.5]) };
                let v = [col(s), col(s), col(s), col(s)];
                match run!("k_str", vec![V::Vec4(v)]) {
                    V::Str(t) => {
                        let b: Vec<u8> = t.bytes().collect();
                        let hex = |i: usize| -> Option<f64> { std::str::from_utf8(b.get(i..i + 2)?).ok().and_then(|h| u8::from_str_radix(h, 16).ok()).map(|x| x as f64) };
                        let want = |i: usize| v[i].max(0.0).min(1.0) as f64 * 255.0;
                        let ok = b.first() == Some(&b'#') && (b.len() == 7 || b.len() == 9) && t == t.to_lowercase()
                            && (0..3).all(|i| hex(1 + 2 * i).map_or(false, |h| (h - want(i)).abs() < 1.0))
                            && if b.len() == 9 { hex(7).map_or(false, |h| (h - want(3)).abs() < 1.0 && h < 255.0) } else { want(3) > 254.0 };
                        if !ok { bad!("{:?} is not the color's text", t); }
                        // The text read as Dyon data gives the color back within one step.
                        if let V::Ok(g) = run!("k_data", vec![V::Str(t)]) {
                            match *g { V::Vec4(g) if (0..4).all(|i| (g[i] as f64 - want(i) / 255.0).abs() < 1.0 / 255.0 + 1e-6) => {}, ref g => bad!("read back as {:?}", g) }
                        } else { bad!("the text is not read back"); }
                    }
                    V::Void => {}
                    g => bad!("got {:?}", g),
                }
                let lin = |f: f64| if f <= 0.04045 { f / 12.92 } else { ((f + 0.055) / 1.055).powf(2.4) };
                let srgb = |f: f64| if f <= 0.0031308 { f * 12.92 } else { 1.055 * f.powf(1.0 / 2.4) - 0.055 };
                let c = v64(&v);
                vecs!("k_lin", vec![V::Vec4(v)], [lin(c[0]), lin(c[1]), lin(c[2]), c[3]], 1e-2, 1e-4);
                vecs!("k_srgb", vec![V::Vec4(v)], [srgb(c[0]), srgb(c[1]), srgb(c[2]), c[3]], 1e-2, 1e-4);
                if let V::Vec4(g) = run!("k_lin", vec![V::Vec4(v)]) { vecs!("k_srgb", vec![V::Vec4(g)], c, 1.0, 1e-3); }
            }
            _ => {
                // Arguments of a wrong kind, and component indices out of range, are errors.
                let (nn, nv, nm) = (other_kind(s, "number"), other_kind(s, "vec4"), other_kind(s, "mat4"));
                let v = V::Vec4(vec(s));
                let m = V::Mat4(mat(s));
                let far = V::Num((4 + s.us(3)) as f64);
                let (f, a): (&'static str, Vec<V>) = match s.below(11) {
                    0 => (*s.pick(&["m_round", "m_abs", "m_floor", "m_ceil", "m_sqrt", "m_sin", "m_asin", "m_cos", "m_acos", "m_tan", "m_atan", "m_exp", "m_ln", "m_log2", "m_log10", "m_is_nan", "m_dir"]), vec![nn]),
                    1 => (*s.pick(&["v_x", "v_y", "v_z", "v_w", "v_norm", "t_mov", "t_scale", "k_str", "k_lin", "k_srgb"]), vec![nv]),
                    2 => (*s.pick(&["r_x", "r_y", "r_z", "r_w", "c_x", "c_y", "c_z", "c_w", "t_det", "t_inv"]), vec![nm]),
                    3 => ("v_s", vec![v, far]),
                    4 => (*s.pick(&["r_v", "c_v"]), vec![m, far]),
                    5 => ("v_s", if s.bool() { vec![nv, V::Num(0.0)] } else { vec![v, nn] }),
                    6 => (*s.pick(&["r_v", "c_v"]), if s.bool() { vec![nm, V::Num(0.0)] } else { vec![m, nn] }),
                    7 => ("v_cross", if s.bool() { vec![v, nv] } else { vec![nv, v] }),
                    8 => ("t_rot", if s.bool() { vec![nv, V::Num(0.0)] } else { vec![v, nn] }),
                    9 => ("m_atan2", if s.bool() { vec![V::Num(1.0), nn] } else { vec![nn, V::Num(1.0)] }),
                    _ => ("t_mvp", match s.below(3) { 0 => vec![nm, m.clone(), m], 1 => vec![m.clone(), nm, m], _ => vec![m.clone(), m, nm] }),
                };
                d.push(desc(f, &a));
                expect(&mut o, f, &a, W::Error);
            }
        }
        if o.violation.is_some() { break; }
    }
    o.desc = d.join("\n");
    o.key = crate::engine::hash_str(&o.desc);
    if d.is_empty() { o.discard = true; }
    o
}
pub fn check21() -> Check {
    Check { id: "C21", quick: 1_000_000, thorough: 20_000_000, case: c21, rule: "at least one library call with generated arguments", probes: no_probes,
        assumptions: &["the f64 functions of the Rust standard library and double-precision linear algebra are the reference", "inverses are compared only for matrices with a moderate condition number"] }
}
