//! C06: Dyon data round trips.
use super::*;
use crate::dy::*;
use crate::gen;
use dyon::Runtime;

const OPTS: gen::ValOpts = gen::ValOpts { nums: gen::finite, f32s: gen::any_f32, links: true, opts: true, results: false, mats: false, vecs: true };

/// Equality of data: the sign of a zero vec4 component is not part of the text form.
pub fn same_data(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Vec4(x), V::Vec4(y)) => (0..4).all(|i| x[i] == y[i]),
        (V::Arr(x), V::Arr(y)) | (V::Link(x), V::Link(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_data(p, q)),
        (V::Obj(x), V::Obj(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, p), (l, q))| k == l && same_data(p, q)),
        (V::Some(x), V::Some(y)) => same_data(x, y),
        _ => a.same(b),
    }
}
fn depth(v: &V) -> usize {
    match v {
        V::Arr(x) | V::Link(x) => 1 + x.iter().map(depth).max().unwrap_or(0),
        V::Obj(o) => 1 + o.values().map(depth).max().unwrap_or(0),
        V::Some(x) => 1 + depth(x),
        _ => 0,
    }
}

const PROG: &str = r#"
fn file_trip(v: any, file: str) -> any {
    saved := save(data: v, file: file)
    emit(saved)
    return load_data(file: file)
}
fn string_trip(v: any) -> any {
    return load_data(string: str([v]))
}
fn ref_trip(v: any, w: any, file: str) -> any {
    a := [v, w]
    o := {v: v, list: a, again: [v, {w: w}]}
    saved := save(data: o, file: file)
    emit(saved)
    return load_data(file: file)
}
fn save_only(v: any, file: str) -> any { return save(data: v, file: file) }
fn load_text(t: str) -> any { return load_data(string: t) }
fn load_file(t: str) -> any { return load_data(file: t) }
"#;

/// A comment with others nested in it.
fn comment(s: &mut Src, out: &mut String, d: usize) {
    out.push_str("/*");
    let n = s.len(4);
    for _ in 0..n {
        if d > 0 && s.below(3) == 0 { comment(s, out, d - 1); continue; }
        // No piece starts or ends so that a delimiter forms between pieces.
        out.push_str(s.pick(&["x", " ", " * ", " / ", "\n]\"", " ** ", " // ", "{,", "é"]));
    }
    out.push_str(s.pick(&["", "*", " ", " /", "**"]));
    if out.ends_with('/') && !out.ends_with("*/") { out.push(' '); }
    out.push_str("*/");
}
fn ws(s: &mut Src, out: &mut String) {
    let n = s.len(2);
    for _ in 0..n {
        match s.below(8) {
            0..=2 => out.push(' '),
            3 => out.push('\n'),
            4 => out.push('\t'),
            5 => { out.push_str("//"); out.push_str(s.pick(&["", " x", "]{,\"", "*/", "/*"])); out.push('\n'); }
            6 => comment(s, out, 2),
            _ => out.push_str("\r\n"),
        }
    }
}
fn write_str(s: &mut Src, t: &str, out: &mut String) {
    out.push('"');
    for c in t.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x10000 && !(0xd800..0xe000).contains(&(c as u32)) && s.chance(1, 6) => out.push_str(&format!("\\u{:04x}", c as u32)),
            '\n' if s.bool() => out.push_str("\\n"),
            '\t' if s.bool() => out.push_str("\\t"),
            '\r' if s.bool() => out.push_str("\\r"),
            '\u{8}' if s.bool() => out.push_str("\\b"),
            '\u{c}' if s.bool() => out.push_str("\\f"),
            '/' if s.bool() => out.push_str("\\/"),
            c => out.push(c),
        }
    }
    out.push('"');
}
fn write_num(s: &mut Src, x: f64, out: &mut String) {
    match s.below(3) {
        0 => out.push_str(&format!("{}", x)),
        1 => out.push_str(&format!("{:e}", x)),
        _ => { let t = format!("{}", x); let b = t.as_bytes(); 
            // Underscores between digits.
            for (i, c) in t.chars().enumerate() {
                out.push(c);
                if c.is_ascii_digit() && i + 1 < b.len() && b[i + 1].is_ascii_digit() && s.chance(1, 5) { out.push('_'); }
            } }
    }
}
/// Writes a value in a random layout the format allows.
fn write_any(s: &mut Src, v: &V, out: &mut String) {
    match v {
        V::Bool(b) => out.push_str(&b.to_string()),
        V::Num(x) => write_num(s, *x, out),
        V::Str(t) => write_str(s, t, out),
        V::Vec4(c) => {
            out.push('('); ws(s, out);
            let n = if c[3] != 0.0 { 4 } else if c[2] != 0.0 { 3 + s.us(2) } else { 2 + s.us(3) };
            for i in 0..n { if i > 0 { ws(s, out); out.push(','); ws(s, out); } out.push_str(&format!("{}", c[i])); }
            ws(s, out); out.push(')');
        }
        V::Arr(a) => {
            out.push('['); ws(s, out);
            for (i, x) in a.iter().enumerate() { write_any(s, x, out); ws(s, out); if i + 1 < a.len() || s.chance(1, 5) { out.push(','); ws(s, out); } }
            out.push(']');
        }
        V::Obj(o) => {
            out.push('{'); ws(s, out);
            let n = o.len();
            for (i, (k, x)) in o.iter().enumerate() {
                let plain = !k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_');
                if plain && s.bool() { out.push_str(k); out.push_str(s.pick(&["", " "])); if !out.ends_with(' ') { out.push(':'); ws(s, out); write_any(s, x, out); ws(s, out); if i + 1 < n { out.push(','); } continue; } } else { write_str(s, k, out); }
                ws(s, out); out.push(':'); ws(s, out);
                write_any(s, x, out); ws(s, out);
                if i + 1 < n || s.chance(1, 5) { out.push(','); ws(s, out); }
            }
            out.push('}');
        }
        V::Link(l) => { out.push_str("link"); ws(s, out); out.push('{'); ws(s, out); for x in l { write_any(s, x, out); out.push(' '); ws(s, out); } out.push('}'); }
        V::None => out.push_str("none()"),
        V::Some(x) => { out.push_str("some("); ws(s, out); write_any(s, x, out); ws(s, out); out.push(')'); }
        _ => unreachable!(),
    }
}

fn color(s: &mut Src) -> (String, V) {
    let c: Vec<u8> = (0..4).map(|_| s.below(256) as u8).collect();
    let a = s.bool();
    let t = if a { format!("#{:02x}{:02X}{:02x}{:02x}", c[0], c[1], c[2], c[3]) } else { format!("#{:02X}{:02x}{:02x}", c[0], c[1], c[2]) };
    let f = |x: u8| x as f32 / 255.0;
    (t, V::Vec4([f(c[0]), f(c[1]), f(c[2]), if a { f(c[3]) } else { 1.0 }]))
}

fn unwrap_ok(v: V) -> Result<V, String> { match v { V::Ok(x) => Ok(*x), v => Err(format!("{:?}", v)) } }

fn case(s: &mut Src, cfg: &Cfg) -> Outcome {
    thread_local! { static M: std::sync::Arc<dyon::Module> = load(PROG).unwrap().unwrap(); }
    let m = M.with(|m| m.clone());
    let file = cfg.scratch.join(if s.bool() { "a.txt" } else { "b.txt" });
    let fname = V::Str(file.to_str().unwrap().into());
    let d = if cfg.thorough { 5 } else { 4 };
    let mut rt = Runtime::new();
    LIMIT.with(|l| l.set(100));
    let mode = s.weighted(&[4, 3, 2, 4, 3]);
    let mut o;
    match mode {
        0 | 1 | 2 => {
            let v = gen::value(s, &OPTS, d);
            let w = if mode == 2 { gen::value(s, &OPTS, 2) } else { V::None };
            o = Outcome::of(format!("{} {:?} {:?}", ["file", "string", "refs in file"][mode], v, w));
            o.nontrivial = depth(&v) >= 1;
            o.label(["file", "string", "through references"][mode]);
            let (f, args, want) = match mode {
                0 => ("file_trip", vec![v.clone(), fname], v.clone()),
                1 => ("string_trip", vec![v.clone()], V::Arr(vec![v.clone()])),
                _ => {
                    let b: std::collections::BTreeMap<String, V> = [("v".to_string(), v.clone()), ("list".to_string(), V::Arr(vec![v.clone(), w.clone()])),
                        ("again".to_string(), V::Arr(vec![v.clone(), V::Obj([("w".to_string(), w.clone())].into_iter().collect())]))].into_iter().collect();
                    ("ref_trip", vec![v.clone(), w.clone(), fname], V::Obj(b))
                }
            };
            match call(&mut rt, &m, f, &args, false) {
                Res::Ok(r) => match unwrap_ok(r) {
                    Ok(got) => if !same_data(&got, &want) { o.fail(format!("read back {:?}", got)) },
                    Err(e) => o.fail(format!("did not load: {}", e)),
                },
                r => o.fail(format!("{:?}", r)),
            }
            if mode != 1 {
                for l in take_log() { if !matches!(l, V::Ok(_)) { o.fail(format!("save gave {:?}", l)) } }
            } else { take_log(); }
        }
        3 => {
            // A value in a layout of our own.
            let mut t = String::new();
            let v;
            ws(s, &mut t);
            if s.chance(1, 5) {
                let (ct, cv) = color(s);
                let rest = gen::value(s, &OPTS, 2);
                let first = s.bool();
                t.push('[');
                if first { t.push_str(&ct); t.push(' '); ws(s, &mut t); t.push(','); write_any(s, &rest, &mut t); v = V::Arr(vec![cv, rest]); }
                else { write_any(s, &rest, &mut t); t.push(','); ws(s, &mut t); t.push_str(&ct); t.push(' '); v = V::Arr(vec![rest, cv]); }
                ws(s, &mut t);
                t.push(']');
                o = Outcome::of(t.clone());
                o.label("color");
            } else {
                v = gen::value(s, &OPTS, d);
                write_any(s, &v, &mut t);
                o = Outcome::of(t.clone());
            }
            ws(s, &mut t);
            o.nontrivial = depth(&v) >= 1;
            o.label("layout variant");
            let (f, a) = if s.chance(1, 4) { std::fs::write(&file, &t).unwrap(); ("load_file", fname) } else { ("load_text", V::Str(t.clone())) };
            match call(&mut rt, &m, f, &[a], false) {
                Res::Ok(r) => match unwrap_ok(r) {
                    Ok(got) => if !same_data(&got, &v) { o.fail(format!("loaded {:?}, the text says {:?}", got, v)) },
                    Err(e) => o.fail(format!("did not load: {}", e)),
                },
                r => o.fail(format!("{:?}", r)),
            }
        }
        _ => {
            // Arbitrary text: a value or a clean error.
            let mut t = String::new();
            if s.bool() {
                let v = gen::value(s, &OPTS, 3);
                write_any(s, &v, &mut t);
                let mut cs: Vec<char> = t.chars().collect();
                for _ in 0..1 + s.us(3) {
                    if cs.is_empty() { break; }
                    let i = s.us(cs.len());
                    match s.below(3) { 0 => { cs.remove(i); } 1 => { let c = gen::any_char(s); cs.insert(i, c); } _ => { cs[i] = gen::any_char(s); } }
                }
                t = cs.into_iter().collect();
            } else {
                let n = s.len(30);
                for _ in 0..n {
                    let tok = *s.pick(&["{", "}", "[", "]", "(", ")", ",", ":", "\"", "\\", "/*", "*/", "//", "\n", " ", "1", "-", "+", ".", "e", "_", "9", "true", "false", "some(", "none()", "link", "#", "ff", "\\u", "12", "x", "é", "*", "/"]);
                    t.push_str(tok);
                }
            }
            o = Outcome::of(t.clone());
            o.label("arbitrary text");
            o.nontrivial = t.len() > 3;
            match call(&mut rt, &m, "load_text", &[V::Str(t.clone())], false) {
                Res::Ok(V::Ok(_)) => o.label("arbitrary text accepted"),
                Res::Ok(V::Err(e)) => if !matches!(*e, V::Str(_)) { o.fail(format!("error is not text: {:?}", e)) },
                r => o.fail(format!("{:?}", r)),
            }
        }
    }
    let _ = take_log();
    o
}

fn probes(cfg: &Cfg) -> Vec<Probe> {
    let m = load(PROG).unwrap().unwrap();
    let mut r = vec![];
    let mut text = |name: &'static str, t: &str, want: V| {
        let got = call(&mut Runtime::new(), &m, "load_text", &[V::Str(t.into())], false);
        let fails = !matches!(got, Res::Ok(V::Ok(ref v)) if same_data(v, &want));
        r.push(Probe { name, fails, desc: format!("loading {:?} gave {:?}", t, got) });
    };
    text("number-exact", "0.3", V::Num(0.3));
    text("number-large", "10000000000000000000000000", V::Num(1e25));
    text("color-in-array", "[#ff0000, 1]", V::Arr(vec![V::Vec4([1.0, 0.0, 0.0, 1.0]), V::Num(1.0)]));
    text("vec4-space", "( 1, 2)", V::Vec4([1.0, 2.0, 0.0, 0.0]));
    let v = V::Obj([("".to_string(), V::Num(1.0))].into_iter().collect());
    let got = call(&mut Runtime::new(), &m, "string_trip", &[v.clone()], false);
    r.push(Probe { name: "empty-key", fails: !matches!(got, Res::Ok(V::Ok(ref x)) if same_data(x, &V::Arr(vec![v.clone()]))), desc: format!("{{\"\": 1}} through a string gave {:?}", got) });
    if std::path::Path::new("/dev/full").exists() {
        let got = call(&mut Runtime::new(), &m, "save_only", &[V::Num(1.0), V::Str("/dev/full".into())], false);
        r.push(Probe { name: "full-device", fails: !matches!(got, Res::Ok(V::Err(_))), desc: format!("saving to a full device gave {:?}", got) });
    }
    let _ = cfg;
    r
}

pub fn check() -> Check {
    Check {
        id: "C06", quick: 600_000, thorough: 20_000_000, case, probes,
        rule: "a value holding at least one container, or arbitrary text longer than three bytes",
        assumptions: &["nesting depth stays within the host stack", "the sign of a zero vec4 component is not significant", "number token grammar is that of read_token"],
    }
}
