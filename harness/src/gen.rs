//! Shared value generators.
use crate::dy::V;
use crate::engine::Src;

pub fn small_num(s: &mut Src) -> f64 {
    match s.below(8) {
        0..=3 => s.range(0, 6) as f64,
        4 => -(s.range(1, 9) as f64),
        5 => s.range(0, 200) as f64 * 0.25,
        6 => s.range(-1000, 1000) as f64,
        _ => 0.5,
    }
}
/// Any finite f64.
pub fn finite(s: &mut Src) -> f64 {
    match s.below(10) {
        0..=2 => small_num(s),
        3 => s.range(-1_000_000, 1_000_000) as f64 / 1000.0,
        4 => *s.pick(&[0.1, 0.3, -0.0, 1e22, 1e23, 5e-324, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 9007199254740993.0, 1.0 / 3.0, 123456789012345680.0, f64::EPSILON, 4294967296.0]),
        5 => { let m = s.range(-9_999_999, 9_999_999) as f64; let e = s.range(-30, 30) as i32; m * 10f64.powi(e) }
        _ => { let x = f64::from_bits(s.u64()); if x.is_finite() { x } else { 7.0 } }
    }
}
/// Any f64.
pub fn any_num(s: &mut Src) -> f64 {
    match s.below(12) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, _ => finite(s) }
}
pub fn any_f32(s: &mut Src) -> f32 {
    match s.below(4) {
        0 | 1 => small_num(s) as f32,
        2 => s.range(-1_000_000, 1_000_000) as f32 / 997.0,
        _ => { let x = f32::from_bits(s.below(1 << 32) as u32); if x.is_finite() { x } else { 1.5 } }
    }
}
pub fn any_char(s: &mut Src) -> char {
    match s.below(10) {
        0..=3 => (b'a' + s.below(26) as u8) as char,
        4 => (b' ' + s.below(95) as u8) as char,
        5 => *s.pick(&['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\u{0}', '\u{1}', '\u{7f}', ',', ':', '{', '}', '[', ']', '(', ')', '#', '*']),
        6 => *s.pick(&['é', 'ß', '中', '\u{1F600}', '\u{301}', '\u{a0}', '\u{2028}', '\u{feff}', 'Ⅷ', '①', '∑', '\u{10FFFF}', '\u{200d}', '٣', '²']),
        7 => (b'0' + s.below(10) as u8) as char,
        8 => '_',
        _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('?'),
    }
}
pub fn any_string(s: &mut Src, max: usize) -> String { let n = s.len(max); (0..n).map(|_| any_char(s)).collect() }
pub fn ident(s: &mut Src) -> String { let n = 1 + s.us(4); (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect() }
pub fn key(s: &mut Src) -> String { match s.below(4) { 0 | 1 => s.pick(&["a", "b", "c", "x", "pos"]).to_string(), 2 => ident(s), _ => any_string(s, 5) } }

#[derive(Clone, Copy)]
pub struct ValOpts { pub nums: fn(&mut Src) -> f64, pub f32s: fn(&mut Src) -> f32, pub links: bool, pub opts: bool, pub results: bool, pub mats: bool, pub vecs: bool }

pub fn scalar(s: &mut Src, o: &ValOpts) -> V {
    match s.below(8) {
        0..=2 => V::Num((o.nums)(s)),
        3 => V::Bool(s.bool()),
        4 if o.vecs => V::Vec4([(o.f32s)(s), (o.f32s)(s), if s.bool() { (o.f32s)(s) } else { 0.0 }, if s.bool() { (o.f32s)(s) } else { 0.0 }]),
        _ => V::Str(any_string(s, 8)),
    }
}
pub fn value(s: &mut Src, o: &ValOpts, depth: usize) -> V {
    if depth == 0 || s.below(3) == 0 { return scalar(s, o); }
    match s.weighted(&[4, 4, 2, 1, 1, 1, 1]) {
        0 => { let n = s.len(5); V::Arr((0..n).map(|_| value(s, o, depth - 1)).collect()) }
        1 => { let n = s.len(4); V::Obj((0..n).map(|_| { let k = key(s); (k, value(s, o, depth - 1)) }).collect()) }
        2 if o.links => { let n = s.len(6); V::Link((0..n).map(|_| match s.below(4) { 0 | 1 => V::Num((o.nums)(s)), 2 => V::Bool(s.bool()), _ => V::Str(any_string(s, 4)) }).collect()) }
        3 if o.opts => V::None,
        4 if o.opts => V::Some(Box::new(value(s, o, depth - 1))),
        5 if o.results => if s.bool() { V::Ok(Box::new(value(s, o, depth - 1))) } else { V::Err(Box::new(value(s, o, depth - 1))) },
        6 if o.mats => { let mut m = [[0f32; 4]; 4]; for r in m.iter_mut() { for x in r.iter_mut() { *x = (o.f32s)(s); } } V::Mat4(m) }
        _ => scalar(s, o),
    }
}
