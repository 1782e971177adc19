//! Integer arithmetic kernels have one documented meaning on every value.
use crate::{cx::*, kern::*, elementwise::*};

fn range(dt: &str) -> (i128, i128) { if dt == "bool" { return (0, 1); } let b = size_of(dt) * 8; if dt.starts_with('u') { (0, (1i128 << b) - 1) } else { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } }
fn enc(dt: &str, x: i128) -> Vec<u8> { x.to_le_bytes()[..size_of(dt)].to_vec() }
fn ipow(x: i128, y: i128) -> Option<i128> { if y < 0 { return match x { 1 => Some(1), -1 => Some(if y & 1 == 0 { 1 } else { -1 }), _ => None }; } let mut r = 1i128; if x == 0 || x == 1 { return Some(if y == 0 { 1 } else { x }); } if x == -1 { return Some(if y & 1 == 0 { 1 } else { -1 }); } for _ in 0..y { r = r.checked_mul(x)?; if r.abs() > 1 << 70 { return None; } } Some(r) }
/// None: not representable or not specified, any answer will do (but an answer there must be)
fn want(op: &str, dt: &str, x: i128, y: i128) -> Option<i128> {
    if dt == "bool" && ["add", "neg", "div", "rem"].contains(&op.trim_end_matches("_scalar")) { return None; }
    let (lo, hi) = range(dt); let bits = size_of(dt) as i128 * 8; let b = |c: bool| c as i128;
    let wrap = |v: i128| { let m = v & ((1i128 << bits) - 1); if dt.starts_with('i') && m > hi { m - (1i128 << bits) } else { m } };
    let v = match op.trim_end_matches("_scalar") {
        "add" => x + y, "sub" => if dt.starts_with('u') || dt == "bool" { (x - y).max(0) } else { x - y }, "mul" => x.saturating_mul(y), "div" => if y == 0 { 0 } else { x / y }, "rem" => if y == 0 { 0 } else { x % y }, "pow" => ipow(x, y)?,
        "maximum" => x.max(y), "minimum" => x.min(y), "eq" => b(x == y), "ne" => b(x != y), "lt" => b(x < y), "le" => b(x <= y), "gt" => b(x > y), "ge" => b(x >= y),
        "logical_and" => b(x != 0 && y != 0), "logical_or" => b(x != 0 || y != 0), "logical_xor" => b((x != 0) != (y != 0)), "logical_not" => b(x == 0),
        "neg" => -x, "abs" => x.abs(), "sign" => x.signum(), "square" => x.saturating_mul(x), "relu" => x.max(0),
        "bitwise_and" => x & y, "bitwise_or" => x | y, "bitwise_xor" => x ^ y, "bitwise_not" => wrap(!x),
        "shl" => if y < 0 || y >= bits { return None } else { let v = x << y; if dt.starts_with('i') && (v < lo || v > hi) { return None } wrap(v) }, "shr" => if y < 0 || y >= bits { return None } else { x >> y },
        _ => return None,
    };
    if v < lo || v > hi { None } else { Some(v) }
}
fn check(cx: &mut Cx, o: &Op, x: i128, y: i128) {
    cx.case(o.name(), (x, y), || one(o, x, y));
}
fn one(o: &Op, x: i128, y: i128) -> Result<(), String> {
    let second = match o.kind { Kind::Shift => if y < 0 { return Ok(()) } else { (y.min(70) as u32).to_ne_bytes().to_vec() }, Kind::Binary | Kind::Bitwise | Kind::Scalar => enc(o.dt, y), _ => vec![] };
    let g = o.one(&enc(o.dt, x), &second);
    if o.out == "bool" { ensure(g[0] <= 1, || format!("truth value {}", g[0]))?; }
    if let Some(w) = want(o.op, o.dt, x, if o.kind == Kind::Shift { y.min(70) } else { y }) { let g = to_i128(o.out, &g); if g != w { return Err(format!("{}({}, {}) on {} is {}, not {}", o.op, x, y, o.dt, g, w)); } }
    Ok(())
}
fn corner(cx: &mut Cx, dt: &str) -> i128 {
    let (lo, hi) = range(dt); let bits = size_of(dt) * 8;
    let v = match cx.rng.below(7) { 0 => lo + cx.rng.below(3) as i128, 1 => hi - cx.rng.below(3) as i128, 2 => cx.rng.range(-3, 3) as i128, 3 => (1i128 << cx.rng.below(bits)) + cx.rng.range(-1, 1) as i128, 4 => -(1i128 << cx.rng.below(bits)) + cx.rng.range(-1, 1) as i128, 5 => cx.rng.range(-40, 40) as i128, _ => cx.rng.next() as i64 as i128 };
    if v < lo || v > hi { let m = hi - lo + 1; ((v - lo) % m + m) % m + lo } else { v }
}
pub fn run(cx: &mut Cx) {
    let ops: Vec<Op> = all().into_iter().filter(|o| (is_int(o.dt) || o.dt == "bool") && !matches!(o.kind, Kind::Cast | Kind::Contiguous) && (["add", "sub", "mul", "div", "rem", "pow", "maximum", "minimum", "eq", "ne", "lt", "le", "gt", "ge", "logical_and", "logical_or", "logical_xor", "logical_not", "neg", "abs", "sign", "square", "relu"].contains(&o.op.trim_end_matches("_scalar")) || matches!(o.kind, Kind::Bitwise | Kind::BitNot | Kind::Shift))).collect();
    // corner values everywhere
    for o in &ops { for _ in 0..40 { let (x, y) = (corner(cx, o.dt), corner(cx, o.dt)); check(cx, o, x, y); } }
    // every pair of 8-bit operands
    for o in ops.iter().filter(|o| size_of(o.dt) == 1) {
        let (lo, hi) = range(o.dt); let unary = matches!(o.kind, Kind::Unary | Kind::BitNot);
        for x in lo..=hi { cx.case(o.name(), (x, "every second operand"), || { for y in if unary { 0..=0 } else if o.kind == Kind::Shift { 0..=9 } else { lo..=hi } { one(o, x, y)?; } Ok(()) }); }
    }
    // scalar form = tensor form, on corner values
    let pairs: Vec<(Op, Op)> = ops.iter().filter(|o| o.kind == Kind::Scalar || o.kind == Kind::Shift).filter_map(|s| ops.iter().find(|b| matches!(b.kind, Kind::Binary | Kind::Bitwise) && b.dt == s.dt && b.op == s.op.trim_end_matches("_scalar")).map(|b| (s.clone(), b.clone()))).collect();
    while cx.more() {
        for _ in 0..100 { let o = cx.rng.pick(&ops).clone(); let (x, y) = (corner(cx, o.dt), corner(cx, o.dt)); check(cx, &o, x, y); }
        for _ in 0..50 {
            let (s, b) = cx.rng.pick(&pairs).clone(); let (x, mut y) = (corner(cx, s.dt), corner(cx, s.dt));
            if s.kind == Kind::Shift { y = y.abs() % (size_of(s.dt) as i128 * 8); }
            cx.case(s.name(), ("scalar form as tensor form", x, y), || { let g = s.one(&enc(s.dt, x), &if s.kind == Kind::Shift { (y as u32).to_ne_bytes().to_vec() } else { enc(s.dt, y) }); eq("result", g, b.one(&enc(s.dt, x), &enc(s.dt, y))) });
        }
    }
}
