//! Element-wise kernels compute each element from its own operands only.
use hodu_core::prelude::*;
use crate::{views::*, util::*, cx::*, kern::*, elementwise::*};

/// out[i] is g(operands at logical index i) for every i, nothing else is written, nothing outside the operands is read
fn run_op(cx: &mut Cx, o: &Op, a: L, b: L) {
    let (wi, wo) = (size_of(o.dt), size_of(o.out));
    let x = fill(cx, o.dt, a.extent());
    let y = match o.kind { Kind::Shift => (cx.rng.below(wi * 8 + 3) as u32).to_ne_bytes().to_vec(), Kind::Scalar => fill(cx, o.dt, 1), _ if o.binary() => fill(cx, o.dt, b.extent()), _ => vec![] };
    let (n, low) = (a.n(), cx.rng.flip());
    let meta = o.meta(&a, &b);
    let cs = if n > 100000 { vec![] } else { coords(&a.d) };
    let input = if o.binary() { format!("{:?} {:?}", a, b) } else if o.kind == Kind::Contiguous || o.kind == Kind::Cast || o.kind == Kind::Unary || o.kind == Kind::BitNot { format!("{:?}", a) } else { format!("{:?} scalar {:?}", a, y) };
    cx.case(o.name(), (input, if n < 20 { x.clone() } else { vec![] }), || {
        let (fx, fy, out, fm) = (Fenced::from(&x, low), Fenced::from(&y, low), Fenced::new(n * wo, low), meta.clone());
        o.call(fx.c(), fy.c(), out.m(), &fm);
        out.intact("output")?; fx.intact("operand")?; fy.intact("operand")?;
        if fx.bytes() != &x[..] || fy.bytes() != &y[..] { return Err("an operand was written".into()); }
        let got = out.bytes();
        for i in 0..n {
            let (ia, ib) = if cs.is_empty() { (i + a.o, i + b.o) } else { (a.at(&cs[i]), if o.binary() { b.at(&cs[i]) } else { 0 }) };
            let (ea, eb) = (el(&x, ia, wi), if o.binary() { el(&y, ib, wi) } else { &y[..] });
            let want = o.one(ea, eb);
            let g = el(got, i, wo);
            let zeros = is_float(o.out) && to_f64(o.out, g) == 0.0 && to_f64(o.out, &want) == 0.0; // BLAS scaling by 0 may lose the sign of zero
            if !zeros && !same(o.out, g, &want) { return Err(format!("element {} of {}: {:?} ({}), but the operation on its operands {:?} {:?} gives {:?} ({})", i, n, g, to_f64(o.out, g), ea, if o.binary() || o.kind == Kind::Scalar || o.kind == Kind::Shift { eb } else { &[] }, want, to_f64(o.out, &want))); }
            if o.kind == Kind::Contiguous && g != ea { return Err(format!("element {} is {:?}, the source element is {:?}", i, g, ea)); }
        }
        Ok(())
    });
}
/// a value of a magnitude between 0.01 and 300
fn of_any_size(cx: &mut Cx, dt: &str) -> Vec<u8> {
    let x = 10f64.powf(cx.rng.range(-2000, 2500) as f64 / 1000.0) * if cx.rng.flip() { -1.0 } else { 1.0 };
    encode(dt, x)
}
fn encode(dt: &str, x: f64) -> Vec<u8> {
    match dt { "f32" => (x as f32).to_ne_bytes().to_vec(), "f64" => x.to_ne_bytes().to_vec(), "f16" => half::f16::from_f64(x).to_bits().to_ne_bytes().to_vec(), "bf16" => half::bf16::from_f64(x).to_bits().to_ne_bytes().to_vec(), "f8e4m3" => vec![float8::F8E4M3::from_f32(x as f32).to_bits()], _ => vec![float8::F8E5M2::from_f32(x as f32).to_bits()] }
}
/// the operation on one element means what its name says (float types; integers are T07's)
fn means(cx: &mut Cx, o: &Op) {
    if !is_float(o.dt) || !matches!(o.kind, Kind::Binary | Kind::Unary | Kind::Scalar) { return; }
    let (mut a, mut b) = (fill(cx, o.dt, 1), fill(cx, o.dt, 1));
    if cx.rng.below(3) == 0 { a = of_any_size(cx, o.dt); } if cx.rng.below(6) == 0 { b = of_any_size(cx, o.dt); }
    if o.op.starts_with("pow") && cx.rng.flip() { b = encode(o.dt, cx.rng.range(-45, 45) as f64); }
    let (x, y) = (to_f64(o.dt, &a), to_f64(o.dt, &b));
    cx.case(o.name(), ("one element", x, y), || {
        let g = to_f64(o.out, &o.one(&a, &b));
        let Some(w) = meaning(o.op, x, y) else { return Ok(()) };
        if o.out == "bool" { return eq("truth value", g, w); }
        let e = eps(o.dt);
        if w.is_nan() || !x.is_finite() || !y.is_finite() || w.abs() > largest(o.dt) * 0.9 || x.abs() > 1e4 || y.abs() > 1e4 { return Ok(()); }
        // exp(x) - 1 loses the low digits of a small x to the rounding of exp(x) near 1 in the type it is computed in
        let lost = if matches!(o.op, "elu" | "selu" | "celu") { (if o.dt == "f64" { 1e-15 } else { 2.5e-7 }) * (2.0 + y.abs()) } else { 0.0 };
        // tan reduces its argument in the type it is computed in, and is steep near its poles
        if o.op == "tan" && (x.abs() > 300.0 || w.abs() > 1e3) { return Ok(()); }
        let lost = if o.op == "tan" { 1e-5 * w * w } else { lost };
        ensure((g - w).abs() <= 4.0 * e * (w.abs() + x.abs().min(1.0)) + tiny(o.dt) + lost, || format!("{} gives {}, not {}", o.op, g, w))
    });
}
/// where, masked_fill and clamp take each element from exactly the operand they name
fn selection<T: Elem>(cx: &mut Cx) where hodu_core::scalar::Scalar: From<T> {
    let r = cx.rng.below(4); let d = rand_dims(cx, r, 3); let n = numel(&d);
    let bd: Vec<usize> = d.iter().map(|&x| if cx.rng.below(4) == 0 { 1 } else { x }).collect(); let m = numel(&bd);
    let inf = |cx: &mut Cx, v: Vec<T>| -> Vec<T> { v.into_iter().map(|x| if T::DT == DType::F32 || T::DT == DType::F64 { match cx.rng.below(6) { 0 => T::from_f(f64::INFINITY), 1 => T::from_f(f64::NEG_INFINITY), _ => x } } else { x }).collect() };
    let a = rand_vals::<T>(cx, n, 0, 9); let a = inf(cx, a); let b = rand_vals::<T>(cx, n, 0, 9); let b = inf(cx, b); let c = rand_vals::<bool>(cx, m, 0, 1);
    let (x, h1) = any_view(cx, &d, &a); let (y, h2) = any_view(cx, &d, &b); let (k, h3) = any_view(cx, &bd, &c);
    let at = |i: usize| { let q = &coords(&d)[i]; let z: Vec<usize> = q.iter().zip(&bd).map(|(&q, &e)| if e == 1 { 0 } else { q }).collect(); c[addr(&z, &row_major(&bd), 0)] };
    let s = T::of(cx.rng.range(0, 9)); let t = T::of(cx.rng.range(0, 9));
    cx.case("Tensor::where3", (T::DT, &d, &bd, h1.clone(), h2, h3.clone(), &a, &b, &c), || eq("values", T::get(&er(x.where3(&k, &y))?)?, (0..n).map(|i| if at(i) { a[i] } else { b[i] }).collect()));
    cx.case("Tensor::masked_fill", (T::DT, &d, &bd, h1.clone(), h3, &a, &c, s), || eq("values", T::get(&er(x.masked_fill(&k, s))?)?, (0..n).map(|i| if at(i) { s } else { a[i] }).collect()));
    if T::DT != DType::BOOL {
        let (lo, hi) = if s.f() <= t.f() { (s, t) } else { (t, s) };
        cx.case("Tensor::clamp", (T::DT, &d, h1, &a, lo, hi), || { let lim = |v: T| if v.f() < lo.f() { lo } else { v }; let top = |v: T| if v.f() > hi.f() { hi } else { v }; eq("clamp", T::get(&er(x.clamp(lo, hi))?)?, a.iter().map(|&v| top(lim(v))).collect())?; eq("clamp_min", T::get(&er(x.clamp_min(lo))?)?, a.iter().map(|&v| lim(v)).collect())?; eq("clamp_max", T::get(&er(x.clamp_max(hi))?)?, a.iter().map(|&v| top(v)).collect()) });
    }
}
/// every element-wise method of a tensor, for every element type: it hands exactly its operands to the kernel of its name
fn methods<T: Elem>(cx: &mut Cx) where hodu_core::scalar::Scalar: From<T> {
    let dt: &'static str = leak(T::DT.to_string());
    let r = cx.rng.below(4); let d = rand_dims(cx, r, 3); let n = numel(&d);
    let e: Vec<usize> = d.iter().map(|&x| if cx.rng.below(4) == 0 { 1 } else { x }).collect(); let m = numel(&e);
    let lo = if dt.starts_with('u') || dt == "bool" { 0 } else { -9 };
    let a = rand_vals::<T>(cx, n, lo, 9); let b = rand_vals::<T>(cx, m, lo, 9); let s = T::of(cx.rng.range(lo.max(-3), 5)); let by = cx.rng.below(9) as u32;
    let (x, h1) = any_view(cx, &d, &a); let (y, h2) = any_view(cx, &e, &b);
    let raw = |v: T| unsafe { std::slice::from_raw_parts(&v as *const T as *const u8, std::mem::size_of::<T>()).to_vec() };
    let at: Vec<usize> = coords(&d).iter().map(|q| { let z: Vec<usize> = q.iter().zip(&e).map(|(&q, &e)| if e == 1 { 0 } else { q }).collect(); addr(&z, &row_major(&e), 0) }).collect();
    let inp = (dt, &d, &e, (h1, h2), &a, &b, s, by);
    let ops: Vec<Op> = all().into_iter().filter(|o| o.dt == dt).collect();
    for o in &ops {
        let res = match o.op {
            "cast" => { let to = DTYPES.iter().find(|t| t.to_string() == o.out).copied(); match to { Some(t) => x.to_dtype(t), None => continue } }
            "shl_scalar" => x.shl_scalar(by), "shr_scalar" => x.shr_scalar(by), "contiguous" => x.contiguous(),
            name => match call(name, &x, &y, s.into()) { Some(v) => v, None => continue },
        };
        let Ok(t) = res else { continue }; // whether the pair of operation and type is supported is T18's matter
        cx.case(leak(format!("Tensor::{}", o.op)), inp.clone(), || {
            eq("extents", t.shape().dims().to_vec(), d.clone())?; eq("element type", t.dtype().to_string(), o.out.to_string())?;
            let got = er(t.contiguous().and_then(|t| t.to_bytes()))?; let w = size_of(o.out); eq("bytes", got.len(), n * w)?;
            for i in 0..n {
                let q = match o.kind { Kind::Scalar => raw(s), Kind::Shift => by.to_ne_bytes().to_vec(), _ => raw(b[at[i]]) };
                let want = o.one(&raw(a[i]), if o.binary() || matches!(o.kind, Kind::Scalar | Kind::Shift) { &q } else { &[] });
                let g = el(&got, i, w);
                let zeros = is_float(o.out) && to_f64(o.out, g) == 0.0 && to_f64(o.out, &want) == 0.0;
                ensure(zeros || same(o.out, g, &want), || format!("element {} of {} is {}, but {} of its operands is {}", i, n, to_f64(o.out, g), o.op, to_f64(o.out, &want)))?;
            }
            Ok(())
        });
    }
}
const DTYPES: [DType; 15] = [DType::BOOL, DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64, DType::U8, DType::U16, DType::U32, DType::U64, DType::I8, DType::I16, DType::I32, DType::I64];
macro_rules! table { ($name:expr, $x:expr, $y:expr, $s:expr; $($b:ident)*; $($u:ident)*; $($c:ident)*) => { match $name { $( stringify!($b) => Some($x.$b($y)), )* $( stringify!($u) => Some($x.$u()), )* $( stringify!($c) => Some($x.$c($s)), )* _ => None } } }
fn call(name: &str, x: &Tensor, y: &Tensor, s: hodu_core::scalar::Scalar) -> Option<HoduResult<Tensor>> {
    table!(name, x, y, s; add sub mul div rem pow maximum minimum logical_and logical_or logical_xor eq ne lt le gt ge shl shr bitwise_and bitwise_or bitwise_xor;
        abs sign softsign square sqrt recip logical_not neg relu sigmoid hardsigmoid gelu softplus silu hardsilu mish selu celu sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 exp10 ln log2 log10 ceil floor round erf isnan isinf isfinite bitwise_not;
        add_scalar sub_scalar mul_scalar div_scalar rem_scalar pow_scalar maximum_scalar minimum_scalar eq_scalar ne_scalar lt_scalar le_scalar gt_scalar ge_scalar leaky_relu elu prelu)
}
macro_rules! each { ($f:ident, $cx:expr) => { $f::<f32>($cx); $f::<i32>($cx); $f::<u8>($cx); $f::<bool>($cx); $f::<f64>($cx); $f::<i64>($cx); $f::<half::f16>($cx); $f::<half::bf16>($cx); $f::<float8::F8E4M3>($cx); $f::<float8::F8E5M2>($cx); $f::<i8>($cx); $f::<i16>($cx); $f::<u16>($cx); $f::<u32>($cx); $f::<u64>($cx); } }
pub fn run(cx: &mut Cx) {
    for _ in 0..2 { each!(methods, cx); }
    for _ in 0..15 { selection::<f32>(cx); selection::<i32>(cx); selection::<u8>(cx); selection::<bool>(cx); selection::<half::f16>(cx); selection::<f64>(cx); }
    let ops = all();
    for o in &ops {
        for _ in 0..2 { means(cx, o); }
        for d in [vec![], vec![1], vec![0], vec![3, 0], vec![67], vec![2, 3, 2]] { let (a, b) = (L::plain(&d), L::plain(&d)); run_op(cx, o, a, b); }
        for _ in 0..3 { let r = cx.rng.below(5); let d = rand_dims(cx, r, 4); let (a, b) = (lay(cx, &d), lay(cx, &d)); run_op(cx, o, a, b); }
    }
    // every length around the vector widths, one dimension split, offsets
    for n in 0..40 { for o in ops.iter().filter(|o| size_of(o.dt) >= 4 || n % 8 == 1) { if cx.rng.below(3) == 0 { let mut a = L::plain(&[n]); let mut b = a.clone(); if cx.rng.flip() { a.o = cx.rng.below(4); } if cx.rng.flip() { b.o = cx.rng.below(4); } run_op(cx, o, a, b); } } }
    // around the thread threshold
    let mut big = ops.clone(); cx.rng.shuffle(&mut big);
    let mut bi = 0;
    while cx.more() {
        match cx.rng.below(6) { 0 => selection::<i64>(cx), 1 => selection::<u16>(cx), 2 => selection::<bool>(cx), 3 => selection::<half::bf16>(cx), 4 => selection::<f64>(cx), _ => selection::<f32>(cx) }
        match cx.rng.below(15) { 0 => methods::<f32>(cx), 1 => methods::<i32>(cx), 2 => methods::<u8>(cx), 3 => methods::<bool>(cx), 4 => methods::<f64>(cx), 5 => methods::<i64>(cx), 6 => methods::<half::f16>(cx), 7 => methods::<half::bf16>(cx), 8 => methods::<float8::F8E4M3>(cx), 9 => methods::<float8::F8E5M2>(cx), 10 => methods::<i8>(cx), 11 => methods::<i16>(cx), 12 => methods::<u16>(cx), 13 => methods::<u32>(cx), _ => methods::<u64>(cx) }
        for _ in 0..60 {
            let o = cx.rng.pick(&ops).clone();
            means(cx, &o); means(cx, &o);
            let r = cx.rng.below(7); let d = if cx.rng.below(6) == 0 { vec![cx.rng.below(300)] } else { rand_dims(cx, r, if r > 4 { 2 } else { 5 }) };
            let (mut a, mut b) = (lay(cx, &d), lay(cx, &d));
            if cx.rng.below(5) == 0 { a = L::plain(&d); } if cx.rng.below(5) == 0 { b = L::plain(&d); }
            run_op(cx, &o, a, b);
        }
        let o = big[bi % big.len()].clone(); bi += 1;
        let n = *cx.rng.pick(&[200000usize, 199999, 200001, 250003, 300007, 400001, 600013]);
        let (mut a, mut b) = (L::plain(&[n]), L::plain(&[n])); if cx.rng.flip() { a.o = 3; } if cx.rng.flip() { b.o = 5; }
        run_op(cx, &o, a, b);
    }
}
fn rand_dims(cx: &mut Cx, r: usize, m: usize) -> Vec<usize> { (0..r).map(|_| if cx.rng.below(25) == 0 { 0 } else { 1 + cx.rng.below(m) }).collect() }
