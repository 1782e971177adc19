//! Type tables agree with the storage they describe.
use crate::{cx::*, kern, views::*};
use hodu_core::{prelude::*, scalar::Scalar};
use hodu_plugin::PluginDType;
use std::str::FromStr;

fn raw(t: &Tensor) -> Vec<u8> { t.to_bytes().unwrap() }
fn num<T: Elem>(x: T) -> Scalar where Scalar: From<T> { Scalar::from(x) }
/// exact value of a scalar as a rational-free pair: integers as i128, floats as f64
fn val(s: &Scalar) -> Result<i128, f64> { match *s { Scalar::BOOL(b) => Ok(b as i128), Scalar::U8(x) => Ok(x as i128), Scalar::U16(x) => Ok(x as i128), Scalar::U32(x) => Ok(x as i128), Scalar::U64(x) => Ok(x as i128), Scalar::I8(x) => Ok(x as i128), Scalar::I16(x) => Ok(x as i128), Scalar::I32(x) => Ok(x as i128), Scalar::I64(x) => Ok(x as i128), Scalar::F8E4M3(x) => Err(x.to_f32() as f64), Scalar::F8E5M2(x) => Err(x.to_f32() as f64), Scalar::BF16(x) => Err(x.to_f32() as f64), Scalar::F16(x) => Err(x.to_f32() as f64), Scalar::F32(x) => Err(x as f64), Scalar::F64(x) => Err(x) } }
fn limits(bytes: usize, signed: bool) -> (i128, i128) { let b = bytes * 8; if signed { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) } }
fn clamp(v: Result<i128, f64>, bytes: usize, signed: bool) -> i128 { let (lo, hi) = limits(bytes, signed); match v { Ok(x) => x.clamp(lo, hi), Err(f) => if f.is_nan() { 0 } else { (f as i128).clamp(lo, hi) } } }
fn float_eq(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn table<T: Elem>(cx: &mut Cx, i: usize, p: PluginDType) where Scalar: From<T> {
    let d = T::DT; let name = kern::DT[i].0; let size = std::mem::size_of::<T>();
    cx.case("DType names", name, || { eq("Display", d.to_string(), name.to_string())?; eq("Debug", format!("{:?}", d), format!("DType[{}]", name)) });
    cx.case("DType::size_in_bytes", name, || { eq("size", d.size_in_bytes(), size)?; eq("kernel element size", kern::size_of(name), size) });
    let class = if name == "bool" { 0 } else if name.contains('f') { 1 } else if name.starts_with('u') { 2 } else { 3 };
    cx.case("DType classes", name, || eq("is_bool, is_float, is_uint, is_int", [d.is_bool(), d.is_float(), d.is_uint(), d.is_int()], [class == 0, class == 1, class == 2, class == 3]));
    cx.case("PluginDType tables", name, || { eq("name", p.name(), name)?; eq("Display", p.to_string(), name.to_string())?; eq("parse", PluginDType::from_str(name), Ok(p))?; eq("parse upper case", PluginDType::from_str(&name.to_uppercase()), Ok(p))?; eq("size", p.size_in_bytes(), size)?; eq("float", p.is_float(), class == 1)?; eq("integer", p.is_integer(), class >= 2)?; eq("signed", p.is_signed(), class == 1 || class == 3)?; eq("code", p as u8, d as u8) });
    for bad in ["", " f32", "f32 ", "float32", "int", "f", "i128", "f8", "bf"] { cx.case("PluginDType::from_str", bad, || ensure(PluginDType::from_str(bad).is_err(), || "accepted".into())); }
    for n in [0usize, 1, 3, 17] {
        cx.case("stored bytes", (name, n), || { let v: Vec<T> = (0..n as i64).map(T::of).collect(); let t = er(T::try_mk(v.clone(), &[n]))?; let b = raw(&t); eq("bytes", b.len(), n * size)?; let w = crate::t15::raw(&v); eq("elements in order", b.clone(), w)?; let u = er(Tensor::from_bytes(&b, &[n], d, Device::CPU))?; eq("element type read back", u.dtype(), d)?; eq("bytes read back", raw(&u), b) });
        cx.case("Tensor element types", (name, n), || { for t in [er(Tensor::zeros(&[n], d))?, er(Tensor::ones(&[n], d))?, er(Tensor::empty(&[n], d))?, er(Tensor::full(&[n], T::of(1), ).and_then(|t| t.to_dtype(d)))?] { eq("element type", t.dtype(), d)?; eq("bytes", raw(&t).len(), n * size)?; } eq("zeros", T::get(&er(Tensor::zeros(&[n], d))?)?, vec![T::of(0); n])?; eq("ones", T::get(&er(Tensor::ones(&[n], d))?)?, vec![T::of(1); n]) });
    }
    cx.case("Scalar tables", name, || { for (s, w) in [(Scalar::zero(d), 0), (Scalar::one(d), 1), (Scalar::from_f32(1.0, d), 1), (Scalar::from_usize(1, d), 1), (Scalar::from_isize(1, d), 1), (Scalar::from_isize(0, d), 0), (Scalar::from_usize(0, d), 0)] { eq("type", s.dtype(), d)?; eq("value", s == num(T::of(w)), true)?; eq("float", s.is_float(), class == 1)?; eq("int", s.is_int(), class >= 2)?; } Ok(()) });
}
/// the conversions of one scalar: the value itself when the target can hold it, else the nearest end of the target's range
fn conversions(cx: &mut Cx, s: Scalar) {
    let v = val(&s); let f = match v { Ok(x) => x as f64, Err(f) => f };
    macro_rules! int { ($m:ident, $t:ty, $d:ident) => { cx.case(concat!("Scalar::", stringify!($m)), s, || { let w = clamp(v, std::mem::size_of::<$t>(), <$t>::MIN != 0); eq("value", s.$m() as i128, w)?; eq("through to_dtype", val(&s.to_dtype(DType::$d)).unwrap_or(-1), w)?; eq("type", s.to_dtype(DType::$d).dtype(), DType::$d) }); } }
    int!(to_u8, u8, U8); int!(to_u16, u16, U16); int!(to_u32, u32, U32); int!(to_u64, u64, U64); int!(to_i8, i8, I8); int!(to_i16, i16, I16); int!(to_i32, i32, I32); int!(to_i64, i64, I64);
    cx.case("Scalar::to_usize", s, || eq("value", s.to_usize() as i128, clamp(v, 8, false)));
    cx.case("Scalar::to_isize", s, || eq("value", s.to_isize() as i128, clamp(v, 8, true)));
    cx.case("Scalar::to_bool", s, || { let w = match v { Ok(x) => x != 0, Err(f) => f != 0.0 }; eq("value", s.to_bool(), w)?; eq("through to_dtype", s.to_dtype(DType::BOOL) == Scalar::BOOL(w), true) });
    cx.case("Scalar::to_f64", s, || { ensure(float_eq(s.to_f64(), f), || format!("{} for {}", s.to_f64(), f))?; ensure(float_eq(s.to_dtype(DType::F64).to_f64(), f), || "to_dtype".into()) });
    cx.case("Scalar::to_f32", s, || { let w = match v { Ok(x) => x as f32, Err(f) => f as f32 }; ensure(float_eq(s.to_f32() as f64, w as f64), || format!("{} for {}", s.to_f32(), w))?; ensure(float_eq(s.to_dtype(DType::F32).to_f64(), w as f64), || "to_dtype".into()) });
    for d in [DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16] { cx.case("Scalar::to_dtype", (s, d), || { let g = s.to_dtype(d); eq("type", g.dtype(), d)?; let direct = match d { DType::F8E4M3 => Scalar::F8E4M3(s.to_f8e4m3()), DType::F8E5M2 => Scalar::F8E5M2(s.to_f8e5m2()), DType::BF16 => Scalar::BF16(s.to_bf16()), _ => Scalar::F16(s.to_f16()) }; ensure(float_eq(g.to_f64(), direct.to_f64()), || format!("{:?} and {:?}", g, direct))?; let w = Scalar::from_f32(s.to_f32(), d); ensure(float_eq(g.to_f64(), w.to_f64()), || format!("{:?}, from_f32 gives {:?}", g, w)) }); }
    cx.case("Scalar::is_integer_value", s, || { let w = match v { Ok(_) => !matches!(s, Scalar::BOOL(_)), Err(f) => f.is_infinite() || f.fract() == 0.0 }; eq("integer", s.is_integer_value(), w) });
}
/// what the tensor operation gives for an element type is what the kernel named after it gives
fn selected<T: Elem>(cx: &mut Cx) where Scalar: From<T> {
    let n = 1 + cx.rng.below(5); let a: Vec<T> = rand_vals(cx, n, 0, 11); let b: Vec<T> = rand_vals(cx, n, 1, 5); let (x, y) = (T::mk(a.clone(), &[n]), T::mk(b.clone(), &[n]));
    let f = |v: &T| v.f();
    cx.case("comparison kernels", (T::DT, &a, &b), || { for (t, w) in [(er(x.eq(&y))?, a.iter().zip(&b).map(|(p, q)| f(p) == f(q)).collect::<Vec<_>>()), (er(x.ne(&y))?, a.iter().zip(&b).map(|(p, q)| f(p) != f(q)).collect())] { eq("element type", t.dtype(), DType::BOOL)?; eq("bytes", raw(&t), w.iter().map(|&z| z as u8).collect())?; } Ok(()) });
    cx.case("logical kernels", (T::DT, &a, &b), || { let t = er(x.logical_and(&y))?; eq("bytes", raw(&t), a.iter().zip(&b).map(|(p, q)| (f(p) != 0.0 && f(q) != 0.0) as u8).collect()) });
    cx.case("any and all kernels", (T::DT, &a), || { eq("any", raw(&er(x.any(&[0], false))?), vec![a.iter().any(|p| f(p) != 0.0) as u8])?; eq("all", raw(&er(x.all(&[0], false))?), vec![a.iter().all(|p| f(p) != 0.0) as u8]) });
    cx.case("cast to bool kernels", (T::DT, &a), || eq("bytes", raw(&er(x.to_dtype(DType::BOOL))?), a.iter().map(|p| (f(p) != 0.0) as u8).collect()));
    if T::DT != DType::BOOL {
        cx.case("max kernels", (T::DT, &a, &b), || eq("values", T::get(&er(x.maximum(&y))?)?, a.iter().zip(&b).map(|(p, q)| if f(p) < f(q) { *q } else { *p }).collect()));
        cx.case("sum kernels", (T::DT, &a), || { let w: f64 = a.iter().map(f).sum(); if w > 16.0 && (T::DT == DType::F8E4M3 || T::DT == DType::F8E5M2) { return Ok(()); } let g = T::get(&er(x.sum_all())?)?; ensure((g[0].f() - w).abs() <= if T::DT == DType::F8E5M2 { w * a.len() as f64 * 0.125 } else if T::DT == DType::F8E4M3 { w * a.len() as f64 * 0.0625 } else { 0.0 }, || format!("{:?} for {}", g, w)) });
        cx.case("add_scalar kernels", (T::DT, &a, &b[0]), || { let g = T::get(&er(x.mul_scalar(Scalar::from(T::of(1))))?)?; eq("times one", g, a.clone())?; let g = T::get(&er(x.add_scalar(Scalar::from(T::of(0))))?)?; eq("plus zero", g, a.clone()) });
    }
    cx.case("concat and index kernels", (T::DT, &a), || { let t = er(Tensor::concat(&[&x, &x], 0))?; let mut w = a.clone(); w.extend(&a); eq("concat", T::get(&t)?, w)?; let t = er(x.flip(&[0]))?; let mut w = a.clone(); w.reverse(); eq("flip", T::get(&t)?, w)?; let i = i32::mk(vec![n as i32 - 1], &[1]); eq("index_select", T::get(&er(x.index_select(0, &i))?)?, vec![a[n - 1]]) });
}
macro_rules! syms { ($cx:expr, $($op:ident)*) => { $( syms!(@ $cx, $op, bool f8e4m3 f8e5m2 bf16 f16 f32 f64 u8 u16 u32 u64 i8 i16 i32 i64); )* }; (@ $cx:expr, $op:ident, $($t:ident)*) => { $( { let n = concat!("hodu_cpu_", stringify!($op), "_", stringify!($t)); let f = { mod m { extern "C" { #[link_name = concat!("hodu_cpu_", stringify!($op), "_", stringify!($t))] pub fn f(); } } m::f as *const () }; $cx.case("get_kernel_ptr", n, || eq("address", hodu_cpu_kernels::jit_symbols::get_kernel_ptr(n), Some(f))); } )* } }
pub fn run(cx: &mut Cx) {
    macro_rules! each { ($($t:ty, $p:ident, $i:expr);* $(;)?) => { $( table::<$t>(cx, $i, PluginDType::$p); )* } }
    macro_rules! rand { () => { match cx.rng.below(15) { 0 => selected::<bool>(cx), 1 => selected::<float8::F8E4M3>(cx), 2 => selected::<float8::F8E5M2>(cx), 3 => selected::<half::bf16>(cx), 4 => selected::<half::f16>(cx), 5 => selected::<f32>(cx), 6 => selected::<f64>(cx), 7 => selected::<u8>(cx), 8 => selected::<u16>(cx), 9 => selected::<u32>(cx), 10 => selected::<u64>(cx), 11 => selected::<i8>(cx), 12 => selected::<i16>(cx), 13 => selected::<i32>(cx), _ => selected::<i64>(cx) } } }
    let ix = |n: &str| kern::DT.iter().position(|x| x.0 == n).unwrap();
    each! { bool, BOOL, ix("bool"); float8::F8E4M3, F8E4M3, ix("f8e4m3"); float8::F8E5M2, F8E5M2, ix("f8e5m2"); half::bf16, BF16, ix("bf16"); half::f16, F16, ix("f16"); f32, F32, ix("f32"); f64, F64, ix("f64"); u8, U8, ix("u8"); u16, U16, ix("u16"); u32, U32, ix("u32"); u64, U64, ix("u64"); i8, I8, ix("i8"); i16, I16, ix("i16"); i32, I32, ix("i32"); i64, I64, ix("i64") }
    syms!(cx, add sub mul div rem pow maximum minimum logical_and logical_or logical_xor eq ne lt le gt ge);
    cx.case("get_kernel_ptr refuses", "", || ensure(["", "hodu_cpu_add", "hodu_cpu_add_", "hodu_cpu_add_f33", "add_f32", "hodu_cpu_add_f32 "].iter().all(|n| hodu_cpu_kernels::jit_symbols::get_kernel_ptr(n).is_none()), || "an unknown name gave a function".into()));
    for b in 0..=255u8 { conversions(cx, Scalar::U8(b)); conversions(cx, Scalar::I8(b as i8)); conversions(cx, Scalar::F8E4M3(float8::F8E4M3::from_bits(b))); conversions(cx, Scalar::F8E5M2(float8::F8E5M2::from_bits(b))); }
    conversions(cx, Scalar::BOOL(false)); conversions(cx, Scalar::BOOL(true));
    while cx.more() {
        for _ in 0..10 { rand!(); }
        let x = cx.rng.next() >> cx.rng.below(64); let x = if cx.rng.flip() { x } else { (1u64 << cx.rng.below(64)).wrapping_add(cx.rng.range(-1, 1) as u64) }; let y = if cx.rng.flip() { x } else { x.wrapping_neg() };
        for s in [Scalar::U16(y as u16), Scalar::I16(y as i16), Scalar::U32(y as u32), Scalar::I32(y as i32), Scalar::U64(y), Scalar::I64(y as i64), Scalar::BF16(half::bf16::from_bits(y as u16)), Scalar::F16(half::f16::from_bits(y as u16)), Scalar::F32(f32::from_bits(y as u32)), Scalar::F32(y as i64 as f32), Scalar::F64(f64::from_bits(y)), Scalar::F64(y as i64 as f64), Scalar::F64(x as f64)] { conversions(cx, s); }
    }
}
