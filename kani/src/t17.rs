//! Type tables: every element type, every scalar value.
use crate::any::*;
use hodu_core::{scalar::Scalar, types::DType};
use hodu_plugin::PluginDType;
#[kani::proof] fn dtype_tables() { let d = dtype(); let (s, c) = doc(d); assert_eq!(d.size_in_bytes(), s); assert_eq!(d.is_bool(), c == 0); assert_eq!(d.is_float(), c == 1); assert_eq!(d.is_uint(), c == 2); assert_eq!(d.is_int(), c == 3); }
const PDTS: [PluginDType; 15] = [PluginDType::BOOL, PluginDType::F8E4M3, PluginDType::F8E5M2, PluginDType::BF16, PluginDType::F16, PluginDType::F32, PluginDType::F64, PluginDType::U8, PluginDType::U16, PluginDType::U32, PluginDType::U64, PluginDType::I8, PluginDType::I16, PluginDType::I32, PluginDType::I64];
#[kani::proof] fn plugin_tables() { let i: usize = kani::any(); kani::assume(i < 15); let (p, d) = (PDTS[i], DTS[i]); let (s, c) = doc(d); assert_eq!(p as u8, d as u8); assert_eq!(p.size_in_bytes(), s); assert_eq!(p.is_float(), c == 1); assert_eq!(p.is_integer(), c >= 2); assert_eq!(p.is_signed(), c == 1 || c == 3); }
fn kind(s: Scalar) { let d = s.dtype(); let (_, c) = doc(d); assert_eq!(s.is_float(), c == 1); assert_eq!(s.is_int(), c >= 2); }
fn lim(b: usize, signed: bool) -> (i128, i128) { let b = b * 8; if signed { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) } }
fn clamp(v: i128, d: DType) -> i128 { let (s, c) = doc(d); let (lo, hi) = lim(s, c == 3); if v < lo { lo } else if v > hi { hi } else { v } }
fn ints(s: Scalar, v: impl Fn(DType) -> i128) {
    assert!(s.to_u8() as i128 == v(DType::U8)); assert!(s.to_u16() as i128 == v(DType::U16)); assert!(s.to_u32() as i128 == v(DType::U32)); assert!(s.to_u64() as i128 == v(DType::U64));
    assert!(s.to_i8() as i128 == v(DType::I8)); assert!(s.to_i16() as i128 == v(DType::I16)); assert!(s.to_i32() as i128 == v(DType::I32)); assert!(s.to_i64() as i128 == v(DType::I64));
    assert!(s.to_usize() as i128 == v(DType::U64)); assert!(s.to_isize() as i128 == v(DType::I64));
}
macro_rules! int_conv { ($($n:ident $d:ident;)*) => { $( #[kani::proof] fn $n() { let (s, v) = int_scalar(DType::$d); assert!(s.dtype() == DType::$d); kind(s); ints(s, |d| clamp(v, d)); assert!(s.to_bool() == (v != 0)); } )* } }
int_conv! { conv_bool BOOL; conv_u8 U8; conv_u16 U16; conv_u32 U32; conv_u64 U64; conv_i8 I8; conv_i16 I16; conv_i32 I32; conv_i64 I64; }
#[kani::proof] fn conv_f32() { let x: f32 = kani::any(); let s = Scalar::F32(x); kind(s); ints(s, |d| if x.is_nan() { 0 } else { let (b, c) = doc(d); let (lo, hi) = lim(b, c == 3); if x as f64 >= hi as f64 { hi } else if x as f64 <= lo as f64 { lo } else { (x as f64) as i128 } }); }

macro_rules! proof { ($(#[$a:meta])* $n:ident $b:block) => { $(#[$a])* #[kani::proof] #[kani::unwind(13)] #[kani::stub(half::f16::from_f32, h_from32)] #[kani::stub(half::f16::from_f64, h_from64)] #[kani::stub(half::f16::to_f32, h_to32)] #[kani::stub(half::f16::to_f64, h_to64)] fn $n() $b } }
/// nearest end of the range, truncated towards zero, 0 for NaN
fn trunc(x: f64, d: DType) -> i128 { if x.is_nan() { return 0; } let (b, c) = doc(d); let (lo, hi) = lim(b, c == 3); if x >= hi as f64 { hi } else if x <= lo as f64 { lo } else { x as i128 } }
fn floats(s: Scalar, x: f64) { kind(s); ints(s, |d| trunc(x, d)); assert!(s.to_bool() == (x != 0.0)); assert!(s.is_integer_value() == (x.is_infinite() || x == x.trunc())); }
fn same(a: f64, b: f64) { assert!(a == b || a.is_nan() && b.is_nan()); }
proof! { conv_f64 { let x: f64 = kani::any(); floats(Scalar::F64(x), x); } }
proof! { conv_f8e4m3 { let x = float8::F8E4M3::from_bits(kani::any()); floats(Scalar::F8E4M3(x), x.to_f32() as f64); same(Scalar::F8E4M3(x).to_f64(), x.to_f32() as f64); } }
proof! { conv_f8e5m2 { let x = float8::F8E5M2::from_bits(kani::any()); floats(Scalar::F8E5M2(x), x.to_f32() as f64); same(Scalar::F8E5M2(x).to_f64(), x.to_f32() as f64); } }
proof! { conv_f16 { let x = half::f16::from_bits(kani::any()); floats(Scalar::F16(x), x.to_f32() as f64); same(Scalar::F16(x).to_f64(), x.to_f32() as f64); } }
proof! { conv_bf16 { let x = half::bf16::from_bits(kani::any()); floats(Scalar::BF16(x), x.to_f32() as f64); same(Scalar::BF16(x).to_f64(), x.to_f32() as f64); } }
proof! { to_float { let (s, v) = int_scalar(dtype()); same(s.to_f64(), v as f64); same(s.to_f32() as f64, v as f32 as f64); } }
/// the type and value of a scalar made for an element type
fn made(s: Scalar, d: DType, v: f64) { assert!(s.dtype() == d); kind(s); assert!(s.to_f64() == v); }
macro_rules! consts { ($($n:ident $d:ident;)*) => { $( proof! { $n { let d = DType::$d; made(Scalar::zero(d), d, 0.0); made(Scalar::one(d), d, 1.0); made(Scalar::from_f32(1.0, d), d, 1.0); made(Scalar::from_usize(1, d), d, 1.0); made(Scalar::from_isize(1, d), d, 1.0); made(Scalar::from_usize(0, d), d, 0.0); made(Scalar::from_isize(0, d), d, 0.0); } } )* } }
consts! { zero_one_bool BOOL; zero_one_f8e4m3 F8E4M3; zero_one_f8e5m2 F8E5M2; zero_one_bf16 BF16; zero_one_f16 F16; zero_one_f32 F32; zero_one_f64 F64; zero_one_u8 U8; zero_one_u16 U16; zero_one_u32 U32; zero_one_u64 U64; zero_one_i8 I8; zero_one_i16 I16; zero_one_i32 I32; zero_one_i64 I64; }
/// conversion to an element type is the conversion of that name
proof! { to_dtype_ints { let (s, _) = int_scalar(dtype()); cast(s); } }
fn cast(s: Scalar) { let b = |x: Scalar, d: DType| { let r = s.to_dtype(d); assert!(r.dtype() == d); assert!(r == x || r.dtype() == s.dtype()); };
    b(Scalar::BOOL(s.to_bool()), DType::BOOL); b(Scalar::U8(s.to_u8()), DType::U8); b(Scalar::U16(s.to_u16()), DType::U16); b(Scalar::U32(s.to_u32()), DType::U32); b(Scalar::U64(s.to_u64()), DType::U64);
    b(Scalar::I8(s.to_i8()), DType::I8); b(Scalar::I16(s.to_i16()), DType::I16); b(Scalar::I32(s.to_i32()), DType::I32); b(Scalar::I64(s.to_i64()), DType::I64); }
proof! { to_dtype_f32 { let x: f32 = kani::any(); cast(Scalar::F32(x)); } }
proof! { to_dtype_f64 { let x: f64 = kani::any(); cast(Scalar::F64(x)); let r = Scalar::F64(x).to_dtype(DType::F32); assert!(r.dtype() == DType::F32); same(r.to_f64(), x as f32 as f64); } }
proof! { to_dtype_narrow { let (s, _) = int_scalar(dtype()); for d in [DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64] { assert!(s.to_dtype(d).dtype() == d); } } }
proof! { from_int { let (u, i): (usize, isize) = (kani::any(), kani::any()); for d in [DType::U64, DType::I64, DType::BOOL, DType::F64, DType::F32] { assert!(Scalar::from_usize(u, d).dtype() == d && Scalar::from_isize(i, d).dtype() == d); }
    assert!(Scalar::from_usize(u, DType::U64) == Scalar::U64(u as u64)); assert!(Scalar::from_isize(i, DType::I64) == Scalar::I64(i as i64)); assert!(Scalar::from_usize(u, DType::BOOL) == Scalar::BOOL(u != 0)); assert!(Scalar::from_isize(i, DType::F64) == Scalar::F64(i as f64)); } }
