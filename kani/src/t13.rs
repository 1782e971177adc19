//! Low-precision floats of the API: every bit pattern, every f32.
use crate::any::*;
use hodu_core::{scalar::Scalar, types::DType};
#[derive(Clone, Copy)] struct F { m: u32, e: u32, bias: i32, ieee: bool, dt: DType }
const E4: F = F { m: 3, e: 4, bias: 7, ieee: false, dt: DType::F8E4M3 }; const E5: F = F { m: 2, e: 5, bias: 15, ieee: true, dt: DType::F8E5M2 };
const HF: F = F { m: 10, e: 5, bias: 15, ieee: true, dt: DType::F16 }; const BF: F = F { m: 7, e: 8, bias: 127, ieee: true, dt: DType::BF16 };
impl F {
    fn top(&self) -> u32 { 1 << (self.m + self.e) }
    fn nan(&self, p: u32) -> bool { let a = p & (self.top() - 1); if self.ieee { a > ((1 << self.e) - 1) << self.m } else { a == self.top() - 1 } }
    fn inf(&self, p: u32) -> bool { self.ieee && p & (self.top() - 1) == ((1 << self.e) - 1) << self.m }
    /// magnitude of a finite pattern (0 <= a < top), as the format defines it; the patterns after the largest finite one continue the ladder
    fn mag(&self, a: u32) -> f64 { let (e, m) = (a >> self.m, a & ((1 << self.m) - 1));
        if e == 0 { m as f64 * f64::from_bits(((1 - self.bias - self.m as i32 + 1023) as u64) << 52) } else { f64::from_bits((((e as i32 - self.bias + 1023) as u64) << 52) | ((m as u64) << (52 - self.m))) } }
    fn any(&self) -> u32 { let p: u32 = kani::any(); kani::assume(p < 2 * self.top()); p }
    fn scalar(&self, p: u32) -> Scalar { match self.dt { DType::F8E4M3 => Scalar::F8E4M3(float8::F8E4M3::from_bits(p as u8)), DType::F8E5M2 => Scalar::F8E5M2(float8::F8E5M2::from_bits(p as u8)), DType::F16 => Scalar::F16(half::f16::from_bits(p as u16)), _ => Scalar::BF16(half::bf16::from_bits(p as u16)) } }
    fn widens(&self, p: u32, g: f64) { if self.nan(p) { assert!(g.is_nan()); } else { let a = p & (self.top() - 1); let w = if self.inf(p) { f64::INFINITY } else { self.mag(a) }; assert!(g.to_bits() == if p >= self.top() { -w } else { w }.to_bits()); } }
    /// p is the pattern nearest x, ties to the even one, on x's side of zero; past half the last step it overflows
    fn nearest(&self, x: f32, p: u32) {
        if x.is_nan() { assert!(self.nan(p), "NaN lost"); return; }
        assert!((p >= self.top()) == x.is_sign_negative(), "wrong side of zero");
        let a = p & (self.top() - 1); let v = (x as f64).abs(); let last = if self.ieee { (((1u32 << self.e) - 1) << self.m) - 1 } else { self.top() - 2 };
        if a > last { assert!(a == last + 1, "overflow pattern"); let half = (self.mag(last) + self.ladder(last + 1)) / 2.0; assert!(v.is_infinite() || v > half || v == half && last % 2 == 1, "overflow below the largest finite value"); return; }
        let w = self.mag(a); assert!(v.is_finite(), "infinity becomes finite");
        if v > w { let mid = (w + self.ladder(a + 1)) / 2.0; assert!(v < mid || v == mid && a % 2 == 0, "a nearer value lies above"); }
        if v < w { let mid = (w + self.mag(a - 1)) / 2.0; assert!(v > mid || v == mid && a % 2 == 0, "a nearer value lies below"); }
    }
    fn ladder(&self, a: u32) -> f64 { self.mag(a) }
}
fn bits(s: Scalar) -> u32 { match s { Scalar::F8E4M3(x) => x.to_bits() as u32, Scalar::F8E5M2(x) => x.to_bits() as u32, Scalar::F16(x) => x.to_bits() as u32, Scalar::BF16(x) => x.to_bits() as u32, _ => { assert!(false); 0 } } }
fn same(f: F, p: u32, q: u32) { assert!(p == q || f.nan(p) && f.nan(q), "the bit patterns differ"); }
fn widen(f: F) { let p = f.any(); let s = f.scalar(p); f.widens(p, s.to_f32() as f64); f.widens(p, s.to_f64()); same(f, p, bits(Scalar::from_f32(s.to_f32(), f.dt))); same(f, p, bits(s.to_dtype(DType::F32).to_dtype(f.dt))); same(f, p, bits(s.to_dtype(DType::F64).to_dtype(f.dt))); }
fn narrow(f: F) { let x: f32 = kani::any(); let s = Scalar::from_f32(x, f.dt); assert!(s.dtype() == f.dt); let p = bits(s); f.nearest(x, p); same(f, p, bits(Scalar::F32(x).to_dtype(f.dt))); same(f, p, bits(Scalar::F64(x as f64).to_dtype(f.dt))); }
macro_rules! fmt { ($($w:ident $n:ident $f:ident;)*) => { $(
  #[kani::proof] #[kani::unwind(13)] #[kani::stub(half::f16::from_f32, h_from32)] #[kani::stub(half::f16::from_f64, h_from64)] #[kani::stub(half::f16::to_f32, h_to32)] #[kani::stub(half::f16::to_f64, h_to64)] fn $w() { widen($f); }
  #[kani::proof] #[kani::unwind(13)] #[kani::stub(half::f16::from_f32, h_from32)] #[kani::stub(half::f16::from_f64, h_from64)] #[kani::stub(half::f16::to_f32, h_to32)] #[kani::stub(half::f16::to_f64, h_to64)] fn $n() { narrow($f); } )* } }
fmt! { widen_f8e4m3 narrow_f8e4m3 E4; widen_f8e5m2 narrow_f8e5m2 E5; widen_f16 narrow_f16 HF; widen_bf16 narrow_bf16 BF; }
