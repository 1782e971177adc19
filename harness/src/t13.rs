//! Low-precision floats decode exactly and re-encode without loss.
use crate::{cx::*, kern::*};
use hodu_core::{scalar::Scalar, tensor::Tensor, types::DType};
use hodu_cpu_kernels as k;
pub struct F { pub name: &'static str, pub w: usize, pub m: u32, pub bias: i32, pub ebits: u32, pub ieee: bool, pub dt: DType }
pub fn formats() -> [F; 4] { [
    F { name: "f8e4m3", w: 1, m: 3, bias: 7, ebits: 4, ieee: false, dt: DType::F8E4M3 }, F { name: "f8e5m2", w: 1, m: 2, bias: 15, ebits: 5, ieee: true, dt: DType::F8E5M2 },
    F { name: "f16", w: 2, m: 10, bias: 15, ebits: 5, ieee: true, dt: DType::F16 }, F { name: "bf16", w: 2, m: 7, bias: 127, ebits: 8, ieee: true, dt: DType::BF16 }] }
impl F {
    /// the value the format assigns to a bit pattern
    pub fn value(&self, p: u32) -> f64 {
        let (s, e, m) = (p >> (self.m + self.ebits) & 1, (p >> self.m) & ((1 << self.ebits) - 1), p & ((1 << self.m) - 1));
        let top = (1 << self.ebits) - 1; let one = (1u32 << self.m) as f64;
        let v = if e == top && self.ieee { if m == 0 { f64::INFINITY } else { f64::NAN } } else if !self.ieee && e == top && m == (1 << self.m) - 1 { f64::NAN }
            else if e == 0 { m as f64 / one * 2f64.powi(1 - self.bias) } else { (1.0 + m as f64 / one) * 2f64.powi(e as i32 - self.bias) };
        if s == 1 { -v } else { v }
    }
    pub fn count(&self) -> u32 { 1 << (8 * self.w) }
    /// the non-negative finite values, ascending (patterns are ordered like values)
    pub fn ladder(&self) -> Vec<f64> { (0..self.count() / 2).map(|p| self.value(p)).take_while(|v| v.is_finite()).collect() }
    fn bytes(&self, p: u32) -> Vec<u8> { p.to_le_bytes()[..self.w].to_vec() }
    fn scalar(&self, p: u32) -> Scalar { match self.name { "f8e4m3" => Scalar::F8E4M3(float8::F8E4M3::from_bits(p as u8)), "f8e5m2" => Scalar::F8E5M2(float8::F8E5M2::from_bits(p as u8)), "f16" => Scalar::F16(half::f16::from_bits(p as u16)), _ => Scalar::BF16(half::bf16::from_bits(p as u16)) } }
    fn tensor(&self, ps: &[u32]) -> Tensor { match self.name {
        "f8e4m3" => Tensor::from_slice(ps.iter().map(|&p| float8::F8E4M3::from_bits(p as u8)).collect::<Vec<_>>(), [ps.len()]), "f8e5m2" => Tensor::from_slice(ps.iter().map(|&p| float8::F8E5M2::from_bits(p as u8)).collect::<Vec<_>>(), [ps.len()]),
        "f16" => Tensor::from_slice(ps.iter().map(|&p| half::f16::from_bits(p as u16)).collect::<Vec<_>>(), [ps.len()]), _ => Tensor::from_slice(ps.iter().map(|&p| half::bf16::from_bits(p as u16)).collect::<Vec<_>>(), [ps.len()]) }.unwrap() }
}
fn bits(s: &Scalar) -> Option<u32> { Some(match s { Scalar::F8E4M3(x) => x.to_bits() as u32, Scalar::F8E5M2(x) => x.to_bits() as u32, Scalar::F16(x) => x.to_bits() as u32, Scalar::BF16(x) => x.to_bits() as u32, _ => return None }) }
fn tbits(t: &Tensor) -> Option<Vec<u32>> { Some(match t.dtype() { DType::F8E4M3 => t.to_flatten_vec::<float8::F8E4M3>().ok()?.iter().map(|x| x.to_bits() as u32).collect(), DType::F8E5M2 => t.to_flatten_vec::<float8::F8E5M2>().ok()?.iter().map(|x| x.to_bits() as u32).collect(), DType::F16 => t.to_flatten_vec::<half::f16>().ok()?.iter().map(|x| x.to_bits() as u32).collect(), DType::BF16 => t.to_flatten_vec::<half::bf16>().ok()?.iter().map(|x| x.to_bits() as u32).collect(), _ => return None }) }
fn cast(from: &str, to: &str, x: &[u8]) -> Vec<u8> {
    let n = x.len() / size_of(from); let mut o = vec![0u64; n.max(1)];
    // through aligned storage
    let mut a = vec![0u64; n.max(1)]; unsafe { std::ptr::copy_nonoverlapping(x.as_ptr(), a.as_mut_ptr() as *mut u8, x.len()); }
    k::call_ops_cast(k::CastKernel(leak(format!("hodu_cpu_cast_{}_to_{}", from, to))), a.as_ptr() as _, o.as_mut_ptr() as _, &[n, 1, n, 1, 0]).unwrap();
    unsafe { std::slice::from_raw_parts(o.as_ptr() as *const u8, n * size_of(to)).to_vec() }
}
fn pat(f: &F, b: &[u8], i: usize) -> u32 { let mut w = [0u8; 4]; w[..f.w].copy_from_slice(el(b, i, f.w)); u32::from_le_bytes(w) }
fn eqv(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() }

/// widening and re-narrowing of a run of patterns, in the kernels, the scalars and the tensors
fn widen(cx: &mut Cx, f: &F, lo: u32, n: u32) {
    let ps: Vec<u32> = (lo..lo + n).collect();
    let src: Vec<u8> = ps.iter().flat_map(|&p| f.bytes(p)).collect();
    for to in ["f32", "f64"] {
        cx.case(leak(format!("hodu_cpu_cast_{}_to_{}", f.name, to)), format!("patterns {:#x}..{:#x}", lo, lo + n), || {
            let w = cast(f.name, to, &src);
            for (i, &p) in ps.iter().enumerate() { let g = to_f64(to, el(&w, i, size_of(to))); if !eqv(g, f.value(p)) { return Err(format!("pattern {:#x} widens to {:e}, its value is {:e}", p, g, f.value(p))); } }
            let b = cast(to, f.name, &w);
            for (i, &p) in ps.iter().enumerate() { let g = pat(f, &b, i); if !(g == p || f.value(p).is_nan() && f.value(g).is_nan()) { return Err(format!("pattern {:#x} = {:e} comes back as {:#x} = {:e}", p, f.value(p), g, f.value(g))); } }
            Ok(())
        });
    }
    for &p in &ps { if f.w == 1 || p % 5 == 0 {
        cx.case(leak(format!("Scalar conversions of {}", f.name)), format!("{:#x}", p), || {
            let s = f.scalar(p); let v = f.value(p);
            ensure(eqv(s.to_f32() as f64, v) && eqv(s.to_f64(), v), || format!("the scalar with pattern {:#x} widens to {:e} / {:e}, its value is {:e}", p, s.to_f32(), s.to_f64(), v))?;
            for b in [Scalar::from_f32(s.to_f32(), f.dt), s.to_dtype(DType::F32).to_dtype(f.dt), s.to_dtype(DType::F64).to_dtype(f.dt)] {
                let g = bits(&b).ok_or("the scalar changed its type")?;
                ensure(g == p || v.is_nan() && f.value(g).is_nan(), || format!("pattern {:#x} = {:e} comes back as {:#x} = {:e}", p, v, g, f.value(g)))?;
            }
            Ok(())
        });
    } }
    for to in [DType::F32, DType::F64] {
        cx.case(leak(format!("Tensor::to_dtype {}", f.name)), format!("patterns {:#x}..{:#x} {:?}", lo, lo + n, to), || {
            let t = f.tensor(&ps); let u = t.to_dtype(to).map_err(er)?;
            let v: Vec<f64> = if to == DType::F32 { u.to_flatten_vec::<f32>().map_err(er)?.iter().map(|&x| x as f64).collect() } else { u.to_flatten_vec::<f64>().map_err(er)? };
            for (i, &p) in ps.iter().enumerate() { if !eqv(v[i], f.value(p)) { return Err(format!("pattern {:#x} becomes {:e}, its value is {:e}", p, v[i], f.value(p))); } }
            let b = tbits(&u.to_dtype(f.dt).map_err(er)?).ok_or("wrong type")?;
            for (i, &p) in ps.iter().enumerate() { if !(b[i] == p || f.value(p).is_nan() && f.value(b[i]).is_nan()) { return Err(format!("pattern {:#x} comes back as {:#x}", p, b[i])); } }
            Ok(())
        });
    }
}
fn er(e: hodu_core::error::HoduError) -> String { format!("refused: {}", e) }
/// narrowing of ascending floats: a neighbour, the right sign, in order, no overflow within the finite range
fn narrow(cx: &mut Cx, f: &F, xs: &[f32]) {
    let ladder = f.ladder(); let max = *ladder.last().unwrap(); let step = ladder[ladder.len() - 1] - ladder[ladder.len() - 2];
    let ok = move |x: f32, p: u32| -> Result<(), String> {
        let v = f.value(p); let neg = p >> (8 * f.w - 1) == 1; let m = (x as f64).abs();
        if x.is_nan() { return ensure(v.is_nan(), || format!("NaN narrows to {:#x} = {:e}", p, v)); }
        if neg != x.is_sign_negative() { return Err(format!("{:e} narrows to {:#x} = {:e}, on the other side of zero", x, p, v)); }
        if m > max { return ensure(!v.is_finite() || v.abs() == max, || format!("{:e} narrows to {:e}", x, v)).and_then(|_| ensure(!(m >= max + step) || !v.is_finite(), || format!("{:e} is beyond the overflow threshold but narrows to {:e}", x, v))); }
        if !v.is_finite() { return Err(format!("{:e} is within the largest finite value {:e} but narrows to {:#x}", x, max, p)); }
        let i = ladder.partition_point(|&l| l <= m) - 1;
        ensure(v.abs() == ladder[i] || m > ladder[i] && i + 1 < ladder.len() && v.abs() == ladder[i + 1], || format!("{:e} ({:#x}) narrows to {:#x} = {:e}, its neighbours are {:e} and {:e}", x, x.to_bits(), p, v, ladder[i], ladder.get(i + 1).unwrap_or(&f64::INFINITY)))
    };
    let src: Vec<u8> = xs.iter().flat_map(|x| x.to_ne_bytes()).collect();
    let label = format!("{} floats {:e}..{:e}", xs.len(), xs[0], xs[xs.len() - 1]);
    let got: Vec<u32> = { let b = cast("f32", f.name, &src); (0..xs.len()).map(|i| pat(f, &b, i)).collect() };
    cx.case(leak(format!("hodu_cpu_cast_f32_to_{}", f.name)), &label, || {
        let mut last: Option<(f32, f64)> = None;
        for (&x, &p) in xs.iter().zip(&got) {
            ok(x, p)?;
            if x.is_nan() { continue; }
            let v = f.value(p); let v = if v.is_nan() { if x > 0.0 { f64::INFINITY } else { f64::NEG_INFINITY } } else { v };
            if let Some((y, w)) = last { if y <= x && w > v { return Err(format!("order lost: {:e} narrows to {:e} but {:e} to {:e}", y, w, x, v)); } }
            last = Some((x, v));
        }
        Ok(())
    });
    cx.case(leak(format!("Scalar::from_f32 {}", f.name)), &label, || {
        for (&x, &p) in xs.iter().zip(&got) {
            let g = bits(&Scalar::from_f32(x, f.dt)).ok_or("the scalar has another type")?; ok(x, g)?;
            ensure(g == p || f.value(g).is_nan() && f.value(p).is_nan(), || format!("{:e} ({:#x}) is {:#x} = {:e} as a scalar but {:#x} = {:e} in a kernel", x, x.to_bits(), g, f.value(g), p, f.value(p)))?;
            let h = bits(&Scalar::F32(x).to_dtype(f.dt)).ok_or("to_dtype gave another type")?; ensure(h == g || f.value(h).is_nan() && f.value(g).is_nan(), || format!("to_dtype gives {:#x}, from_f32 {:#x}", h, g))?;
        }
        Ok(())
    });
    let wide: Vec<u8> = xs.iter().flat_map(|x| (*x as f64).to_ne_bytes()).collect();
    cx.case(leak(format!("hodu_cpu_cast_f64_to_{}", f.name)), &label, || {
        let b = cast("f64", f.name, &wide);
        for (i, (&x, &p)) in xs.iter().zip(&got).enumerate() {
            let g = pat(f, &b, i);
            ensure(g == p || f.value(g).is_nan() && f.value(p).is_nan(), || format!("{:e} narrows to {:#x} from f32 but {:#x} from f64", x, p, g))?;
            let s = bits(&Scalar::F64(x as f64).to_dtype(f.dt)).ok_or("to_dtype gave another type")?; ensure(s == p || f.value(s).is_nan() && f.value(p).is_nan(), || format!("{:e} is {:#x} as an f64 scalar, {:#x} in a kernel", x, s, p))?;
        }
        Ok(())
    });
}
pub fn run(cx: &mut Cx) {
    let fs = formats();
    for f in &fs { for lo in (0..f.count()).step_by(256) { widen(cx, f, lo, 256); } }
    // every representable value, every midpoint, and their float neighbours
    for f in &fs {
        let l = f.ladder(); let mut xs: Vec<f32> = vec![0.0, f32::MAX, f32::INFINITY, f32::MIN_POSITIVE, f32::from_bits(1)];
        let near = |xs: &mut Vec<f32>, v: f64| { let x = v as f32; let b = x.to_bits(); for d in -2i32..=2 { let y = f32::from_bits(b.wrapping_add(d as u32)); if y.is_finite() && y >= 0.0 { xs.push(y); } } };
        for (i, &v) in l.iter().enumerate() { if f.w == 2 && i % 3 != (cx.rng.below(3)) && i > 40 && i + 40 < l.len() { continue; } near(&mut xs, v); if i + 1 < l.len() { near(&mut xs, (v + l[i + 1]) / 2.0); } }
        let m = *l.last().unwrap(); let s = m - l[l.len() - 2]; for k in 1..9 { near(&mut xs, m + s * k as f64 / 4.0); }
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for c in xs.chunks(2000) { narrow(cx, f, c); let mut n: Vec<f32> = c.iter().map(|x| -x).collect(); n.reverse(); narrow(cx, f, &n); }
        narrow(cx, f, &[f32::NAN, f32::from_bits(0x7f800001), f32::from_bits(0xffc00000), f32::from_bits(0x7fffffff)]);
    }
    while cx.more() { for f in &fs {
        let c = cx.rng.below(3);
        let e0 = cx.rng.below(256) as u32;
        let mut xs: Vec<f32> = (0..2000).map(|_| f32::from_bits(match c { 0 => cx.rng.next() as u32, 1 => (e0 << 23) | (cx.rng.next() as u32 & 0x7fffff), _ => ((127u32.saturating_sub(f.bias as u32 + f.m + 2) + cx.rng.below(8) as u32) << 23) | (cx.rng.next() as u32 & 0x7fffff) })).filter(|x| !x.is_nan()).collect();
        if xs.is_empty() { continue; }
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        narrow(cx, f, &xs);
    } }
}
