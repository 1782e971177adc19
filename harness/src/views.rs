//! Tensors with given logical elements and unusual layouts, and the law that layouts do not matter.
use crate::{cx::*, util::*};
use hodu_core::prelude::*;

pub trait Elem: Copy + std::fmt::Debug + PartialEq + 'static { const DT: DType; fn of(x: i64) -> Self; fn mk(v: Vec<Self>, d: &[usize]) -> Tensor { Self::try_mk(v, d).unwrap() } fn try_mk(v: Vec<Self>, d: &[usize]) -> HoduResult<Tensor>; fn get(t: &Tensor) -> Result<Vec<Self>, String>; fn f(self) -> f64; fn from_f(x: f64) -> Self { Self::of(x as i64) } }
macro_rules! elem { ($($t:ty, $d:ident, |$x:ident| $e:expr, |$y:ident| $f:expr $(, $g:expr)?);* $(;)?) => { $(impl Elem for $t {
    $(fn from_f(x: f64) -> Self { $g(x) })?
    const DT: DType = DType::$d;
    fn of($x: i64) -> Self { $e }
    fn f(self) -> f64 { let $y = self; $f }
    fn try_mk(v: Vec<Self>, d: &[usize]) -> HoduResult<Tensor> { Tensor::from_slice(v, d) }
    fn get(t: &Tensor) -> Result<Vec<Self>, String> { if t.dtype() != DType::$d { return Err(format!("element type {:?}, expected {:?}", t.dtype(), DType::$d)); } t.to_flatten_vec::<$t>().map_err(|e| e.to_string()) }
})* } }
elem! { f32, F32, |x| x as f32, |y| y as f64, |x| x as f32; f64, F64, |x| x as f64, |y| y, |x| x; i8, I8, |x| x as i8, |y| y as f64; i16, I16, |x| x as i16, |y| y as f64; i32, I32, |x| x as i32, |y| y as f64; i64, I64, |x| x, |y| y as f64;
 u8, U8, |x| x as u8, |y| y as f64; u16, U16, |x| x as u16, |y| y as f64; u32, U32, |x| x as u32, |y| y as f64; u64, U64, |x| x as u64, |y| y as f64; bool, BOOL, |x| x & 1 == 1, |y| y as u8 as f64;
 half::f16, F16, |x| half::f16::from_f32(x as f32), |y| y.to_f32() as f64; half::bf16, BF16, |x| half::bf16::from_f32(x as f32), |y| y.to_f32() as f64;
 float8::F8E4M3, F8E4M3, |x| float8::F8E4M3::from_f32(x as f32), |y| y.to_f32() as f64; float8::F8E5M2, F8E5M2, |x| float8::F8E5M2::from_f32(x as f32), |y| y.to_f32() as f64 }

pub fn numel(d: &[usize]) -> usize { d.iter().product() }
/// a tensor with logical elements `vals` of extents `dims`, in a layout chosen by `how`
pub fn make<T: Elem>(cx: &mut Cx, dims: &[usize], vals: &[T], how: usize) -> (Tensor, String) {
    let n = numel(dims);
    assert_eq!(n, vals.len());
    let r = dims.len();
    let junk = |k: usize| vec![T::of(77); k];
    match how {
        1 if r >= 1 && n > 0 => { let row = numel(&dims[1..]); let k = 1 + cx.rng.below(3); let mut v = junk(k * row); v.extend(vals); v.extend(junk(row)); let mut s = dims.to_vec(); s[0] += k + 1; (T::mk(v, &s).slice(0, k as i32, Some((k + dims[0]) as i32), 1).unwrap(), format!("offset by {} rows", k)) },
        2 if r >= 2 => { // storage order is a permutation of the axes
            let mut p: Vec<usize> = (0..r).collect(); cx.rng.shuffle(&mut p);
            // stored extents s[j] = dims[p[j]]; permuting stored by q with q[p[j]] = j gives dims
            let s: Vec<usize> = p.iter().map(|&i| dims[i]).collect();
            let mut q = vec![0i32; r]; for (j, &i) in p.iter().enumerate() { q[i] = j as i32; }
            let st = row_major(&s); let mut v = junk(n);
            for (i, c) in coords(dims).iter().enumerate() { let d: Vec<usize> = p.iter().map(|&x| c[x]).collect(); v[addr(&d, &st, 0)] = vals[i]; }
            (T::mk(v, &s).permute(&q).unwrap(), format!("permuted {:?}", q)) },
        3 if r >= 1 && n > 0 => { // every second (or third) along one axis, starting off 0
            let a = cx.rng.below(r); let k = 2 + cx.rng.below(2); let s0 = cx.rng.below(2);
            let mut s = dims.to_vec(); s[a] = s0 + (dims[a] - 1) * k + 1 + cx.rng.below(2);
            let st = row_major(&s); let mut v = junk(numel(&s));
            for (i, c) in coords(dims).iter().enumerate() { let mut d = c.clone(); d[a] = s0 + c[a] * k; v[addr(&d, &st, 0)] = vals[i]; }
            (T::mk(v, &s).slice(a as i32, s0 as i32, None, k as i32).unwrap(), format!("step {} from {} on axis {}", k, s0, a)) },
        4 if r == 0 => { let mut v = junk(3); v.push(vals[0]); (T::mk(v, &[4]).slice(0, 3, None, 1).unwrap().squeeze(&[0]).unwrap(), "rank-0 at offset 3".into()) },
        _ => (T::mk(vals.to_vec(), dims), "row-major".into()),
    }
}
pub fn any_view<T: Elem>(cx: &mut Cx, dims: &[usize], vals: &[T]) -> (Tensor, String) { let h = cx.rng.below(5); make(cx, dims, vals, h) }
pub fn rand_vals<T: Elem>(cx: &mut Cx, n: usize, lo: i64, hi: i64) -> Vec<T> { (0..n).map(|_| T::of(cx.rng.range(lo, hi))).collect() }
pub fn rand_dims(cx: &mut Cx, rank: usize, max: usize) -> Vec<usize> { (0..rank).map(|_| 1 + cx.rng.below(max)).collect() }
pub fn er<T>(r: HoduResult<T>) -> Result<T, String> { r.map_err(|e| e.to_string()) }

/// op(view) must equal op(row-major tensor with the same logical elements)
pub fn same_under_views<T: Elem>(cx: &mut Cx, contract: &str, what: String, ins: &[(Vec<usize>, Vec<T>)], op: impl Fn(&[Tensor]) -> HoduResult<Vec<Tensor>>) {
    let plain: Vec<Tensor> = ins.iter().map(|(d, v)| T::mk(v.clone(), d)).collect();
    let mut vs = vec![]; let mut how = vec![];
    for (d, v) in ins { let (t, h) = any_view(cx, d, v); vs.push(t); how.push(h); }
    let dims: Vec<Vec<usize>> = ins.iter().map(|x| x.0.clone()).collect();
    cx.case(contract, (what, T::DT, dims, how, &ins[0].1), || {
        match (op(&plain), op(&vs)) {
            (Err(_), Err(_)) => Ok(()),
            (Ok(a), Ok(b)) => {
                for (x, y) in a.iter().zip(&b) {
                    eq("extents", y.shape().dims().to_vec(), x.shape().dims().to_vec())?;
                    eq("element type", y.dtype(), x.dtype())?;
                    let (u, v) = (er(x.to_dtype(DType::F64))?.to_flatten_vec::<f64>().unwrap(), er(y.to_dtype(DType::F64))?.to_flatten_vec::<f64>().unwrap());
                    for i in 0..u.len() { ensure(close(u[i], v[i]), || format!("element {}: row-major operands give {}, views with the same elements give {} ({:?} vs {:?})", i, u[i], v[i], u, v))?; }
                }
                Ok(())
            },
            (Ok(_), Err(e)) => Err(format!("views refused: {}", e)),
            (Err(e), Ok(_)) => Err(format!("row-major refused: {}", e)),
        }
    });
}
pub fn close(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-4 * (1.0 + a.abs().max(b.abs())) }
