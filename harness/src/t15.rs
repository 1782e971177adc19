//! Reading a tensor back gives its logical elements.
use crate::{cx::*, util::*, views::*};
use hodu_core::prelude::*;
pub fn raw<T: Copy>(v: &[T]) -> Vec<u8> { unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }.to_vec() }
/// random element patterns (0/1 for truth values)
pub fn bits(cx: &mut Cx, dt: DType, n: usize) -> Vec<u8> { (0..n * dt.size_in_bytes()).map(|_| { let b = cx.rng.next() as u8; if dt == DType::BOOL { b & 1 } else { b } }).collect() }
/// a chain of views over known storage, and the logical elements it denotes
pub fn chain<T: Elem>(cx: &mut Cx) -> (Tensor, Vec<usize>, Vec<u8>, String) {
    let w = T::DT.size_in_bytes();
    let r = cx.rng.below(5);
    let mut d: Vec<usize> = (0..r).map(|_| 1 + cx.rng.below(4)).collect();
    if cx.rng.below(12) == 0 && r > 0 { let i = cx.rng.below(r); d[i] = 0; }
    let n0 = numel(&d);
    let mut v = bits(cx, T::DT, n0);
    let mut t = Tensor::from_bytes(&v, d.clone(), T::DT, Device::CPU).unwrap();
    let mut h = format!("{:?} {:?}", T::DT, d);
    for _ in 0..cx.rng.below(5) {
        let n = d.len();
        let (name, res, e, m): (String, HoduResult<Tensor>, Vec<usize>, Vec<Vec<usize>>) = match cx.rng.below(7) {
            0 if n >= 2 => { let (i, j) = (cx.rng.below(n), cx.rng.below(n)); let mut e = d.clone(); e.swap(i, j); let m = coords(&e).into_iter().map(|mut c| { c.swap(i, j); c }).collect(); (format!("transpose {} {}", i, j), t.transpose(i as i32, j as i32), e, m) },
            1 => { let mut p: Vec<usize> = (0..n).collect(); cx.rng.shuffle(&mut p); let e: Vec<usize> = p.iter().map(|&i| d[i]).collect(); let ax: Vec<i32> = p.iter().map(|&x| x as i32).collect(); let m = coords(&e).into_iter().map(|c| { let mut o = vec![0; n]; for (i, &q) in p.iter().enumerate() { o[q] = c[i]; } o }).collect(); (format!("permute {:?}", p), t.permute(&ax), e, m) },
            2 | 3 if n >= 1 && numel(&d) > 0 => { let i = cx.rng.below(n); let s = cx.rng.below(d[i]); let en = s + 1 + cx.rng.below(d[i] - s); let st = 1 + cx.rng.below(3); let ix: Vec<usize> = (s..en).step_by(st).collect(); let mut e = d.clone(); e[i] = ix.len(); let m = coords(&e).into_iter().map(|mut c| { c[i] = ix[c[i]]; c }).collect(); (format!("slice {} {}..{} by {}", i, s, en, st), t.slice(i as i32, s as i32, Some(en as i32), st as i32), e, m) },
            4 => { let i = cx.rng.below(n + 1); let mut e = d.clone(); e.insert(i, 1); let m = coords(&e).into_iter().map(|mut c| { c.remove(i); c }).collect(); (format!("unsqueeze {}", i), t.unsqueeze(i as i32), e, m) },
            5 if numel(&d) <= 64 && n < 7 => { let mut e = d.clone(); for x in e.iter_mut() { if *x == 1 && cx.rng.flip() { *x = 1 + cx.rng.below(3); } } if cx.rng.flip() { e.insert(0, 1 + cx.rng.below(2)); } let k = e.len() - n; let dd = d.clone(); let m = coords(&e).into_iter().map(|c| c[k..].iter().zip(&dd).map(|(&x, &y)| if y == 1 { 0 } else { x }).collect()).collect(); (format!("broadcast {:?}", e), t.broadcast(e.clone()), e, m) },
            6 => { let tot = numel(&d); let e = if tot % 2 == 0 { vec![2, tot / 2] } else { vec![tot] }; (format!("reshape {:?}", e), t.reshape(e.clone()), e, coords(&d)) },
            _ => continue,
        };
        match res { Ok(x) => { h = format!("{}; {}", h, name); let st = row_major(&d); v = m.iter().flat_map(|c| { let a = addr(c, &st, 0); v[a * w..(a + 1) * w].to_vec() }).collect(); t = x; d = e; }, Err(_) => continue }
    }
    (t, d, v, h)
}
fn one<T: Elem>(cx: &mut Cx) {
    let (t, d, v, h) = chain::<T>(cx);
    let n = numel(&d);
    cx.case("Tensor::shape and element type", &h, || { eq("extents", t.shape().dims().to_vec(), d.clone())?; eq("element type", t.dtype(), T::DT)?; eq("size", t.size(), n)?; eq("rank", t.ndim(), d.len()) });
    cx.case("Tensor::to_flatten_vec", &h, || { let g = er(t.to_flatten_vec::<T>())?; eq("element count", g.len(), n)?; eq("element bits", raw(&g), v.clone()) });
    cx.case("Tensor::to_bytes", &h, || eq("bytes", er(t.to_bytes())?, v.clone()));
    cx.case("Tensor::contiguous", &h, || { let c = er(t.contiguous())?; eq("extents", c.shape().dims().to_vec(), d.clone())?; eq("bytes", er(c.to_bytes())?, v.clone()) });
    cx.case("Tensor::from_bytes of to_bytes", &h, || { let c = er(Tensor::from_bytes(&er(t.to_bytes())?, d.clone(), T::DT, Device::CPU))?; eq("bytes", er(c.to_bytes())?, v.clone())?; eq("element bits", raw(&er(c.to_flatten_vec::<T>())?), v.clone()) });
    // nested vectors, by every rank
    macro_rules! nest { ($f:ident, $k:expr, $x:ident, $flat:expr, $dims:expr) => { cx.case(concat!("Tensor::", stringify!($f)), &h, || match t.$f::<T>() {
        Ok($x) => { ensure(d.len() == $k, || format!("rank {} read as rank {}", d.len(), $k))?; let fl: Vec<T> = $flat; eq("element bits", raw(&fl), v.clone())?; if n > 0 { let di: Vec<usize> = $dims; eq("nesting", di, d.clone()) } else { Ok(()) } },
        Err(e) => ensure(d.len() != $k, || format!("refused: {}", e)),
    }) } }
    nest!(to_vec1d, 1, x, x.clone(), vec![x.len()]);
    nest!(to_vec2d, 2, x, x.concat(), vec![x.len(), x[0].len()]);
    nest!(to_vec3d, 3, x, x.concat().concat(), vec![x.len(), x[0].len(), x[0][0].len()]);
    nest!(to_vec4d, 4, x, x.concat().concat().concat(), vec![x.len(), x[0].len(), x[0][0].len(), x[0][0][0].len()]);
    nest!(to_vec5d, 5, x, x.concat().concat().concat().concat(), vec![x.len(), x[0].len(), x[0][0].len(), x[0][0][0].len(), x[0][0][0][0].len()]);
    nest!(to_vec6d, 6, x, x.concat().concat().concat().concat().concat(), vec![x.len(), x[0].len(), x[0][0].len(), x[0][0][0].len(), x[0][0][0][0].len(), x[0][0][0][0][0].len()]);
    nest!(to_vec7d, 7, x, x.concat().concat().concat().concat().concat().concat(), vec![x.len(), x[0].len(), x[0][0].len(), x[0][0][0].len(), x[0][0][0][0].len(), x[0][0][0][0][0].len(), x[0][0][0][0][0][0].len()]);
    nest!(to_vec8d, 8, x, x.concat().concat().concat().concat().concat().concat().concat(), vec![x.len(), x[0].len(), x[0][0].len(), x[0][0][0].len(), x[0][0][0][0].len(), x[0][0][0][0][0].len(), x[0][0][0][0][0][0].len(), x[0][0][0][0][0][0][0].len()]);
    // constructors of the wrong size are refused
    let k = cx.rng.below(n + 3);
    cx.case("Tensor::from_slice size check", (&h, k), || { let x = vec![T::of(1); k]; match T::try_mk(x, &d) { Ok(_) => ensure(k == n, || format!("{} elements accepted for {:?}", k, d)), Err(e) => ensure(k != n, || format!("refused: {}", e)) } });
    let kb = cx.rng.below(v.len() + 3);
    cx.case("Tensor::from_bytes size check", (&h, kb), || { let x = vec![1u8; kb]; match Tensor::from_bytes(&x, d.clone(), T::DT, Device::CPU) { Ok(_) => ensure(kb == v.len(), || format!("{} bytes accepted for {:?}", kb, d)), Err(e) => ensure(kb != v.len(), || format!("refused: {}", e)) } });
    // reading as another element type converts the logical elements
    let small: Vec<T> = rand_vals(cx, n, 0, 7);
    let (s, hs) = any_view(cx, &d, &small);
    cx.case("Tensor::to_flatten_vec as another element type", (&h, hs), || { let g = er(s.to_flatten_vec::<f64>())?; eq("elements", g, small.iter().map(|x| x.f()).collect::<Vec<f64>>())?; let g = er(s.to_flatten_vec::<i32>())?; eq("elements", g, small.iter().map(|x| x.f() as i32).collect::<Vec<i32>>())?; let g = er(s.to_flatten_vec::<bool>())?; eq("elements", g, small.iter().map(|x| x.f() != 0.0).collect::<Vec<bool>>()) });
}
pub fn run(cx: &mut Cx) {
    for huge in [vec![1usize << 63, 2], vec![usize::MAX, usize::MAX], vec![1 << 62, 4], vec![1 << 32, 1 << 32], vec![1 << 61]] {
        cx.case("Tensor::from_bytes of an unaddressable shape", &huge, || ensure(Tensor::from_bytes(&[], huge.clone(), DType::F64, Device::CPU).is_err(), || "accepted".into()));
        cx.case("Tensor::from_slice of an unaddressable shape", &huge, || ensure(Tensor::from_slice(Vec::<f32>::new(), huge.clone()).is_err(), || "accepted".into()));
    }
    while cx.more() { one::<f32>(cx); one::<f64>(cx); one::<i8>(cx); one::<i16>(cx); one::<i32>(cx); one::<i64>(cx); one::<u8>(cx); one::<u16>(cx); one::<u32>(cx); one::<u64>(cx); one::<bool>(cx); one::<half::f16>(cx); one::<half::bf16>(cx); one::<float8::F8E4M3>(cx); one::<float8::F8E5M2>(cx); }
}
