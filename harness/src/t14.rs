//! Scans, sorting and selection keep order, multiplicity and positions.
use crate::{cx::*, util::*, kern::*, views::*};
use hodu_core::prelude::*;
use hodu_cpu_kernels as k;
use std::cmp::Ordering;
fn name(op: &str, dt: &str) -> &'static str { leak(format!("hodu_cpu_{}_{}", op, dt)) }
fn cmp(dt: &str, a: &[u8], b: &[u8]) -> Ordering { if is_float(dt) { to_f64(dt, a).partial_cmp(&to_f64(dt, b)).unwrap() } else { to_i128(dt, a).cmp(&to_i128(dt, b)) } }
fn nan(dt: &str, a: &[u8]) -> bool { is_float(dt) && to_f64(dt, a).is_nan() }
/// values with many ties, or arbitrary patterns (no NaN: they have no place in the order), or values that differ only in their low bits
fn vals(cx: &mut Cx, dt: &str, n: usize) -> Vec<u8> {
    let h = cx.rng.below(3); let base = cx.rng.next();
    let mut v = vec![];
    while v.len() < n * size_of(dt) {
        let e = match h { 0 => { let x = cx.rng.range(if dt.starts_with('u') || dt == "bool" { 0 } else { -3 }, if dt == "bool" { 1 } else { 3 }); of(dt, x) },
            1 if dt != "bool" => cx.rng.next().to_le_bytes()[..size_of(dt)].to_vec(),
            _ if dt != "bool" => (base ^ (cx.rng.next() & 3)).to_le_bytes()[..size_of(dt)].to_vec(), _ => of(dt, cx.rng.below(2) as i64) };
        if nan(dt, &e) { if h == 2 { v.extend(of(dt, cx.rng.range(0, 1))); } continue; }
        v.extend(e);
    }
    v
}
fn i32s(b: &[u8]) -> Vec<i32> { b.chunks(4).map(|c| i32::from_ne_bytes(c.try_into().unwrap())).collect() }

fn cumsum(cx: &mut Cx, dt: &'static str) {
    if dt == "bool" { return; }
    let r = 1 + cx.rng.below(4); let d = dims0(cx, r, 5); let l = lay(cx, &d); let ax = cx.rng.below(r); let w = size_of(dt);
    let x: Vec<u8> = if is_float(dt) { let m = if w == 1 { 1 } else { 6 }; (0..l.extent()).flat_map(|_| of(dt, cx.rng.range(-m, m))).collect() } else { fill(cx, dt, l.extent()) };
    let mut meta = l.meta(); meta.push(ax); let n = l.n(); let low = cx.rng.flip();
    cx.case(name("cumsum", dt), (&l, "axis", ax, &x[..x.len().min(64)]), || {
        let got = guarded(&[&x], &[n * w], low, |i, o| k::call_ops_cumsum(k::Kernel(name("cumsum", dt)), i[0], o[0], &meta).unwrap())?.remove(0);
        let cs = coords(&d);
        for (i, c) in cs.iter().enumerate() {
            let take: Vec<&[u8]> = (0..=c[ax]).map(|s| { let mut q = c.clone(); q[ax] = s; el(&x, l.at(&q), w) }).collect();
            let g = el(&got, i, w);
            if is_float(dt) {
                let s: f64 = take.iter().map(|t| to_f64(dt, t)).sum(); let m: f64 = take.iter().map(|t| to_f64(dt, t).abs()).sum(); let gv = to_f64(dt, g);
                ensure((gv - s).abs() <= eps(dt) * m, || format!("at {:?}: {} instead of the sum {} of the elements up to it", c, gv, s))?;
            } else { let s: i128 = take.iter().map(|t| to_i128(dt, t)).sum(); ensure((to_i128(dt, g) - s) % (1i128 << (8 * w)) == 0, || format!("at {:?}: {} instead of {}", c, to_i128(dt, g), s))?; }
        }
        Ok(())
    });
}
fn eps(dt: &str) -> f64 { match dt { "f64" | "f32" => 1e-6, "f16" => 1e-3, "bf16" => 8e-3, "f8e4m3" => 0.07, _ => 0.13 } }

/// values/positions of one row: the k extreme elements, each position once, sorted when asked
fn top(dt: &str, row: &[u8], v: &[u8], ix: &[i32], largest: bool, sorted: bool) -> Result<(), String> {
    let w = size_of(dt); let n = row.len() / w; let kk = ix.len();
    let mut seen = vec![false; n];
    for (j, &p) in ix.iter().enumerate() {
        if p < 0 || p as usize >= n || seen[p as usize] { return Err(format!("position {} ({} in the row's answer {:?}) is outside the row or repeated", p, j, ix)); }
        seen[p as usize] = true;
        if el(v, j, w) != el(row, p as usize, w) { return Err(format!("value {} is {:?}, the element at its position {} is {:?}", j, el(v, j, w), p, el(row, p as usize, w))); }
    }
    let better = |a: &[u8], b: &[u8]| if largest { cmp(dt, a, b) } else { cmp(dt, b, a) };
    for i in 0..n { if !seen[i] { for j in 0..kk { if better(el(row, i, w), el(v, j, w)) == Ordering::Greater { return Err(format!("element {} ({:?}) was left out for {:?}, row {:?}", i, el(row, i, w), el(v, j, w), row)); } } } }
    if sorted { for j in 1..kk { if better(el(v, j, w), el(v, j - 1, w)) == Ordering::Greater { return Err(format!("not sorted: {:?} after {:?}", el(v, j, w), el(v, j - 1, w))); } } }
    Ok(())
}
fn topk(cx: &mut Cx, dt: &'static str) {
    if dt == "bool" { return; }
    let big = if cx.rng.below(5) == 0 { 60 } else { 9 }; let (n, outer, w) = (1 + cx.rng.below(big), cx.rng.below(4), size_of(dt)); let kk = cx.rng.below(n + 1); let off = cx.rng.below(4);
    let (largest, sorted, low) = (cx.rng.flip(), cx.rng.flip(), cx.rng.flip());
    let x = vals(cx, dt, off + outer * n);
    cx.case(name("topk", dt), (n, outer, "k", kk, "offset", off, largest, sorted, &x[..x.len().min(128)]), || {
        let mut o = guarded(&[&x], &[outer * kk * w, outer * kk * 4], low, |i, o| k::call_topk(k::Kernel(name("topk", dt)), i[0], o[0], o[1], &[outer * kk, kk, n, outer, largest as usize, sorted as usize, off]).unwrap())?;
        let ix = i32s(&o.pop().unwrap()); let v = o.pop().unwrap();
        for r in 0..outer { top(dt, &x[(off + r * n) * w..(off + (r + 1) * n) * w], &v[r * kk * w..(r + 1) * kk * w], &ix[r * kk..(r + 1) * kk], largest, sorted)?; }
        Ok(())
    });
}
fn uniq(dt: &str, xs: &[Vec<u8>], v: &[u8], inv: &[i32], cnt: &[i32]) -> Result<(), String> {
    let w = size_of(dt); let m = v.len() / w;
    for j in 1..m { if cmp(dt, el(v, j - 1, w), el(v, j, w)) != Ordering::Less { return Err(format!("values not strictly ascending: {:?} then {:?}", el(v, j - 1, w), el(v, j, w))); } }
    let mut c = vec![0; m];
    for (i, x) in xs.iter().enumerate() { let p = inv[i]; if p < 0 || p as usize >= m || cmp(dt, x, el(v, p as usize, w)) != Ordering::Equal { return Err(format!("element {} = {:?} has inverse {}", i, x, p)); } c[p as usize] += 1; }
    eq("counts", cnt.to_vec(), c.clone())?;
    ensure(c.iter().all(|&x| x > 0), || "a value that does not occur".into())
}
fn unique(cx: &mut Cx, dt: &'static str) {
    let r = cx.rng.below(4); let d = dims0(cx, r, 5); let l = lay(cx, &d); let (n, w, low) = (l.n(), size_of(dt), cx.rng.flip());
    let x = vals(cx, dt, l.extent());
    cx.case(name("unique", dt), (&l, &x[..x.len().min(128)]), || {
        let mut m = 0;
        let o = guarded(&[&x], &[n * w, n * 4, n * 4], low, |i, o| m = k::call_unique(k::Kernel(name("unique", dt)), i[0], o[0], o[1] as _, o[2] as _, &l.meta()))?;
        ensure(m <= n, || format!("{} distinct values among {}", m, n))?;
        let xs: Vec<Vec<u8>> = coords(&d).iter().map(|c| el(&x, l.at(c), w).to_vec()).collect();
        uniq(dt, &xs, &o[0][..m * w], &i32s(&o[1]), &i32s(&o[2])[..m])
    });
}
fn nonzero(cx: &mut Cx, dt: &'static str) {
    let r = cx.rng.below(5); let d = dims0(cx, r, 4); let l = lay(cx, &d); let (w, low) = (size_of(dt), cx.rng.flip());
    let x = if cx.rng.flip() { fill(cx, dt, l.extent()) } else { (0..l.extent()).flat_map(|_| if cx.rng.flip() { vec![0u8; w] } else if cx.rng.flip() && is_float(dt) { of(dt, 0).iter().enumerate().map(|(i, b)| if i + 1 == w { b | 0x80 } else { *b }).collect() } else { of(dt, 1) }).collect() };
    let want: Vec<i32> = coords(&d).iter().filter(|c| { let e = el(&x, l.at(c), w); if is_float(dt) { to_f64(dt, e) != 0.0 } else { e.iter().any(|&b| b != 0) } }).flat_map(|c| c.iter().map(|&v| v as i32).collect::<Vec<_>>()).collect();
    let hits = coords(&d).iter().filter(|c| { let e = el(&x, l.at(c), w); if is_float(dt) { to_f64(dt, e) != 0.0 } else { e.iter().any(|&b| b != 0) } }).count();
    cx.case(name("nonzero_count", dt), (&l, &x[..x.len().min(64)]), || { let mut c = 0; guarded(&[&x], &[], low, |i, _| c = k::call_nonzero_count(k::Kernel(name("nonzero_count", dt)), i[0], &l.meta()))?; eq("count", c, hits) });
    cx.case(name("nonzero_fill", dt), (&l, &x[..x.len().min(64)]), || { let o = guarded(&[&x], &[want.len() * 4], low, |i, o| k::call_nonzero_fill(k::Kernel(name("nonzero_fill", dt)), i[0], o[0] as _, &l.meta()).unwrap())?; eq("coordinates", i32s(&o[0]), want.clone()) });
}
fn compress(cx: &mut Cx, dt: &'static str) {
    let r = cx.rng.below(4); let d = dims0(cx, r, 4); let l = lay(cx, &d); let (w, low) = (size_of(dt), cx.rng.flip());
    let x = fill(cx, dt, l.extent());
    let ax = if r > 0 && cx.rng.flip() { Some(cx.rng.below(r)) } else { None };
    let cn = ax.map(|a| d[a]).unwrap_or(l.n()); let cond: Vec<u8> = (0..cn).map(|_| cx.rng.flip() as u8).collect();
    let want: Vec<Vec<u8>> = coords(&d).iter().enumerate().filter(|(i, c)| cond[ax.map(|a| c[a]).unwrap_or(*i)] == 1).map(|(_, c)| el(&x, l.at(c), w).to_vec()).collect();
    let mut meta = l.meta(); meta.extend([cn, ax.is_some() as usize, ax.unwrap_or(0)]);
    cx.case(name("compress", dt), (&l, ax, &cond), || { let o = guarded(&[&x, &cond], &[want.len() * w], low, |i, o| k::call_compress(k::Kernel(name("compress", dt)), i[0], i[1] as _, o[0], &meta).unwrap())?; placed(w, &o[0], &want) });
}
fn bytes<T: Elem>(v: &[T]) -> Vec<u8> { unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)).to_vec() } }
fn dtn<T: Elem>() -> &'static str { leak(format!("{}", T::DT)) }
/// the same contracts on the tensor operations, through views
fn tensors<T: Elem>(cx: &mut Cx) {
    let r = 1 + cx.rng.below(3); let d = rand_dims(cx, r, 5); let n = numel(&d); let dt = dtn::<T>(); let w = size_of(dt);
    let xs: Vec<T> = rand_vals(cx, n, if dt.starts_with('u') || dt == "bool" { 0 } else { -3 }, 3);
    let (t, how) = any_view::<T>(cx, &d, &xs); let b = bytes(&xs); let cs = coords(&d); let st = row_major(&d);
    let ax = cx.rng.below(r); let axi = if cx.rng.flip() { ax as i32 } else { ax as i32 - r as i32 };
    if dt != "bool" {
        let (kk, largest, sorted) = (cx.rng.below(d[ax] + 1), cx.rng.flip(), cx.rng.flip());
        cx.case("Tensor::topk", (dt, &d, &how, &xs, axi, kk, largest, sorted), || {
            let (v, i) = er(t.topk(kk, axi, largest, sorted))?; let mut e = d.clone(); e[ax] = kk;
            eq("value extents", v.shape().dims().to_vec(), e.clone())?; eq("position extents", i.shape().dims().to_vec(), e.clone())?;
            let (vv, ii) = (bytes(&T::get(&v)?), er(i.to_flatten_vec::<i32>())?); let es = row_major(&e);
            for c in cs.iter().filter(|c| c[ax] == 0) {
                let at = |s: usize, st: &[usize]| { let mut q = c.clone(); q[ax] = s; addr(&q, st, 0) };
                let row: Vec<u8> = (0..d[ax]).flat_map(|s| el(&b, at(s, &st), w).to_vec()).collect();
                let gv: Vec<u8> = (0..kk).flat_map(|s| el(&vv, at(s, &es), w).to_vec()).collect(); let gi: Vec<i32> = (0..kk).map(|s| ii[at(s, &es)]).collect();
                top(dt, &row, &gv, &gi, largest, sorted)?;
            }
            Ok(())
        });
        cx.case("Tensor::cumsum", (dt, &d, &how, &xs, axi), || {
            let o = er(t.cumsum(axi))?; eq("extents", o.shape().dims().to_vec(), d.clone())?; let g = T::get(&o)?;
            for (i, c) in cs.iter().enumerate() { let s: f64 = (0..=c[ax]).map(|s| { let mut q = c.clone(); q[ax] = s; xs[addr(&q, &st, 0)].f() }).sum(); ensure((g[i].f() - s).abs() <= eps(dt) * s.abs().max(4.0), || format!("at {:?}: {:?} instead of {}", c, g[i], s))?; }
            Ok(())
        });
    }
    cx.case("Tensor::unique", (dt, &d, &how, &xs), || { let (v, i, c) = er(t.unique())?; let xv: Vec<Vec<u8>> = (0..n).map(|i| el(&b, i, w).to_vec()).collect(); uniq(dt, &xv, &bytes(&T::get(&v)?), &er(i.to_flatten_vec::<i32>())?, &er(c.to_flatten_vec::<i32>())?) });
    cx.case("Tensor::nonzero", (dt, &d, &how, &xs), || {
        let o = er(t.nonzero())?; let want: Vec<i32> = cs.iter().enumerate().filter(|(i, _)| xs[*i].f() != 0.0).flat_map(|(_, c)| c.iter().map(|&v| v as i32).collect::<Vec<_>>()).collect();
        eq("extents", o.shape().dims().to_vec(), vec![want.len() / r, r])?; eq("coordinates", er(o.to_flatten_vec::<i32>())?, want)
    });
    let axis = if cx.rng.flip() { Some(axi) } else { None }; let cn = if axis.is_some() { d[ax] } else { n };
    let cond: Vec<bool> = (0..cn).map(|_| cx.rng.flip()).collect(); let (ct, chow) = any_view::<bool>(cx, &[cn], &cond);
    cx.case("Tensor::compress", (dt, &d, &how, axis, &cond, &chow), || {
        let o = er(t.compress(&ct, axis))?;
        let want: Vec<T> = cs.iter().enumerate().filter(|(i, c)| cond[if axis.is_some() { c[ax] } else { *i }]).map(|(i, _)| xs[i]).collect();
        let mut e = if axis.is_some() { d.clone() } else { vec![0] }; let m = cond.iter().filter(|&&x| x).count(); if axis.is_some() { e[ax] = m } else { e[0] = m }
        eq("extents", o.shape().dims().to_vec(), e)?; eq("elements", T::get(&o)?, want)
    });
    cx.case("Tensor::compress refuses", (dt, &d, axis), || ensure(t.compress(&Tensor::from_slice(vec![true; cn + 1], [cn + 1]).unwrap(), axis).is_err(), || "a condition of the wrong length was accepted".into()));
}
pub fn run(cx: &mut Cx) {
    cx.case("empty rows", (), || { let t = Tensor::from_slice(Vec::<f32>::new(), [0, 3]).map_err(|e| e.to_string())?; let (v, i) = er(t.topk(2, 1, true, true))?; eq("extents", (v.shape().dims().to_vec(), i.shape().dims().to_vec()), (vec![0, 2], vec![0, 2])) });
    while cx.more() {
        for (dt, _) in DT { for _ in 0..3 { cumsum(cx, dt); topk(cx, dt); unique(cx, dt); nonzero(cx, dt); compress(cx, dt); } }
        tensors::<f32>(cx); tensors::<f64>(cx); tensors::<i8>(cx); tensors::<i16>(cx); tensors::<i32>(cx); tensors::<i64>(cx); tensors::<u8>(cx); tensors::<u16>(cx); tensors::<u32>(cx); tensors::<u64>(cx); tensors::<bool>(cx); tensors::<half::f16>(cx); tensors::<half::bf16>(cx); tensors::<float8::F8E4M3>(cx); tensors::<float8::F8E5M2>(cx);
    }
}
