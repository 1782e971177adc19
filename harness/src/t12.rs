//! Convolutions, windows and resizing use exactly the taps in range.
use crate::{cx::*, kern::*, util::*, views};
use hodu_core::prelude::*;
use hodu_cpu_kernels as k;
use k::Kernel;

fn nm(op: &str, dt: &str) -> Kernel { Kernel(leak(format!("hodu_cpu_{}_{}", op, dt))) }
const FL: [&str; 6] = ["f32", "f64", "f16", "bf16", "f8e4m3", "f8e5m2"];
fn limit(dt: &str) -> i64 { match dt { "f8e5m2" => 8, "f8e4m3" => 16, "bf16" => 256, "f16" => 2048, _ => 1 << 24 } }
fn small(cx: &mut Cx, dt: &str) -> i64 { if matches!(dt, "f8e4m3" | "f8e5m2") { if cx.rng.below(3) == 0 { 0 } else { cx.rng.range(-1, 1) } } else { cx.rng.range(-5, 5) } }
/// a convolution problem: [batch, in channels, out channels], spatial extents, taps
#[derive(Debug, Clone)]
struct P { sp: usize, tr: bool, b: usize, ic: usize, oc: usize, x: Vec<usize>, k: Vec<usize>, o: Vec<usize>, s: Vec<usize>, p: Vec<usize>, d: Vec<usize> }
/// `uniform`: the tensor interface takes one stride, padding and dilation for all axes
fn problem(cx: &mut Cx, uniform: bool) -> Option<(P, usize)> {
    let sp = 1 + cx.rng.below(3); let tr = cx.rng.flip();
    let (mx, mk) = match sp { 1 => (9, 5), 2 => (6, 4), _ => (4, 3) };
    let v = |cx: &mut Cx, lo: usize, hi: usize, n: usize| -> Vec<usize> { let f = lo + cx.rng.below(hi - lo + 1); (0..n).map(|_| if uniform { f } else { lo + cx.rng.below(hi - lo + 1) }).collect() };
    let (s, p, d) = (v(cx, 1, 3, sp), v(cx, 0, 3, sp), v(cx, 1, 3, sp));
    let x: Vec<usize> = (0..sp).map(|_| 1 + cx.rng.below(mx)).collect(); let k: Vec<usize> = (0..sp).map(|_| 1 + cx.rng.below(mk)).collect();
    let op = if tr && cx.rng.flip() { cx.rng.below(3) } else { 0 };
    let mut o = vec![];
    for i in 0..sp {
        o.push(if tr { ((x[i] - 1) * s[i] + d[i] * (k[i] - 1) + op + 1).checked_sub(2 * p[i])? } else { (x[i] + 2 * p[i]).checked_sub(d[i] * (k[i] - 1) + 1)? / s[i] + 1 });
    }
    if o.iter().product::<usize>() > 400 { return None; }
    Some((P { sp, tr, b: 1 + cx.rng.below(3), ic: 1 + cx.rng.below(3), oc: 1 + cx.rng.below(3), x, k, o, s, p, d }, op))
}
impl P {
    fn xd(&self) -> Vec<usize> { [&[self.b, self.ic][..], &self.x].concat() }
    fn wd(&self) -> Vec<usize> { let c = if self.tr { [self.ic, self.oc] } else { [self.oc, self.ic] }; [&c[..], &self.k].concat() }
    fn od(&self) -> Vec<usize> { [&[self.b, self.oc][..], &self.o].concat() }
    /// every (input, weight, output) coordinate triple that meets, as flat row-major indices
    fn taps(&self, mut f: impl FnMut(usize, usize, usize)) {
        let (xs, ws, os) = (row_major(&self.xd()), row_major(&self.wd()), row_major(&self.od()));
        let (near, far) = if self.tr { (&self.x, &self.o) } else { (&self.o, &self.x) };
        for n in coords(near) { for kk in coords(&self.k) {
            let mut at = vec![]; let mut ok = true;
            for i in 0..self.sp { let q = (n[i] * self.s[i] + kk[i] * self.d[i]) as i64 - self.p[i] as i64; if q < 0 || q >= far[i] as i64 { ok = false; } at.push(q as usize); }
            if !ok { continue; }
            let (xc, oc) = if self.tr { (&n, &at) } else { (&at, &n) };
            for b in 0..self.b { for i in 0..self.ic { for o in 0..self.oc {
                f(addr(&[&[b, i][..], xc].concat(), &xs, 0), addr(&[&if self.tr { [i, o] } else { [o, i] }[..], &kk].concat(), &ws, 0), addr(&[&[b, o][..], oc].concat(), &os, 0));
            } } }
        } }
    }
}
/// exact sums; None where the element type cannot hold every partial sum
fn fold(n: usize, lim: i64, terms: impl FnOnce(&mut dyn FnMut(usize, i64))) -> Vec<Option<i64>> {
    let mut s = vec![(0i64, 0i64); n];
    terms(&mut |i, v| { s[i].0 += v; s[i].1 += v.abs(); });
    s.into_iter().map(|(v, a)| if a <= lim { Some(v) } else { None }).collect()
}
fn check(dt: &str, od: &[usize], got: &[f64], want: &[Option<i64>]) -> Result<(), String> {
    eq("elements", got.len(), want.len())?; let _ = dt;
    for (i, c) in coords(od).iter().enumerate() { if let Some(w) = want[i] { ensure(got[i] == w as f64, || format!("output {:?} is {}, should be {}", c, got[i], w))?; } }
    Ok(())
}
fn enc(dt: &str, v: &[i64]) -> Vec<u8> { v.iter().flat_map(|&x| of(dt, x)).collect() }
fn dec(dt: &str, v: &[u8]) -> Vec<f64> { v.chunks(size_of(dt)).map(|x| to_f64(dt, x)).collect() }
fn conv(cx: &mut Cx, dt: &'static str) {
    let (p, _) = match problem(cx, false) { Some(p) => p, None => return };
    let (xn, wn, on) = (p.xd().iter().product::<usize>(), p.wd().iter().product::<usize>(), p.od().iter().product::<usize>());
    let (xo, wo) = (cx.rng.below(5), cx.rng.below(5)); let (w, low) = (size_of(dt), cx.rng.flip());
    let x: Vec<i64> = (0..xo + xn).map(|_| small(cx, dt)).collect(); let y: Vec<i64> = (0..wo + wn).map(|_| small(cx, dt)).collect();
    let name = format!("conv{}{}d", if p.tr { "_transpose" } else { "" }, p.sp);
    let want = fold(on, limit(dt), |f| p.taps(|a, b, c| f(c, x[xo + a] * y[wo + b])));
    cx.case("convolution kernel", (dt, &p, xo, wo), || {
        let mut m = vec![on, p.b, p.ic, p.oc]; for v in [&p.x, &p.k, &p.o, &p.s, &p.p, &p.d] { m.extend(v); } m.extend([xo, wo]);
        let o = guarded(&[&enc(dt, &x), &enc(dt, &y)], &[on * w], low, |i, o| k::call_ops_conv(nm(&name, dt), i[0], i[1], o[0], &m).unwrap())?;
        check(dt, &p.od(), &dec(dt, &o[0]), &want)
    });
    // weight gradient: the same triples, summed per weight element; the output gradient may have any layout
    let gl = lay(cx, &p.od()); let g: Vec<i64> = (0..gl.extent()).map(|_| small(cx, dt)).collect();
    let gc = coords(&p.od());
    let want = fold(wn, limit(dt), |f| p.taps(|a, b, c| f(b, x[xo + a] * g[gl.at(&gc[c])])));
    cx.case("weight-gradient kernel", (dt, &p, xo, &gl), || {
        let mut m = vec![wn, p.sp + 2, p.sp]; for v in [&p.xd(), &p.od(), &p.wd(), &row_major(&p.xd()), &gl.s] { m.extend(v); } m.extend([xo, gl.o]); for v in [&p.s, &p.p, &p.d] { m.extend(v); }
        let o = guarded(&[&enc(dt, &x), &enc(dt, &g)], &[wn * w], low, |i, o| k::call_ops_conv_grad_weight(nm(&format!("{}_grad_weight", name), dt), i[0], i[1], o[0], &m).unwrap())?;
        check(dt, &p.wd(), &dec(dt, &o[0]), &want)
    });
}
fn tensors<T: views::Elem>(cx: &mut Cx) {
    use views::*;
    let dt: &'static str = leak(T::DT.to_string());
    let (p, op) = match problem(cx, true) { Some(p) => p, None => return };
    let (s, pad, d) = (p.s[0], p.p[0], p.d[0]);
    let n = |v: Vec<usize>| v.iter().product::<usize>();
    let (x, y, g): (Vec<i64>, Vec<i64>, Vec<i64>) = ((0..n(p.xd())).map(|_| small(cx, dt)).collect(), (0..n(p.wd())).map(|_| small(cx, dt)).collect(), (0..n(p.od())).map(|_| small(cx, dt)).collect());
    let el = |v: &[i64]| v.iter().map(|&a| T::of(a)).collect::<Vec<_>>();
    let (tx, hx) = any_view(cx, &p.xd(), &el(&x)); let (ty, hy) = any_view(cx, &p.wd(), &el(&y)); let (tg, hg) = any_view(cx, &p.od(), &el(&g));
    let out = |t: &Tensor, d: &[usize], want: &[Option<i64>]| -> Result<(), String> { eq("extents", t.shape().dims().to_vec(), d.to_vec())?; let v: Vec<f64> = T::get(t)?.iter().map(|e| e.f()).collect(); check(dt, d, &v, want) };
    let want = fold(g.len(), limit(dt), |f| p.taps(|a, b, c| f(c, x[a] * y[b])));
    cx.case("Tensor convolution", (dt, &p, op, &hx, &hy, &x, &y), || {
        let r = match (p.sp, p.tr) { (1, false) => tx.conv1d(&ty, s, pad, d), (2, false) => tx.conv2d(&ty, s, pad, d), (3, false) => tx.conv3d(&ty, s, pad, d), (1, _) => tx.conv_transpose1d(&ty, s, pad, op, d), (2, _) => tx.conv_transpose2d(&ty, s, pad, op, d), _ => tx.conv_transpose3d(&ty, s, pad, op, d) };
        out(&er(r)?, &p.od(), &want)
    });
    let want = fold(y.len(), limit(dt), |f| p.taps(|a, b, c| f(b, x[a] * g[c])));
    let gw = |tx: &Tensor, tg: &Tensor, wd: &[usize]| match (p.sp, p.tr) { (1, false) => tx.conv1d_grad_weight(tg, wd, s, pad, d), (2, false) => tx.conv2d_grad_weight(tg, wd, s, pad, d), (3, false) => tx.conv3d_grad_weight(tg, wd, s, pad, d), (1, _) => tx.conv_transpose1d_grad_weight(tg, wd, s, pad, d), (2, _) => tx.conv_transpose2d_grad_weight(tg, wd, s, pad, d), _ => tx.conv_transpose3d_grad_weight(tg, wd, s, pad, d) };
    cx.case("Tensor weight gradient", (dt, &p, &hx, &hg, &x, &g), || out(&er(gw(&tx, &tg, &p.wd()))?, &p.wd(), &want));
    cx.case("mismatched weight-gradient channels", (dt, &p), || { let mut w = p.wd(); w[cx_pick(&p)] += 1; ensure(gw(&tx, &tg, &w).is_err(), || "accepted a weight shape that does not match".into()) });
    cx.case("mismatched channels", (dt, &p), || { let mut w = p.wd(); w[if p.tr { 0 } else { 1 }] += 1; let t = T::mk(vec![T::of(1); numel(&w)], &w);
        let r = match (p.sp, p.tr) { (1, false) => tx.conv1d(&t, s, pad, d), (2, false) => tx.conv2d(&t, s, pad, d), (3, false) => tx.conv3d(&t, s, pad, d), (1, _) => tx.conv_transpose1d(&t, s, pad, op, d), (2, _) => tx.conv_transpose2d(&t, s, pad, op, d), _ => tx.conv_transpose3d(&t, s, pad, op, d) };
        ensure(r.is_err(), || "accepted a weight whose input channels differ".into()) });
    // impossible sizes are refused
    let big: Vec<usize> = p.x.iter().map(|x| x + 2 * pad + 1).collect(); let bw = [&[1, p.ic][..], &big].concat();
    if !p.tr { cx.case("kernel larger than the padded input", (dt, &p), || { let t = T::mk(vec![T::of(1); numel(&bw)], &bw); let r = match p.sp { 1 => tx.conv1d(&t, s, pad, 1), 2 => tx.conv2d(&t, s, pad, 1), _ => tx.conv3d(&t, s, pad, 1) }; ensure(r.is_err(), || "accepted".into())?;
        let r = match p.sp { 1 => tx.conv1d(&ty, 0, pad, d), 2 => tx.conv2d(&ty, 0, pad, d), _ => tx.conv3d(&ty, 0, pad, d) }; ensure(r.is_err(), || "stride 0 accepted".into()) }); }
}
fn cx_pick(p: &P) -> usize { (p.b + p.ic + p.x[0]) % 2 }
/// windows: shared by the kernel and tensor level
#[derive(Debug, Clone)]
struct W { d: Vec<usize>, w: Vec<usize>, s: Vec<usize>, p: Vec<(usize, usize)>, o: Vec<usize> }
fn window(cx: &mut Cx, max: usize) -> W {
    let d = dims0(cx, 1 + max, 5); let r = d.len();
    let w: Vec<usize> = (0..r).map(|_| 1 + cx.rng.below(4)).collect(); let s: Vec<usize> = (0..r).map(|_| 1 + cx.rng.below(3)).collect();
    let p: Vec<(usize, usize)> = (0..r).map(|i| { let a = cx.rng.below(w[i] + 1); let mut b = cx.rng.below(w[i] + 1); while d[i] + a + b < w[i] { b += 1; } (a, b) }).collect();
    let o = (0..r).map(|i| (d[i] + p[i].0 + p[i].1 - w[i]) / s[i] + 1).collect();
    W { d, w, s, p, o }
}
impl W {
    /// for each output: positions inside, and how many taps there are altogether
    fn inside(&self, c: &[usize]) -> Vec<Vec<usize>> {
        coords(&self.w).into_iter().filter_map(|k| { let mut v = vec![]; for i in 0..c.len() { let q = (c[i] * self.s[i] + k[i]) as i64 - self.p[i].0 as i64; if q < 0 || q >= self.d[i] as i64 { return None; } v.push(q as usize); } Some(v) }).collect()
    }
    fn check(&self, dt: &str, red: &str, got: &[f64], goti: &[i128], at: &dyn Fn(&[usize]) -> (f64, i128)) -> Result<(), String> {
        let total: usize = self.w.iter().product();
        for (i, c) in coords(&self.o).iter().enumerate() {
            let vs: Vec<(f64, i128)> = self.inside(c).iter().map(|q| at(q)).collect();
            if is_int(dt) {
                let bits = 8 * size_of(dt) as u32; let (lo, hi) = if dt.starts_with('i') { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
                let w = match red { "sum" => { let s: i128 = vs.iter().map(|v| v.1).sum(); let m = s.rem_euclid(1i128 << bits); if m > hi { m - (1i128 << bits) } else { m } }, "max" => vs.iter().map(|v| v.1).max().unwrap_or(lo), _ => vs.iter().map(|v| v.1).min().unwrap_or(hi) };
                ensure(goti[i] == w, || format!("{} of window {:?} is {}, should be {}", red, c, goti[i], w))?;
            } else {
                let a: f64 = vs.iter().map(|v| v.0.abs()).sum(); if red == "sum" && a > limit(dt) as f64 { continue; }
                let w = match red { "sum" => vs.iter().map(|v| v.0).sum::<f64>(), "max" => vs.iter().map(|v| v.0).fold(f64::NEG_INFINITY, f64::max), "min" => vs.iter().map(|v| v.0).fold(f64::INFINITY, f64::min), _ => vs.iter().map(|v| v.0).sum::<f64>() / total as f64 };
                // no position inside: the type's own identity (its lowest or highest value, infinite or not)
                let ok = if vs.is_empty() && red != "sum" && red != "mean" { got[i].is_nan() || (if red == "max" { got[i] < -100.0 } else { got[i] > 100.0 }) } else if red == "mean" { (got[i] - w).abs() <= elementwise_eps(dt) * (a / total as f64 + 1e-3) + if dt == "f8e4m3" { 0.002 } else { 0.0 } } else { got[i] == w };
                ensure(ok, || format!("{} of window {:?} is {}, should be {}", red, c, got[i], w))?;
            }
        }
        Ok(())
    }
}
fn elementwise_eps(dt: &str) -> f64 { match dt { "f64" => 1e-13, "f32" => 1e-5, "f16" => 2e-3, "bf16" => 1e-2, "f8e4m3" => 0.13, _ => 0.26 } }
const WIN: [&str; 14] = ["f32", "f64", "i32", "f16", "bf16", "f8e4m3", "f8e5m2", "u8", "u16", "u32", "u64", "i8", "i16", "i64"];
fn reduce_window(cx: &mut Cx, dt: &'static str) {
    let q = window(cx, 4); let r = q.d.len(); if r == 0 || q.o.iter().product::<usize>() * q.w.iter().product::<usize>() > 4000 { return; }
    let l = lay(cx, &q.d); let (w, low) = (size_of(dt), cx.rng.flip());
    let x: Vec<u8> = (0..l.extent()).flat_map(|_| { let v = if is_int(dt) { cx.rng.next() as i64 >> cx.rng.below(60) } else if matches!(dt, "f8e5m2" | "f8e4m3") { small(cx, dt) } else { cx.rng.range(-9, 9) }; of(dt, v) }).collect();
    let red = *cx.rng.pick(&["sum", "max", "min", "mean"]); if red == "mean" && is_int(dt) { return; }
    cx.case("window kernel", (dt, red, &q, &l, &x), || {
        let no: usize = q.o.iter().product();
        let mut m = vec![no, r]; m.extend(&l.d); m.extend(&l.s); m.push(l.o); m.extend(&q.w); m.extend(&q.s); for p in &q.p { m.extend([p.0, p.1]); } m.extend(&q.o);
        let o = guarded(&[&x], &[no * w], low, |i, o| k::call_ops_reduce_window(nm(&format!("reduce_window_{}", red), dt), i[0], o[0], &m).unwrap())?;
        let f: Vec<f64> = if is_int(dt) { vec![] } else { dec(dt, &o[0]) }; let n: Vec<i128> = if is_int(dt) { o[0].chunks(w).map(|b| to_i128(dt, b)).collect() } else { vec![] };
        q.check(dt, red, &f, &n, &|c| { let e = el(&x, l.at(c), w); if is_int(dt) { (0.0, to_i128(dt, e)) } else { (to_f64(dt, e), 0) } })
    });
}
fn windows<T: views::Elem>(cx: &mut Cx) {
    use views::*;
    let dt: &'static str = leak(T::DT.to_string());
    let q = window(cx, 3); if q.d.is_empty() || q.d.contains(&0) || q.o.iter().product::<usize>() * q.w.iter().product::<usize>() > 3000 { return; }
    let v: Vec<T> = (0..numel(&q.d)).map(|_| T::of(if dt.starts_with('u') { cx.rng.range(0, 3) } else if dt.starts_with("f8") { cx.rng.range(-1, 1) } else { cx.rng.range(-3, 3) })).collect();
    let (t, h) = any_view(cx, &q.d, &v); let red = *cx.rng.pick(&["sum", "max", "min", "mean"]); let st = row_major(&q.d);
    cx.case("Tensor::reduce_window", (dt, red, &q, h, &v), || {
        let o = match t.reduce_window(&q.w[..], &q.s[..], &q.p, red) { Err(e) => return ensure(is_int(dt) && red == "mean", || format!("refused: {}", e)), Ok(o) => o };
        eq("extents", o.shape().dims().to_vec(), q.o.clone())?;
        let g = T::get(&o)?; let f: Vec<f64> = g.iter().map(|x| x.f()).collect(); let n: Vec<i128> = g.iter().map(|x| if is_int(dt) { to_i128(dt, unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) }) } else { 0 }).collect();
        q.check(dt, red, &f, &n, &|c| { let e = v[addr(c, &st, 0)].f(); (e, e as i128) })
    });
    cx.case("impossible window", (dt, &q), || { let mut w = q.w.clone(); w[0] = q.d[0] + q.p[0].0 + q.p[0].1 + 1; ensure(t.reduce_window(&w[..], &q.s[..], &q.p, "max").is_err(), || "window larger than the padded input accepted".into())?; let mut s = q.s.clone(); s[0] = 0; ensure(t.reduce_window(&q.w[..], &s[..], &q.p, "max").is_err(), || "stride 0 accepted".into()) });
}
/// source positions the coordinate rule may select: the exact one, and (only where the scale is not representable) its neighbour within rounding
pub fn nearest(o: usize, i: usize, out: usize, tr: usize, md: usize) -> Vec<usize> {
    let exact = { let mut g = (i, out); while g.1 != 0 { g = (g.1, g.0 % g.1); } (out / g.0).is_power_of_two() && tr != 2 };
    let mut v = vec![];
    for e in if exact { &[0.0][..] } else { &[0.0, 1e-4, -1e-4] } {
        let c = if i == out { o as f64 } else { match tr { 0 => (o as f64 + 0.5) * i as f64 / out as f64 - 0.5 + e, 1 => o as f64 * i as f64 / out as f64 + e, 2 => if out == 1 { 0.0 } else { (o * (i - 1)) as f64 / (out - 1) as f64 + e }, _ => if out == 1 { 0.0 } else { (o as f64 + 0.5) * i as f64 / out as f64 - 0.5 + e } } };
        let q = match md { 0 => c.floor(), 1 => c.ceil(), 2 => if c == c.floor() + 0.5 { c.floor() } else { c.round() }, _ => if c < 0.0 { -((-c).round()) } else { c.round() } };
        v.push(q.clamp(0.0, (i - 1) as f64) as usize);
    }
    v
}
/// positions and weights of the interpolation taps along one axis (linear: 2, Catmull-Rom: 4)
fn taps(o: usize, i: usize, out: usize, tr: usize, mode: usize) -> Vec<(usize, f64)> {
    let c = if i == out { o as f64 } else { match tr { 0 => (o as f64 + 0.5) * i as f64 / out as f64 - 0.5, 1 => o as f64 * i as f64 / out as f64, 2 => if out == 1 { 0.0 } else { (o * (i - 1)) as f64 / (out - 1) as f64 }, _ => if out == 1 { 0.0 } else { (o as f64 + 0.5) * i as f64 / out as f64 - 0.5 } } };
    let (z, t) = (c.floor(), c - c.floor()); let at = |j: i64| (z as i64 + j).clamp(0, i as i64 - 1) as usize;
    if mode == 1 { vec![(at(0), 1.0 - t), (at(1), t)] } else { let (t2, t3) = (t * t, t * t * t); vec![(at(-1), -0.5 * t3 + t2 - 0.5 * t), (at(0), 1.5 * t3 - 2.5 * t2 + 1.0), (at(1), -1.5 * t3 + 2.0 * t2 + 0.5 * t), (at(2), 0.5 * t3 - 0.5 * t2)] }
}
const TR: [&str; 4] = ["half_pixel", "asymmetric", "align_corners", "pytorch_half_pixel"];
const MD: [&str; 4] = ["floor", "ceil", "round_prefer_floor", "round_prefer_ceil"];
fn resize_case(cx: &mut Cx) -> (Vec<usize>, Vec<usize>, usize, usize) {
    let r = 4 + cx.rng.below(2); let d: Vec<usize> = (0..r).map(|i| 1 + cx.rng.below(if i < 2 { 2 } else { 5 })).collect();
    let mut o = d[..2].to_vec(); for i in 2..r { o.push(match cx.rng.below(4) { 0 => d[i] * (1 + cx.rng.below(3)), 1 => (d[i] / 2).max(1), _ => 1 + cx.rng.below(8) }); }
    (d, o, cx.rng.below(4), cx.rng.below(4))
}
fn resize(cx: &mut Cx, dt: &'static str) {
    let (d, od, tr, md) = resize_case(cx); let l = lay(cx, &d); let (w, low) = (size_of(dt), cx.rng.flip());
    let mode = cx.rng.below(4); let interpolated = (mode == 1 && (d.len() == 4 || d.len() == 5)) || (mode == 2 && d.len() == 4);
    let x = if mode == 1 || mode == 2 { (0..l.extent()).flat_map(|_| of(dt, cx.rng.range(-9, 9))).collect() } else { fill(cx, dt, l.extent()) }; let no: usize = od.iter().product();
    let mut m = vec![no, d.len()]; m.extend(&l.d); m.extend(&l.s); m.push(l.o); m.extend(&od); m.extend([if mode > 2 { 0 } else { mode }, tr, md]);
    if interpolated { // separable interpolation around the exact coordinate; the taps are clamped to the edge
        cx.case("interpolating resize kernel", (dt, mode, &l, &od, TR[tr], &x), || {
            let o = guarded(&[&x], &[no * w], low, |i, o| k::call_ops_resize(nm("resize", dt), i[0], o[0], &m).unwrap())?;
            for (i, c) in coords(&od).iter().enumerate() {
                let per: Vec<Vec<(usize, f64)>> = (2..d.len()).map(|a| taps(c[a], d[a], od[a], tr, mode)).collect();
                let (mut s, mut m) = (0.0, 0.0);
                for q in coords(&per.iter().map(|p| p.len()).collect::<Vec<_>>()) { let mut f = c[..2].to_vec(); let mut g = 1.0; for (j, &z) in q.iter().enumerate() { f.push(per[j][z].0); g *= per[j][z].1; } let v = to_f64(dt, el(&x, l.at(&f), w)); s += g * v; m += (g * v).abs(); }
                let b = to_f64(dt, el(&o[0], i, w));
                ensure((b - s).abs() <= elementwise_eps(dt).max(1e-5) * m + 3e-3, || format!("output {:?} is {}, should be {}", c, b, s))?;
            }
            Ok(()) });
        return;
    }
    cx.case("nearest resize kernel", (dt, &l, &od, TR[tr], MD[md]), || {
        let o = guarded(&[&x], &[no * w], low, |i, o| k::call_ops_resize(nm("resize", dt), i[0], o[0], &m).unwrap())?;
        for (i, c) in coords(&od).iter().enumerate() {
            let per: Vec<Vec<usize>> = (2..d.len()).map(|a| nearest(c[a], d[a], od[a], tr, md)).collect();
            let mut ok = false; let mut first = None;
            for q in coords(&per.iter().map(|p| p.len()).collect::<Vec<_>>()) { let mut f = c[..2].to_vec(); f.extend(q.iter().enumerate().map(|(j, &z)| per[j][z])); let e = el(&x, l.at(&f), w); if first.is_none() { first = Some((f.clone(), e.to_vec())); } if e == el(&o[0], i, w) { ok = true; break; } }
            ensure(ok, || format!("output {:?} has bytes {:?}, should be source {:?}", c, el(&o[0], i, w), first))?;
        }
        Ok(())
    });
}
fn resizes<T: views::Elem>(cx: &mut Cx) {
    use views::*;
    let dt: &'static str = leak(T::DT.to_string());
    let (d, od, tr, md) = resize_case(cx); let v: Vec<T> = rand_vals(cx, numel(&d), -8, 8); let (t, h) = any_view(cx, &d, &v); let st = row_major(&d);
    let check = |o: &Tensor, tr: usize, md: usize| -> Result<(), String> {
        eq("extents", o.shape().dims().to_vec(), od.clone())?; let g = T::get(o)?;
        for (i, c) in coords(&od).iter().enumerate() {
            let per: Vec<Vec<usize>> = (2..d.len()).map(|a| nearest(c[a], d[a], od[a], tr, md)).collect();
            ensure(coords(&per.iter().map(|p| p.len()).collect::<Vec<_>>()).iter().any(|q| { let mut f = c[..2].to_vec(); f.extend(q.iter().enumerate().map(|(j, &z)| per[j][z])); v[addr(&f, &st, 0)] == g[i] }), || format!("output {:?} is {:?}, sources {:?}", c, g[i], per))?;
        }
        Ok(())
    };
    cx.case("Tensor::resize nearest", (dt, &d, &od, TR[tr], MD[md], &h, &v), || check(&er(t.resize(&od[2..], "nearest", TR[tr], MD[md]))?, tr, md));
    cx.case("Tensor::resize refuses", (dt, &d), || { ensure(t.resize(&od[1..], "nearest", TR[tr], MD[md]).is_err(), || "wrong number of extents accepted".into())?; ensure(t.resize(&od[2..], "nearestx", TR[tr], MD[md]).is_err() && t.resize(&od[2..], "nearest", "x", MD[md]).is_err() && t.resize(&od[2..], "nearest", TR[tr], "x").is_err(), || "unknown mode accepted".into()) });
    for mode in ["linear", "cubic"] { same_under_views(cx, "interpolating resize under views", format!("{} {:?} {}", mode, od, TR[tr]), &[(d.clone(), v.clone())], |ts| Ok(vec![ts[0].resize(&od[2..], mode, TR[tr], MD[md])?])); }
}
pub fn run(cx: &mut Cx) {
    for dt in FL { for _ in 0..10 { conv(cx, dt); resize(cx, dt); } }
    for dt in WIN { for _ in 0..10 { reduce_window(cx, dt); } }
    while cx.more() {
        for _ in 0..10 { let dt = *cx.rng.pick(&FL); conv(cx, dt); resize(cx, dt); let dt = *cx.rng.pick(&WIN); reduce_window(cx, dt); }
        macro_rules! each { ($f:ident: $($t:ty),*) => { $($f::<$t>(cx);)* } }
        each!(tensors: f32, f64, half::f16, half::bf16, float8::F8E4M3, float8::F8E5M2);
        each!(resizes: f32, f64, half::f16, half::bf16, float8::F8E4M3, float8::F8E5M2);
        each!(windows: f32, f64, i8, i16, i32, i64, u8, u16, u32, u64, half::f16, half::bf16, float8::F8E4M3, float8::F8E5M2);
    }
}
