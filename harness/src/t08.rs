//! Data-movement kernels place every element exactly where defined.
use crate::{cx::*, kern::*, util::*, views};
use hodu_core::prelude::*;
use hodu_cpu_kernels as k;
use k::Kernel;

fn e(b: &[u8], i: usize, w: usize) -> Vec<u8> { el(b, i, w).to_vec() }
fn contiguous(cx: &mut Cx, dt: &str, l: L) {
    let (w, x, low) = (size_of(dt), fill(cx, dt, l.extent()), cx.rng.flip());
    cx.case("contiguous kernel", (dt, &l), || {
        let m = l.meta();
        let o = guarded(&[&x], &[l.n() * w], low, |i, o| k::call_ops_contiguous(Kernel(leak(format!("hodu_cpu_contiguous_{}", dt))), i[0], o[0], &m).unwrap())?;
        placed(w, &o[0], &coords(&l.d).iter().map(|c| e(&x, l.at(c), w)).collect::<Vec<_>>())
    });
}
/// fill: exactly the addressed elements get the value, all others keep theirs
fn const_set(cx: &mut Cx, dt: &str, l: L) {
    let (w, v, low, n) = (size_of(dt), fill(cx, dt, 1), cx.rng.flip(), l.extent() + 1);
    let before = fill(cx, dt, n);
    cx.case("const_set kernel", (dt, &l, &v), || {
        let m = l.meta(); let name = Kernel(leak(format!("hodu_cpu_const_set_{}", dt)));
        let f = Fenced::from(&before, low);
        unsafe { match w { 1 => k::call_ops_const_set(name, f.m(), &m, v[0]), 2 => k::call_ops_const_set(name, f.m(), &m, (v.as_ptr() as *const u16).read_unaligned()), 4 => k::call_ops_const_set(name, f.m(), &m, (v.as_ptr() as *const u32).read_unaligned()), _ => k::call_ops_const_set(name, f.m(), &m, (v.as_ptr() as *const u64).read_unaligned()) } }.unwrap();
        f.intact("output")?;
        let mut want: Vec<Vec<u8>> = (0..n).map(|i| e(&before, i, w)).collect();
        for c in coords(&l.d) { want[l.at(&c)] = v.clone(); }
        placed(w, f.bytes(), &want)
    });
}
fn flip(cx: &mut Cx, dt: &str, d: &[usize]) {
    let (l, w, low) = (L::plain(d), size_of(dt), cx.rng.flip());
    let x = fill(cx, dt, l.n()); let f: Vec<usize> = d.iter().map(|_| cx.rng.below(2)).collect();
    cx.case("flip kernel", (dt, d, &f), || {
        let mut m = vec![l.n(), d.len()]; m.extend(d); m.extend(&f);
        let name = || Kernel(leak(format!("hodu_cpu_flip_{}", dt)));
        let o = guarded(&[&x], &[l.n() * w], low, |i, o| k::call_ops_flip(name(), i[0], o[0], &m).unwrap())?;
        placed(w, &o[0], &coords(d).iter().map(|c| { let c: Vec<usize> = c.iter().enumerate().map(|(i, &v)| if f[i] == 1 { d[i] - 1 - v } else { v }).collect(); e(&x, l.at(&c), w) }).collect::<Vec<_>>())?;
        let y = o[0].clone();
        let o = guarded(&[&y], &[l.n() * w], low, |i, o| k::call_ops_flip(name(), i[0], o[0], &m).unwrap())?;
        ensure(o[0] == x, || "flipping twice does not give back the input".into())
    });
}
fn concat(cx: &mut Cx, dt: &str, r: usize) {
    let (w, low, ax, k_) = (size_of(dt), cx.rng.flip(), cx.rng.below(r), 1 + cx.rng.below(4));
    let d = dims0(cx, r, 3);
    let ls: Vec<L> = (0..k_).map(|_| { let mut d = d.clone(); d[ax] = cx.rng.below(4); lay(cx, &d) }).collect();
    let xs: Vec<Vec<u8>> = ls.iter().map(|l| fill(cx, dt, l.extent())).collect();
    let mut od = d.clone(); od[ax] = ls.iter().map(|l| l.d[ax]).sum();
    cx.case("concat kernel", (dt, ax, &ls), || {
        let n: usize = od.iter().product();
        let mut m = vec![n, r]; m.extend(&od); m.extend([ax, k_]);
        for l in &ls { m.extend(&l.d); } for l in &ls { m.extend(&l.s); } for l in &ls { m.push(l.o); }
        let mut b = 0; for l in &ls { m.push(b); b += l.extent(); }
        let o = guarded(&[&xs.concat()], &[n * w], low, |i, o| k::call_ops_concat(Kernel(leak(format!("hodu_cpu_concat_{}", dt))), i[0], o[0], &m).unwrap())?;
        placed(w, &o[0], &coords(&od).iter().map(|c| { let mut c = c.clone(); let mut t = 0; while c[ax] >= ls[t].d[ax] { c[ax] -= ls[t].d[ax]; t += 1; } e(&xs[t], ls[t].at(&c), w) }).collect::<Vec<_>>())?;
        // splitting gives the inputs back
        let mut at = 0;
        for (t, l) in ls.iter().enumerate() {
            let mut m = vec![l.n(), r]; m.extend(&od); m.extend(row_major(&od)); m.extend([0, ax, l.d[ax], at]); at += l.d[ax];
            let s = guarded(&[&o[0]], &[l.n() * w], low, |i, o| k::call_ops_split(Kernel(leak(format!("hodu_cpu_split_{}", dt))), i[0], o[0], &m).unwrap())?;
            placed(w, &s[0], &coords(&l.d).iter().map(|c| e(&xs[t], l.at(c), w)).collect::<Vec<_>>())?;
        }
        Ok(())
    });
}
fn split(cx: &mut Cx, dt: &str, r: usize) {
    let d = dims0(cx, r, 5); let (l, w, low, ax) = (lay(cx, &d), size_of(dt), cx.rng.flip(), cx.rng.below(r));
    let x = fill(cx, dt, l.extent()); let at = cx.rng.below(d[ax] + 1); let sz = cx.rng.below(d[ax] - at + 1);
    cx.case("split kernel", (dt, &l, ax, at, sz), || {
        let mut od = d.clone(); od[ax] = sz; let n: usize = od.iter().product();
        let mut m = vec![n, r]; m.extend(&d); m.extend(&l.s); m.extend([l.o, ax, sz, at]);
        let o = guarded(&[&x], &[n * w], low, |i, o| k::call_ops_split(Kernel(leak(format!("hodu_cpu_split_{}", dt))), i[0], o[0], &m).unwrap())?;
        placed(w, &o[0], &coords(&od).iter().map(|c| { let mut c = c.clone(); c[ax] += at; e(&x, l.at(&c), w) }).collect::<Vec<_>>())
    });
}
/// the source coordinate of padded coordinate p (already shifted by the amount before), None: the fill value
fn src(mode: &str, p: i64, n: i64) -> Option<i64> {
    if p >= 0 && p < n { return Some(p); }
    match mode {
        "constant" => None,
        "replicate" => Some(p.clamp(0, n - 1)),
        "circular" => Some(p.rem_euclid(n)),
        _ => if n == 1 { Some(0) } else { let t = 2 * (n - 1); let q = p.rem_euclid(t); Some(if q < n { q } else { t - q }) },
    }
}
fn pad(cx: &mut Cx, dt: &str, r: usize, mode: &'static str) {
    let d: Vec<usize> = (0..r).map(|_| if mode == "constant" && cx.rng.below(15) == 0 { 0 } else { 1 + cx.rng.below(4) }).collect();
    let (l, w, low) = (L::plain(&d), size_of(dt), cx.rng.flip());
    let x = fill(cx, dt, l.n()); let v = fill(cx, dt, 1);
    let big = cx.rng.below(4) == 0;
    let pb: Vec<usize> = d.iter().map(|&n| cx.rng.below(if mode == "reflect" && !big { n } else if big { 9 } else { 3 })).collect();
    let pa: Vec<usize> = d.iter().map(|&n| cx.rng.below(if mode == "reflect" && !big { n } else if big { 9 } else { 3 })).collect();
    cx.case(leak(format!("pad_{} kernel", mode)), (dt, &d, &pb, &pa), || {
        let od: Vec<usize> = (0..r).map(|i| d[i] + pb[i] + pa[i]).collect(); let n: usize = od.iter().product();
        let mut m = vec![n, r]; m.extend(&d); m.extend(&od); m.extend(&pb);
        let name = Kernel(leak(format!("hodu_cpu_pad_{}_{}", mode, dt)));
        let o = guarded(&[&x, &v], &[n * w], low, |i, o| match mode { "constant" => k::call_ops_pad_constant(name, i[0], o[0], i[1], &m), "reflect" => k::call_ops_pad_reflect(name, i[0], o[0], &m), "replicate" => k::call_ops_pad_replicate(name, i[0], o[0], &m), _ => k::call_ops_pad_circular(name, i[0], o[0], &m) }.unwrap())?;
        placed(w, &o[0], &coords(&od).iter().map(|c| { let s: Option<Vec<usize>> = (0..r).map(|i| src(mode, c[i] as i64 - pb[i] as i64, d[i] as i64).map(|x| x as usize)).collect(); s.map(|s| e(&x, l.at(&s), w)).unwrap_or(v.clone()) }).collect::<Vec<_>>())
    });
}
const MODES: [&str; 4] = ["constant", "reflect", "replicate", "circular"];

/// the tensor operations, on views
fn tensors<T: views::Elem>(cx: &mut Cx) {
    use views::*;
    let r = 1 + cx.rng.below(4); let d = rand_dims(cx, r, 3); let n = numel(&d);
    let vals: Vec<T> = rand_vals(cx, n, 0, 60);
    let (t, how) = any_view(cx, &d, &vals);
    let ax = cx.rng.below(r); let sax = if cx.rng.flip() { ax as i32 } else { ax as i32 - r as i32 };
    let st = row_major(&d);
    let chk = |t: &Tensor, od: &[usize], f: &dyn Fn(&[usize]) -> T| -> Result<(), String> { eq("extents", t.shape().dims().to_vec(), od.to_vec())?; eq("elements", T::get(t)?, coords(od).iter().map(|c| f(c)).collect::<Vec<T>>()) };
    let inp = (T::DT, &d, &how, &vals);
    cx.case("Tensor::contiguous", inp, || { let c = er(t.contiguous())?; ensure(c.layout().is_contiguous(), || "not contiguous".into())?; chk(&c, &d, &|c| vals[addr(c, &st, 0)]) });
    cx.case("Tensor::flip", (inp, sax), || chk(&er(t.flip(&[sax]))?, &d, &|c| { let mut c = c.to_vec(); c[ax] = d[ax] - 1 - c[ax]; vals[addr(&c, &st, 0)] }));
    let kk = 1 + cx.rng.below(3);
    let others: Vec<(Vec<usize>, Vec<T>, Tensor, String)> = (0..kk).map(|_| { let mut e = d.clone(); e[ax] = 1 + cx.rng.below(3); let v: Vec<T> = rand_vals(cx, numel(&e), 0, 60); let (t, h) = any_view(cx, &e, &v); (e, v, t, h) }).collect();
    let mut od = d.clone(); od[ax] += others.iter().map(|o| o.0[ax]).sum::<usize>();
    let desc: Vec<_> = others.iter().map(|o| (&o.0, &o.3)).collect();
    cx.case("Tensor::concat", (inp, sax, &desc), || {
        let mut ts = vec![&t]; ts.extend(others.iter().map(|o| &o.2));
        let c = er(Tensor::concat(&ts, sax))?;
        chk(&c, &od, &|c| { let mut c = c.to_vec(); if c[ax] < d[ax] { return vals[addr(&c, &st, 0)]; } c[ax] -= d[ax]; for o in &others { if c[ax] < o.0[ax] { return o.1[addr(&c, &row_major(&o.0), 0)]; } c[ax] -= o.0[ax]; } unreachable!() })?;
        // splitting it gives the inputs back
        let mut sizes = vec![d[ax]]; sizes.extend(others.iter().map(|o| o.0[ax]));
        let back = er(c.split(&sizes, sax))?;
        eq("parts", back.len(), sizes.len())?;
        chk(&back[0], &d, &|c| vals[addr(c, &st, 0)])?;
        for (b, o) in back[1..].iter().zip(&others) { chk(b, &o.0, &|c| o.1[addr(c, &row_major(&o.0), 0)])?; }
        Ok(())
    });
    let (sv, sh) = { let v: Vec<T> = rand_vals(cx, n, 0, 60); let (t2, h2) = any_view(cx, &d, &v); ((v, t2), h2) };
    let sx = cx.rng.below(r + 1);
    cx.case("Tensor::stack", (inp, sx, &sh), || { let mut od = d.clone(); od.insert(sx, 2); chk(&er(Tensor::stack(&[&t, &sv.1], sx as i32))?, &od, &|c| { let mut c = c.to_vec(); let w = c.remove(sx); if w == 0 { vals[addr(&c, &st, 0)] } else { sv.0[addr(&c, &st, 0)] } }) });
    let parts = 1 + cx.rng.below(4);
    cx.case("Tensor::chunk", (inp, parts, sax), || {
        let c = er(t.chunk(parts, sax))?; let mut at = 0;
        for p in &c { let e = p.shape().dims().to_vec(); let a0 = at; chk(p, &e, &|c| { let mut c = c.to_vec(); c[ax] += a0; vals[addr(&c, &st, 0)] })?; let mut f = e.clone(); f[ax] = d[ax]; eq("other extents", f, d.clone())?; at += e[ax]; }
        eq("covered extent", at, d[ax])?; ensure(c.len() <= parts.max(1), || format!("{} chunks", c.len()))
    });
    let p: Vec<(usize, usize)> = d.iter().map(|&n| (cx.rng.below(n), cx.rng.below(n))).collect();
    let od: Vec<usize> = (0..r).map(|i| d[i] + p[i].0 + p[i].1).collect();
    for mode in MODES {
        cx.case(leak(format!("Tensor::pad_{}", mode)), (inp, &p), || {
            let o = er(match mode { "constant" => t.pad_constant(&p, 1), "reflect" => t.pad_reflect(&p), "replicate" => t.pad_replicate(&p), _ => t.pad_circular(&p) })?;
            chk(&o, &od, &|c| { let s: Option<Vec<usize>> = (0..r).map(|i| src(mode, c[i] as i64 - p[i].0 as i64, d[i] as i64).map(|x| x as usize)).collect(); s.map(|s| vals[addr(&s, &st, 0)]).unwrap_or(T::of(1)) })
        });
    }
    let reps: Vec<usize> = (0..r).map(|_| 1 + cx.rng.below(3)).collect();
    cx.case("Tensor::repeat", (inp, &reps), || { let od: Vec<usize> = (0..r).map(|i| d[i] * reps[i]).collect(); chk(&er(t.repeat(&reps))?, &od, &|c| { let c: Vec<usize> = (0..r).map(|i| c[i] / reps[i]).collect(); vals[addr(&c, &st, 0)] }) });
    cx.case("Tensor::full", (T::DT, &d), || chk(&er(er(Tensor::full(&d[..], 1))?.to_dtype(T::DT))?, &d, &|_| T::of(1)));
    // refused
    cx.case("concat refuses", (inp, sax), || {
        ensure(t.flip(&[r as i32]).is_err() && t.flip(&[-(r as i32) - 1]).is_err(), || "flip accepted an axis out of range".into())?;
        ensure(Tensor::concat(&[&t], r as i32).is_err(), || "concat accepted an axis out of range".into())?;
        ensure(t.split(&[d[ax] + 1], sax).is_err(), || "split accepted sizes that do not add up".into())?;
        if r > 1 { let mut e = d.clone(); e[(ax + 1) % r] += 1; let z = T::mk(vec![T::of(0); numel(&e)], &e); ensure(Tensor::concat(&[&t, &z], sax).is_err(), || "concat accepted different extents".into())?; }
        Ok(())
    });
}
macro_rules! each { ($f:ident, $cx:expr) => { $f::<f32>($cx); $f::<i32>($cx); $f::<u8>($cx); $f::<bool>($cx); $f::<f64>($cx); $f::<i64>($cx); $f::<half::f16>($cx); $f::<half::bf16>($cx); $f::<float8::F8E4M3>($cx); $f::<float8::F8E5M2>($cx); $f::<i8>($cx); $f::<i16>($cx); $f::<u16>($cx); $f::<u32>($cx); $f::<u64>($cx); } }
pub fn run(cx: &mut Cx) {
    let mut kernels = |cx: &mut Cx, dt: &str, r: usize| {
        let m = if r > 4 { 2 } else { 4 };
        let d = dims0(cx, r, m); let l = lay(cx, &d); contiguous(cx, dt, l);
        let d = dims0(cx, r, m); let l = lay(cx, &d); const_set(cx, dt, l);
        flip(cx, dt, &d);
        if r > 0 { concat(cx, dt, r); split(cx, dt, r); }
        for mode in MODES { pad(cx, dt, r.min(4), mode); }
    };
    for (dt, _) in DT { for r in 0..4 { kernels(cx, dt, r); } }
    for n in 0..20 { for (dt, _) in DT { let mut l = L::plain(&[n]); contiguous(cx, dt, l.clone()); l.o = 3; contiguous(cx, dt, l.clone()); const_set(cx, dt, l); } }
    each!(tensors, cx);
    while cx.more() { for _ in 0..20 { let dt = any_dt(cx); let r = cx.rng.below(7); kernels(cx, dt, r); } each!(tensors, cx); }
}
