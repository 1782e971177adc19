//! Index-driven kernels read and write only the addressed elements.
use crate::{cx::*, kern::*, util::*, views, elementwise};
use hodu_core::prelude::*;
use hodu_cpu_kernels as k;
use k::Kernel;

fn e(b: &[u8], i: usize, w: usize) -> Vec<u8> { el(b, i, w).to_vec() }
fn nm(op: &str, dt: &str) -> Kernel { Kernel(leak(format!("hodu_cpu_{}_{}", op, dt))) }
fn idx_bytes(v: &[i32]) -> Vec<u8> { v.iter().flat_map(|x| x.to_ne_bytes()).collect() }
/// indices along an axis of extent n: valid ones, negative ones, and now and then far or barely out of range
fn indices(cx: &mut Cx, n: usize, k: usize) -> Vec<i32> {
    let wild = cx.rng.below(3) == 0; let n = n as i64;
    (0..k).map(|_| (if wild && cx.rng.below(3) == 0 { *cx.rng.pick(&[n, -n - 1, i32::MAX as i64, i32::MIN as i64, n + 3, -n - 7]) } else if n == 0 { 0 } else { cx.rng.range(-n, n - 1) }) as i32).collect()
}
fn resolve(i: i32, n: usize) -> Option<usize> { axis(i as i64, n) }

fn select(cx: &mut Cx, dt: &str, r: usize) {
    let d = dims0(cx, r, 4); let l = lay(cx, &d); let (w, low, ax) = (size_of(dt), cx.rng.flip(), cx.rng.below(r));
    let x = fill(cx, dt, l.extent()); let ni = cx.rng.below(5); let ix = indices(cx, d[ax], ni);
    cx.case("index_select kernel", (dt, &l, ax, &ix), || {
        let mut od = d.clone(); od[ax] = ni; let n: usize = od.iter().product();
        let mut m = vec![n, r]; m.extend(&d); m.extend(&l.s); m.extend([l.o, ax, ni]);
        let o = guarded(&[&x, &idx_bytes(&ix)], &[n * w], low, |i, o| k::call_ops_index_select(nm("index_select", dt), i[0], i[1] as _, o[0], &m).unwrap())?;
        placed(w, &o[0], &coords(&od).iter().map(|c| { let mut c = c.clone(); match resolve(ix[c[ax]], d[ax]) { Some(t) => { c[ax] = t; e(&x, l.at(&c), w) }, None => vec![0; w] } }).collect::<Vec<_>>())
    });
}
fn put(cx: &mut Cx, dt: &str, r: usize) {
    let d = dims0(cx, r, 4); let l = lay(cx, &d); let (w, low, ax) = (size_of(dt), cx.rng.flip(), cx.rng.below(r));
    let ni = cx.rng.below(5); let ix = indices(cx, d[ax], ni); let mut vd = d.clone(); vd[ax] = ni; let v = lay(cx, &vd);
    let (x, y) = (fill(cx, dt, l.extent()), fill(cx, dt, v.extent()));
    cx.case("index_put kernel", (dt, &l, &v, ax, &ix), || {
        let mut m = vec![l.n(), r]; m.extend(&d); m.extend(&l.s); m.extend(&v.s); m.extend([l.o, v.o, ax, ni]);
        let o = guarded(&[&x, &idx_bytes(&ix), &y], &[l.n() * w], low, |i, o| k::call_ops_index_put(nm("index_put", dt), i[0], i[1] as _, i[2], o[0], &m).unwrap())?;
        for (i, c) in coords(&d).iter().enumerate() {
            let g = el(&o[0], i, w);
            let sent: Vec<Vec<u8>> = (0..ni).filter(|&j| resolve(ix[j], d[ax]) == Some(c[ax])).map(|j| { let mut c = c.clone(); c[ax] = j; e(&y, v.at(&c), w) }).collect();
            if sent.is_empty() { let want = el(&x, l.at(c), w); ensure(g == want, || format!("unaddressed element {:?} is {:?}, input has {:?}", c, g, want))?; }
            else { ensure(sent.iter().any(|s| &s[..] == g), || format!("element {:?} is {:?}, the values sent to it are {:?}", c, g, sent))?; }
        }
        Ok(())
    });
}
fn gather(cx: &mut Cx, dt: &str, r: usize) {
    let d = dims0(cx, r, 4); let l = lay(cx, &d); let (w, low, ax) = (size_of(dt), cx.rng.flip(), cx.rng.below(r));
    let id: Vec<usize> = (0..r).map(|i| if i == ax { cx.rng.below(5) } else { cx.rng.below(d[i] + 1) }).collect(); let il = lay(cx, &id);
    let ix = indices(cx, d[ax], il.extent());
    let x = fill(cx, dt, l.extent());
    cx.case("gather kernel", (dt, &l, &il, ax, &ix), || {
        let mut m = vec![il.n(), r]; m.extend(&id); m.extend(&d); m.extend(&l.s); m.extend(&il.s); m.extend([l.o, il.o, ax]);
        let o = guarded(&[&x, &idx_bytes(&ix)], &[il.n() * w], low, |i, o| k::call_ops_gather(nm("gather", dt), i[0], i[1] as _, o[0], &m).unwrap())?;
        placed(w, &o[0], &coords(&id).iter().map(|c| match resolve(ix[il.at(c)], d[ax]) { Some(t) => { let mut c = c.clone(); c[ax] = t; e(&x, l.at(&c), w) }, None => vec![0; w] }).collect::<Vec<_>>())
    });
}
/// what a combining scatter does to one element
fn combine(op: &str, dt: &str, old: &[u8], new: &[u8]) -> Vec<u8> {
    let f = |o: &str| elementwise::Op { kind: elementwise::Kind::Binary, op: leak(o.to_string()), dt: leak(dt.to_string()), out: leak(dt.to_string()) };
    match op { "scatter" => new.to_vec(), "scatter_add" => f("add").one(old, new), _ => {
        let (a, b) = if is_float(dt) { (to_f64(dt, old), to_f64(dt, new)) } else { (0.0, 0.0) };
        let take = if is_float(dt) { if op == "scatter_max" { b > a } else { b < a } } else { let (a, b) = (to_i128(dt, old), to_i128(dt, new)); if op == "scatter_max" { b > a } else { b < a } };
        if take { new.to_vec() } else { old.to_vec() } } }
}
fn scatter(cx: &mut Cx, dt: &str, r: usize, op: &'static str) {
    if dt == "bool" && op != "scatter" { return; }
    let d = dims0(cx, r, 4); let l = lay(cx, &d); let (w, low, ax) = (size_of(dt), cx.rng.flip(), cx.rng.below(r));
    let sd: Vec<usize> = (0..r).map(|i| if i == ax { cx.rng.below(5) } else { cx.rng.below(d[i] + 1) }).collect();
    let (s, il) = (lay(cx, &sd), lay(cx, &sd));
    let ix = indices(cx, d[ax], il.extent());
    let (x, y) = (fill(cx, dt, l.extent()), fill(cx, dt, s.extent()));
    cx.case(leak(format!("{} kernel", op)), (dt, &l, &s, &il, ax, &ix), || {
        let mut m = vec![s.n(), r]; m.extend(&d); m.extend(&l.s); m.extend(&sd); m.extend(&s.s); m.extend(&il.s); m.extend([l.o, s.o, il.o, ax]);
        let o = guarded(&[&x, &idx_bytes(&ix), &y], &[l.n() * w], low, |i, o| k::call_ops_scatter(nm(op, dt), i[0], i[1] as _, i[2], o[0], &m).unwrap())?;
        let mut want: Vec<Vec<u8>> = coords(&d).iter().map(|c| e(&x, l.at(c), w)).collect();
        let rm = row_major(&d);
        for c in coords(&sd) { if let Some(t) = resolve(ix[il.at(&c)], d[ax]) { let mut q = c.clone(); q[ax] = t; let a = addr(&q, &rm, 0); want[a] = combine(op, dt, &want[a], el(&y, s.at(&c), w)); } }
        for (i, x) in want.iter().enumerate() { let g = el(&o[0], i, w); ensure(same(dt, g, x), || format!("element {} is {:?}, should be {:?}", i, g, x))?; }
        Ok(())
    });
}
fn onehot(cx: &mut Cx, dt: &str, r: usize) {
    let d = dims0(cx, r, 4); let n: usize = d.iter().product(); let (w, low, ax, ncl) = (size_of(dt), cx.rng.flip(), cx.rng.below(r + 1), cx.rng.below(6));
    let ix = indices(cx, ncl, n);
    cx.case("onehot kernel", (dt, &d, ax, ncl, &ix), || {
        let mut od = d.clone(); od.insert(ax, ncl); let no: usize = od.iter().product();
        let mut m = vec![no, n, ncl, ax, r + 1]; m.extend(&od);
        let o = guarded(&[&idx_bytes(&ix)], &[no * w], low, |i, o| k::call_ops_onehot(nm("onehot", dt), i[0] as _, o[0], &m).unwrap())?;
        let st = row_major(&d);
        for (i, c) in coords(&od).iter().enumerate() {
            let mut q = c.clone(); let cl = q.remove(ax);
            let on = resolve(ix[addr(&q, &st, 0)], ncl) == Some(cl);
            let g = el(&o[0], i, w);
            let v = if is_float(dt) { to_f64(dt, g) } else { to_i128(dt, g) as f64 };
            ensure(v == on as u8 as f64, || format!("element {:?} is {}", c, v))?;
        }
        Ok(())
    });
}
const SC: [&str; 4] = ["scatter", "scatter_add", "scatter_max", "scatter_min"];

fn tensors<T: views::Elem>(cx: &mut Cx) {
    use views::*;
    let r = 1 + cx.rng.below(3); let d = rand_dims(cx, r, 4); let n = numel(&d); let st = row_major(&d);
    let vals: Vec<T> = rand_vals(cx, n, 0, 60);
    let (t, how) = if cx.rng.below(5) == 0 { // a broadcast view: fewer stored elements than logical ones
        let mut b = d.clone(); let q = cx.rng.below(r); b[q] = 1; let v: Vec<T> = rand_vals(cx, numel(&b), 0, 60); (T::mk(v, &b).broadcast(&d[..]).unwrap(), format!("broadcast on axis {}", q)) } else { any_view(cx, &d, &vals) };
    let vals = T::get(&t).unwrap();
    let ax = cx.rng.below(r); let sax = if cx.rng.flip() { ax as i32 } else { ax as i32 - r as i32 };
    let inp = (T::DT, &d, &how, &vals, sax);
    let chk = |t: &Tensor, od: &[usize], want: Vec<T>| -> Result<(), String> { eq("extents", t.shape().dims().to_vec(), od.to_vec())?; eq("elements", T::get(t)?, want) };
    let ni = 1 + cx.rng.below(4); let ix = indices(cx, d[ax], ni); let (it, ih) = any_view(cx, &[ni], &ix);
    let mut vd = d.clone(); vd[ax] = ni;
    cx.case("Tensor::index_select", (inp, &ix, &ih), || chk(&er(t.index_select(sax, &it))?, &vd, coords(&vd).iter().map(|c| { let mut c = c.clone(); match resolve(ix[c[ax]], d[ax]) { Some(t) => { c[ax] = t; vals[addr(&c, &st, 0)] }, None => T::of(0) } }).collect()));
    let vv: Vec<T> = rand_vals(cx, numel(&vd), 60, 99); let (vt, vh) = any_view(cx, &vd, &vv);
    cx.case("Tensor::index_put", (inp, &ix, &ih, &vv, &vh), || {
        let o = er(t.index_put(sax, &it, &vt))?; eq("extents", o.shape().dims().to_vec(), d.clone())?; let g = T::get(&o)?; eq("elements", g.len(), n)?;
        for (i, c) in coords(&d).iter().enumerate() {
            let sent: Vec<T> = (0..ni).filter(|&j| resolve(ix[j], d[ax]) == Some(c[ax])).map(|j| { let mut c = c.clone(); c[ax] = j; vv[addr(&c, &row_major(&vd), 0)] }).collect();
            if sent.is_empty() { eq("unaddressed element", g[i], vals[i])?; } else { ensure(sent.contains(&g[i]), || format!("element {:?} is {:?}, sent {:?}", c, g[i], sent))?; }
        }
        Ok(())
    });
    let gd: Vec<usize> = (0..r).map(|i| if i == ax { 1 + cx.rng.below(4) } else { 1 + cx.rng.below(d[i]) }).collect();
    let gi = indices(cx, d[ax], numel(&gd)); let (gt, gh) = any_view(cx, &gd, &gi);
    cx.case("Tensor::gather", (inp, &gd, &gi, &gh), || chk(&er(t.gather(sax, &gt))?, &gd, coords(&gd).iter().enumerate().map(|(i, c)| match resolve(gi[i], d[ax]) { Some(t) => { let mut c = c.clone(); c[ax] = t; vals[addr(&c, &st, 0)] }, None => T::of(0) }).collect()));
    let sv: Vec<T> = rand_vals(cx, numel(&gd), 0, 60); let (s_t, sh) = any_view(cx, &gd, &sv);
    for op in SC {
        if T::DT == DType::BOOL && op != "scatter" { continue; }
        cx.case(leak(format!("Tensor::{}", op)), (inp, &gd, &gi, &gh, &sv, &sh), || {
            let o = er(match op { "scatter" => t.scatter(sax, &gt, &s_t), "scatter_add" => t.scatter_add(sax, &gt, &s_t), "scatter_max" => t.scatter_max(sax, &gt, &s_t), _ => t.scatter_min(sax, &gt, &s_t) })?;
            let mut want: Vec<T> = vals.clone();
            let dt = T::DT.to_string();
            let b = |x: T| unsafe { std::slice::from_raw_parts(&x as *const T as *const u8, std::mem::size_of::<T>()).to_vec() };
            for (i, c) in coords(&gd).iter().enumerate() { if let Some(p) = resolve(gi[i], d[ax]) { let mut q = c.clone(); q[ax] = p; let a = addr(&q, &st, 0); let w = combine(op, &dt, &b(want[a]), &b(sv[i])); want[a] = unsafe { (w.as_ptr() as *const T).read_unaligned() }; } }
            chk(&o, &d, want)
        });
    }
    // shapes that would address elements that are not there
    let mut big = gd.clone(); let q = cx.rng.below(r); big[q] = if q == ax { 2 } else { d[q] + 1 };
    let (bi, bv) = (Tensor::from_slice(vec![0i32; numel(&big)], &big).unwrap(), T::mk(vec![T::of(1); numel(&big)], &big));
    cx.case("index shapes refused", (inp, &big), || {
        if q != ax { ensure(t.gather(sax, &bi).is_err(), || "gather accepted indices larger than the input".into())?; ensure(t.scatter(sax, &bi, &bv).is_err(), || "scatter accepted a source larger than the input".into())?; }
        let mut small = big.clone(); small[q] = 1;
        if big[q] > 1 { let si = Tensor::from_slice(vec![0i32; numel(&small)], &small).unwrap(); ensure(t.scatter(sax, &si, &bv).is_err(), || "scatter accepted a source larger than the indices".into())?; }
        let mut rk = d.clone(); rk.push(1); let ri = Tensor::from_slice(vec![0i32; n], &rk).unwrap(); let rv = T::mk(vals.clone(), &rk);
        ensure(t.gather(sax, &ri).is_err() && t.scatter(sax, &ri, &rv).is_err(), || "accepted a different rank".into())?;
        let mut wv = vd.clone(); wv[ax] += 1; let wt = T::mk(vec![T::of(1); numel(&wv)], &wv); ensure(t.index_put(sax, &it, &wt).is_err(), || "index_put accepted values that do not match its indices".into())?;
        ensure(t.gather(r as i32, &gt).is_err() && t.index_select(-(r as i32) - 1, &it).is_err(), || "accepted an axis out of range".into())
    });
    let ncl = 1 + cx.rng.below(5); let oi = indices(cx, ncl, n); let (ot, oh) = any_view(cx, &d, &oi); let oax = cx.rng.below(r + 1); let soax = if cx.rng.flip() { oax as i32 } else { oax as i32 - r as i32 - 1 };
    cx.case("Tensor::onehot", (T::DT, &d, &oi, oh, ncl, soax), || { let mut od = d.clone(); od.insert(oax, ncl); chk(&er(ot.onehot(ncl, soax, T::DT))?, &od, coords(&od).iter().map(|c| { let mut c = c.clone(); let k = c.remove(oax); T::of((resolve(oi[addr(&c, &st, 0)], ncl) == Some(k)) as i64) }).collect()) });
}
macro_rules! each { ($f:ident, $cx:expr) => { $f::<f32>($cx); $f::<i32>($cx); $f::<u8>($cx); $f::<bool>($cx); $f::<f64>($cx); $f::<i64>($cx); $f::<half::f16>($cx); $f::<half::bf16>($cx); $f::<float8::F8E4M3>($cx); $f::<float8::F8E5M2>($cx); $f::<i8>($cx); $f::<i16>($cx); $f::<u16>($cx); $f::<u32>($cx); $f::<u64>($cx); } }
pub fn run(cx: &mut Cx) {
    let kernels = |cx: &mut Cx, dt: &str, r: usize| { if r > 0 { select(cx, dt, r); put(cx, dt, r); gather(cx, dt, r); for op in SC { scatter(cx, dt, r, op); } } onehot(cx, dt, r); };
    for (dt, _) in DT { for r in 0..4 { for _ in 0..3 { kernels(cx, dt, r); } } }
    for _ in 0..2 { each!(tensors, cx); }
    while cx.more() { for _ in 0..20 { let dt = any_dt(cx); let r = cx.rng.below(6); kernels(cx, dt, r); } each!(tensors, cx); }
}
