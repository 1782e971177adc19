//! Matrix products and einsum sum exactly the matching products.
use crate::{cx::*, kern::*, util::*, views};
use hodu_core::prelude::*;
use hodu_cpu_kernels as k;
use k::Kernel;

fn nm(op: &str, dt: &str) -> Kernel { Kernel(leak(format!("hodu_cpu_{}_{}", op, dt))) }
const NUM: [&str; 14] = ["f32", "f64", "i32", "f16", "bf16", "f8e4m3", "f8e5m2", "u8", "u16", "u32", "u64", "i8", "i16", "i64"];
fn of(dt: &str, v: i64) -> Vec<u8> {
    let f = v as f32;
    match dt { "f32" => f.to_ne_bytes().to_vec(), "f64" => (v as f64).to_ne_bytes().to_vec(), "f16" => half::f16::from_f32(f).to_bits().to_ne_bytes().to_vec(), "bf16" => half::bf16::from_f32(f).to_bits().to_ne_bytes().to_vec(),
        "f8e4m3" => vec![float8::F8E4M3::from_f32(f).to_bits()], "f8e5m2" => vec![float8::F8E5M2::from_f32(f).to_bits()], _ => v.to_ne_bytes()[..size_of(dt)].to_vec() }
}
/// small integers; `terms` bounds how many are summed, so that every partial sum stays exact in the type
fn small(cx: &mut Cx, dt: &str, n: usize, terms: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        let x = if is_int(dt) { cx.rng.next() as i64 >> cx.rng.below(60) } else { match dt {
            "f8e4m3" | "f8e5m2" | "bf16" | "f16" => { let lim = match dt { "f8e5m2" => 8, "f8e4m3" => 16, "bf16" => 256, _ => 2048 }; if terms > lim && cx.rng.below(terms) * 2 > lim { 0 } else { cx.rng.range(-1, 1) } },
            _ => cx.rng.range(-7, 7) } };
        v.extend(of(dt, x));
    }
    v
}
/// exact value of a sum of products, in the element type (empty: partial sums need not be exact)
fn sum_of(dt: &str, terms: &mut dyn Iterator<Item = Vec<Vec<u8>>>) -> Vec<u8> {
    if is_int(dt) { let mut s = 0i128; for t in terms { let mut p = 1i128; for x in &t { p = p.wrapping_mul(to_i128(dt, x)) & ((1 << 64) - 1); } s = s.wrapping_add(p); } s.to_le_bytes()[..size_of(dt)].to_vec() }
    else { let (mut s, mut a) = (0f64, 0f64); for t in terms { let p: f64 = t.iter().map(|x| to_f64(dt, x)).product(); s += p; a += p.abs(); } if a > match dt { "f8e5m2" => 8.0, "f8e4m3" => 16.0, "bf16" => 256.0, "f16" => 2048.0, _ => 1e7 } { vec![] } else { of(dt, s as i64) } }
}
fn agree(dt: &str, at: &[usize], got: &[u8], want: &[u8]) -> Result<(), String> {
    if want.is_empty() { return Ok(()); }
    if is_int(dt) { ensure(got == want, || format!("output {:?} is {}, should be {}", at, to_i128(dt, got), to_i128(dt, want))) }
    else { let (g, w) = (to_f64(dt, got), to_f64(dt, want)); ensure(g == w, || format!("output {:?} is {}, should be {}", at, g, w)) }
}
/// extents of one matrix axis: small, or now and then around block and thread boundaries
fn ext(cx: &mut Cx, big: bool) -> usize { if big { *cx.rng.pick(&[1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65]) } else if cx.rng.below(16) == 0 { 0 } else { 1 + cx.rng.below(5) } }
fn matmul(cx: &mut Cx, dt: &'static str, big: bool) {
    let rows_big = big && cx.rng.below(4) == 0;
    let (m, kk, n) = (if rows_big { *cx.rng.pick(&[127, 128, 129, 255, 256, 257, 300]) } else { ext(cx, big) }, if rows_big { 1 + cx.rng.below(4) } else { ext(cx, big) }, if rows_big { 1 + cx.rng.below(3) } else { ext(cx, big) });
    let nb = if rows_big { 0 } else { cx.rng.below(4) };
    let bd: Vec<usize> = (0..nb).map(|_| if cx.rng.below(16) == 0 { 0 } else { 1 + cx.rng.below(3) }).collect();
    let part = |cx: &mut Cx| { let k = if nb == 0 { 0 } else { cx.rng.below(nb + 1) }; bd[nb - k..].iter().map(|&x| if cx.rng.below(3) == 0 { 1 } else { x }).collect::<Vec<_>>() };
    let (pa, pb) = (part(cx), part(cx));
    let bd = match broadcast(&pa, &pb) { Some(b) => b, None => return }; let nb = bd.len();
    let (mut da, mut db) = (pa.clone(), pb.clone()); da.extend([m, kk]); db.extend([kk, n]);
    let (a, b) = (lay(cx, &da), lay(cx, &db)); let (w, low) = (size_of(dt), cx.rng.flip());
    if a.extent() + b.extent() > 400000 { return; }
    let (x, y) = (small(cx, dt, a.extent(), kk), small(cx, dt, b.extent(), kk));
    cx.case("matmul kernel", (dt, &a, &b, &bd), || {
        let mut od = bd.clone(); od.extend([m, n]); let no: usize = od.iter().product();
        let mut me = vec![no, da.len(), db.len(), nb]; me.extend(&da); me.extend(&db); me.extend(&bd); me.extend(&a.s); me.extend(&b.s); me.extend([a.o, b.o, m, kk, n]);
        let o = guarded(&[&x, &y], &[no * w], low, |i, o| k::call_ops_matmul(nm("matmul", dt), i[0], i[1], o[0], &me).unwrap())?;
        for (i, c) in coords(&od).iter().enumerate() {
            let pick = |d: &[usize], l: &L, p: usize, q: usize| { let r = d.len() - 2; let mut f: Vec<usize> = (0..r).map(|j| if d[j] == 1 { 0 } else { c[nb - r + j] }).collect(); f.extend([p, q]); l.at(&f) };
            let want = sum_of(dt, &mut (0..kk).map(|t| vec![el(&x, pick(&da, &a, c[nb], t), w).to_vec(), el(&y, pick(&db, &b, t, c[nb + 1]), w).to_vec()]));
            agree(dt, c, el(&o[0], i, w), &want)?;
        }
        Ok(())
    });
}
fn dot(cx: &mut Cx, dt: &'static str, big: bool) {
    let rows_big = big && cx.rng.below(3) == 0;
    let (m, kk, n) = (if rows_big { *cx.rng.pick(&[127, 128, 129, 256, 257, 300]) } else { ext(cx, big) }, ext(cx, big), if rows_big { 1 + cx.rng.below(9) } else { ext(cx, big) });
    let (a, b) = (lay(cx, &[m, kk]), lay(cx, &[kk, n])); let (w, low) = (size_of(dt), cx.rng.flip());
    let (x, y) = (small(cx, dt, a.extent(), kk), small(cx, dt, b.extent(), kk));
    cx.case("dot kernel", (dt, &a, &b), || {
        let me = [m, kk, n, a.s[0], a.s[1], b.s[0], b.s[1], a.o, b.o];
        let o = guarded(&[&x, &y], &[m * n * w], low, |i, o| k::call_ops_dot(nm("dot", dt), i[0], i[1], o[0], &me).unwrap())?;
        for i in 0..m { for j in 0..n { agree(dt, &[i, j], el(&o[0], i * n + j, w), &sum_of(dt, &mut (0..kk).map(|t| vec![el(&x, a.at(&[i, t]), w).to_vec(), el(&y, b.at(&[t, j]), w).to_vec()])))?; } }
        Ok(())
    });
}
/// a random equation: operand subscripts over `ni` indices with extents, and an output of distinct occurring indices
fn equation(cx: &mut Cx, max_in: usize) -> (Vec<Vec<usize>>, Vec<usize>, Vec<usize>) {
    let ni = 1 + cx.rng.below(6); let sz: Vec<usize> = (0..ni).map(|_| if cx.rng.below(16) == 0 { 0 } else { 1 + cx.rng.below(3) }).collect();
    let ins: Vec<Vec<usize>> = (0..1 + cx.rng.below(max_in)).map(|_| { let r = cx.rng.below(4); (0..r).map(|_| cx.rng.below(ni)).collect() }).collect();
    let mut used: Vec<usize> = ins.concat(); used.sort(); used.dedup(); cx.rng.shuffle(&mut used); let no = cx.rng.below(used.len() + 1); used.truncate(no.min(5));
    (ins, used, sz)
}
fn einsum(cx: &mut Cx, dt: &'static str) {
    let (ins, out, sz) = equation(cx, 4); let (w, low) = (size_of(dt), cx.rng.flip());
    let mut seen: Vec<usize> = vec![]; for i in ins.concat() { if !seen.contains(&i) { seen.push(i); } }
    let con: Vec<usize> = seen.iter().filter(|i| !out.contains(i)).cloned().collect();
    let id = |i: usize| seen.iter().position(|&x| x == i).unwrap();
    let ls: Vec<L> = ins.iter().map(|s| { let d: Vec<usize> = s.iter().map(|&i| sz[i]).collect(); lay(cx, &d) }).collect();
    let terms: usize = con.iter().map(|&i| sz[i]).product();
    if terms > 100 || (terms > 16 && size_of(dt) == 1) || ls.iter().any(|l| l.extent() > 5000) { return; }
    let xs: Vec<Vec<u8>> = ls.iter().map(|l| small(cx, dt, l.extent(), terms)).collect();
    cx.case("einsum kernel", (dt, &ins, &out, &ls), || {
        let od: Vec<usize> = out.iter().map(|&i| sz[i]).collect(); let no: usize = od.iter().product();
        let mut m = vec![no, ins.len(), seen.len(), con.len(), out.len()]; m.extend(&od);
        for (s, l) in ins.iter().zip(&ls) { m.push(s.len()); m.extend(&l.d); m.extend(&l.s); m.push(l.o); m.extend(s.iter().map(|&i| id(i))); }
        m.extend(con.iter().map(|&i| id(i))); m.extend(seen.iter().map(|&i| sz[i])); m.extend(out.iter().map(|&i| id(i)));
        let refs: Vec<&[u8]> = xs.iter().map(|v| &v[..]).collect();
        let o = guarded(&refs, &[no * w], low, |i, o| k::call_ops_einsum(nm("einsum", dt), i, o[0], &m).unwrap())?;
        let cd: Vec<usize> = con.iter().map(|&i| sz[i]).collect(); let cc = coords(&cd);
        for (i, c) in coords(&od).iter().enumerate() {
            let want = sum_of(dt, &mut cc.iter().map(|q| { let v = |i: usize| out.iter().position(|&o| o == i).map(|p| c[p]).or_else(|| con.iter().position(|&o| o == i).map(|p| q[p])).unwrap();
                ins.iter().enumerate().map(|(t, s)| { let f: Vec<usize> = s.iter().map(|&i| v(i)).collect(); el(&xs[t], ls[t].at(&f), w).to_vec() }).collect::<Vec<_>>() }));
            agree(dt, c, el(&o[0], i, w), &want)?;
        }
        Ok(())
    });
}
fn bytes<T: Copy>(x: &T) -> Vec<u8> { unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()).to_vec() } }
fn vals<T: views::Elem>(cx: &mut Cx, n: usize) -> Vec<T> { let f8 = matches!(T::DT, DType::F8E4M3 | DType::F8E5M2); (0..n).map(|_| T::of(if T::DT.to_string().starts_with('u') { cx.rng.range(0, 3) } else if f8 { cx.rng.range(-1, 1) } else { cx.rng.range(-3, 3) })).collect() }
fn tensors<T: views::Elem>(cx: &mut Cx) {
    use views::*;
    let dt: &'static str = leak(T::DT.to_string());
    let chk = |o: &Tensor, od: &[usize], f: &dyn Fn(&[usize]) -> Vec<u8>| -> Result<(), String> { eq("extents", o.shape().dims().to_vec(), od.to_vec())?; let g = T::get(o)?; eq("elements", g.len(), numel(od))?; for (i, c) in coords(od).iter().enumerate() { agree(dt, c, &bytes(&g[i]), &f(c))?; } Ok(()) };
    // matmul and dot over all rank combinations
    let (m, kk, n) = (1 + cx.rng.below(4), 1 + cx.rng.below(4), 1 + cx.rng.below(4));
    let (ra, rb) = (1 + cx.rng.below(4), 1 + cx.rng.below(4));
    let bd = rand_dims(cx, 3, 3);
    let mk = |cx: &mut Cx, r: usize, tail: &[usize], vec: usize| -> Vec<usize> { if r == 1 { vec![vec] } else { let mut d: Vec<usize> = bd[3 - (r - 2).min(3)..].iter().map(|&x| if cx.rng.below(3) == 0 { 1 } else { x }).collect(); d.extend(tail); d } };
    let (da, db) = (mk(cx, ra, &[m, kk], kk), mk(cx, rb, &[kk, n], kk));
    let (va, vb): (Vec<T>, Vec<T>) = (vals(cx, numel(&da)), vals(cx, numel(&db)));
    let (ta, ha) = any_view(cx, &da, &va); let (tb, hb) = any_view(cx, &db, &vb);
    let (sa, sb) = (row_major(&da), row_major(&db));
    let inp = (dt, &da, &db, ha, hb, &va, &vb);
    let prod = |i: usize, j: usize, c: &[usize], t: usize| -> Vec<Vec<u8>> {
        let f = |d: &[usize], s: &[usize], tail: &[usize]| { if d.len() == 1 { return t; } let r = d.len() - 2; let mut q: Vec<usize> = (0..r).map(|x| if d[x] == 1 { 0 } else { c[c.len() - r + x] }).collect(); q.extend(tail); addr(&q, s, 0) };
        vec![bytes(&va[f(&da, &sa, &[i, t])]), bytes(&vb[f(&db, &sb, &[t, j])])] };
    let (ba, bb): (&[usize], &[usize]) = (if ra > 1 { &da[..ra - 2] } else { &[] }, if rb > 1 { &db[..rb - 2] } else { &[] });
    let bo = broadcast(ba, bb);
    cx.case("Tensor::matmul", &inp, || {
        let mut od = bo.clone().unwrap_or_default(); let nb = od.len(); if ra > 1 { od.push(m); } if rb > 1 { od.push(n); }
        match ta.matmul(&tb) { Err(e) => ensure(ra == 1 && rb > 2 || rb == 1 && ra > 2 || bo.is_none(), || format!("refused: {}", e)), Ok(o) => { ensure(bo.is_some(), || "accepted incompatible batches".into())?; chk(&o, &od, &|c| { let (b, rest) = c.split_at(nb); let i = if ra > 1 { rest[0] } else { 0 }; let j = if rb > 1 { rest[rest.len() - 1] } else { 0 }; sum_of(dt, &mut (0..kk).map(|t| prod(i, j, b, t))) }) } }
    });
    cx.case("Tensor::dot", &inp, || match ta.dot(&tb) { Err(e) => ensure(ra > 2 || rb > 2, || format!("refused: {}", e)), Ok(o) => { let mut od = vec![]; if ra > 1 { od.push(m); } if rb > 1 { od.push(n); } if ra > 2 || rb > 2 { return Ok(()); } chk(&o, &od, &|c| { let i = if ra > 1 { c[0] } else { 0 }; let j = if rb > 1 { c[c.len() - 1] } else { 0 }; sum_of(dt, &mut (0..kk).map(|t| prod(i, j, &[], t))) }) } });
    cx.case("mismatched inner extents", &inp, || { let mut d = da.clone(); *d.last_mut().unwrap() += 1; let t = T::mk(vec![T::of(1); numel(&d)], &d); ensure(t.matmul(&tb).is_err() && t.dot(&tb).is_err(), || "accepted operands whose inner extents differ".into()) });
    // einsum
    let (ins, out, sz) = equation(cx, 6); let sz: Vec<usize> = sz.iter().map(|&x| x.max(1)).collect();
    let letters: Vec<char> = { let mut l: Vec<char> = "abcdefghijklmnopqrstuvwxyz".chars().collect(); cx.rng.shuffle(&mut l); l };
    let mut text: String = ins.iter().map(|s| s.iter().map(|&i| letters[i]).collect::<String>()).collect::<Vec<_>>().join(","); 
    let implicit = cx.rng.below(4) == 0;
    let out: Vec<usize> = if implicit { let all = ins.concat(); let mut o: Vec<usize> = (0..sz.len()).filter(|i| all.iter().filter(|x| *x == i).count() == 1).collect(); o.sort_by_key(|&i| letters[i]); o } else { text.push_str("->"); text.extend(out.iter().map(|&i| letters[i])); out };
    let ops: Vec<(Tensor, String, Vec<T>, Vec<usize>)> = ins.iter().map(|s| { let d: Vec<usize> = s.iter().map(|&i| sz[i]).collect(); let v: Vec<T> = vals(cx, numel(&d)); let (t, h) = any_view(cx, &d, &v); (t, h, v, d) }).collect();
    let mut con: Vec<usize> = ins.concat(); con.sort(); con.dedup(); con.retain(|i| !out.contains(i));
    let od: Vec<usize> = out.iter().map(|&i| sz[i]).collect(); let cd: Vec<usize> = con.iter().map(|&i| sz[i]).collect(); let cc = coords(&cd);
    if cc.len() > 16 && matches!(T::DT, DType::F8E4M3 | DType::F8E5M2 | DType::BF16 | DType::F16) || cc.len() > 300 { return; }
    if matches!(T::DT, DType::F8E4M3 | DType::F8E5M2) && cc.len() > 8 { return; }
    if ins.len() > 3 && is_float(dt) && size_of(dt) < 4 { return; }
    cx.case("Tensor::einsum", (dt, &text, &sz, ops.iter().map(|o| (&o.1, &o.2)).collect::<Vec<_>>()), || {
        let refs: Vec<&Tensor> = ops.iter().map(|o| &o.0).collect();
        let o = match Tensor::einsum(&text, &refs) { Err(e) => return ensure(ins.len() > 4 || ins.iter().all(|s| s.is_empty()), || format!("refused: {}", e)), Ok(o) => o };
        chk(&o, &od, &|c| sum_of(dt, &mut cc.iter().map(|q| { let v = |i: usize| out.iter().position(|&o| o == i).map(|p| c[p]).or_else(|| con.iter().position(|&o| o == i).map(|p| q[p])).unwrap(); ins.iter().enumerate().map(|(t, s)| { let f: Vec<usize> = s.iter().map(|&i| v(i)).collect(); bytes(&ops[t].2[addr(&f, &row_major(&ops[t].3), 0)]) }).collect() })))
    });
}
/// more indices than the kernel has room for
fn wide(cx: &mut Cx) {
    let l: String = "abcdefghijklmnopqrst".into(); let h = 10;
    let a = Tensor::from_slice(vec![1f32; 1], &[1; 10]).unwrap(); let b = Tensor::from_slice(vec![1f32; 2], &[1, 1, 1, 1, 1, 1, 1, 1, 1, 2]).unwrap();
    let eqn = format!("{},{}->", &l[..h], &l[h..]);
    cx.case("einsum with 20 indices", &eqn, || { match Tensor::einsum(&eqn, &[&a, &b]) { Err(_) => Ok(()), Ok(o) => eq("sum", o.to_flatten_vec::<f32>().unwrap(), vec![2.0]) } });
    for n in 1..9usize { let ops: Vec<Tensor> = (0..n).map(|i| Tensor::from_slice(vec![1f32, i as f32 + 1.0], &[2]).unwrap()).collect(); let eqn = format!("{}->i", vec!["i"; n].join(","));
        cx.case("einsum operand count", &eqn, || { match Tensor::einsum(&eqn, &ops.iter().collect::<Vec<_>>()) { Err(_) => ensure(n > 4, || "refused".into()), Ok(o) => eq("product", o.to_flatten_vec::<f32>().unwrap(), vec![1.0, (1..=n).product::<usize>() as f32]) } }); }
}
pub fn run(cx: &mut Cx) {
    wide(cx);
    for dt in NUM { for i in 0..6 { matmul(cx, dt, i > 3); dot(cx, dt, i > 3); einsum(cx, dt); } }
    while cx.more() {
        for _ in 0..20 { let dt = *cx.rng.pick(&NUM); let big = cx.rng.below(5) == 0; matmul(cx, dt, big); dot(cx, dt, big); for _ in 0..3 { einsum(cx, dt); } }
        macro_rules! each { ($($t:ty),*) => { $(tensors::<$t>(cx);)* } }
        each!(f32, f64, i8, i16, i32, i64, u8, u16, u32, u64, half::f16, half::bf16, float8::F8E4M3, float8::F8E5M2);
    }
}
