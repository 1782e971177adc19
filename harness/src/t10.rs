//! Reductions fold exactly the elements of their slice.
use crate::{cx::*, kern::*, util::*, views, elementwise};
use hodu_core::prelude::*;
use hodu_cpu_kernels as k;
use k::Kernel;

const OPS: [&str; 14] = ["sum", "prod", "max", "min", "argmax", "argmin", "any", "all", "mean", "var", "std", "norm", "logsum", "logsumexp"];
fn has(op: &str, dt: &str) -> bool { match op { "argmax" | "argmin" | "any" | "all" => true, "sum" | "prod" | "max" | "min" => dt != "bool", _ => is_float(dt) } }
fn out_dt<'a>(op: &str, dt: &'a str) -> &'a str { match op { "argmax" | "argmin" => "i32", "any" | "all" => "bool", _ => dt } }
/// element of the given type with the given small value
fn of(dt: &str, v: f64) -> Vec<u8> {
    match dt { "bool" => vec![(v != 0.0) as u8], "f32" => (v as f32).to_ne_bytes().to_vec(), "f64" => v.to_ne_bytes().to_vec(), "f16" => half::f16::from_f64(v).to_bits().to_ne_bytes().to_vec(), "bf16" => half::bf16::from_f64(v).to_bits().to_ne_bytes().to_vec(),
        "f8e4m3" => vec![float8::F8E4M3::from_f32(v as f32).to_bits()], "f8e5m2" => vec![float8::F8E5M2::from_f32(v as f32).to_bits()], _ => (v as i64).to_ne_bytes()[..size_of(dt)].to_vec() }
}
/// the fold of one slice (elements in reduction order, `first` = extent of the first reduced axis): Ok(exact bytes) or Err(value within tolerance)
fn fold(op: &str, dt: &str, xs: &[Vec<u8>], first: usize) -> Option<Result<Vec<u8>, (f64, f64)>> {
    let w = size_of(dt);
    let pos = |better: &dyn Fn(&[u8], &[u8]) -> bool| { let mut b = 0; for i in 1..xs.len() { if better(&xs[i], &xs[b]) { b = i; } } b / (xs.len() / first.max(1)).max(1) };
    if is_float(dt) {
        let f: Vec<f64> = xs.iter().map(|x| to_f64(dt, x)).collect();
        let n = f.len() as f64; let abs: f64 = f.iter().map(|x| x.abs()).sum(); let sq: f64 = f.iter().map(|x| x * x).sum();
        // a kernel that accumulates in the element type rounds once per element
        let u = match dt { "f16" => 0.0005, "bf16" => 0.004, "f8e4m3" => 0.0625, "f8e5m2" => 0.125, _ => 0.0 };
        let e = (elementwise::eps(dt) * (n + 4.0).sqrt().max(2.0)).max(1.5 * u * n); let s: f64 = f.iter().sum();
        let exact = |v: f64| Some(Ok(of(dt, v)));
        return match op {
            "any" => Some(Ok(vec![f.iter().any(|x| *x != 0.0) as u8])), "all" => Some(Ok(vec![f.iter().all(|x| *x != 0.0) as u8])),
            _ if f.iter().any(|x| x.is_nan()) => None,
            "max" => if xs.is_empty() { None } else { Some(Err((f.iter().cloned().fold(f64::NEG_INFINITY, f64::max), 0.0))) }, "min" => if xs.is_empty() { None } else { Some(Err((f.iter().cloned().fold(f64::INFINITY, f64::min), 0.0))) },
            "argmax" => if xs.is_empty() { None } else { Some(Ok((pos(&|a, b| to_f64(dt, a) > to_f64(dt, b)) as i32).to_ne_bytes().to_vec())) },
            "argmin" => if xs.is_empty() { None } else { Some(Ok((pos(&|a, b| to_f64(dt, a) < to_f64(dt, b)) as i32).to_ne_bytes().to_vec())) },
            "sum" if xs.is_empty() => exact(0.0), "prod" if xs.is_empty() => exact(1.0),
            _ if xs.is_empty() => None,
            _ if f.iter().any(|x| x.is_infinite()) => None,
            "sum" => Some(Err((s, e * abs))), "prod" => { let p: f64 = f.iter().product(); if p.abs() > elementwise::largest(dt) { None } else { Some(Err((p, e * p.abs() + 1e-3 * elementwise::eps(dt)))) } },
            "mean" => Some(Err((s / n, e * abs / n))),
            "var" => Some(Err((sq / n - (s / n) * (s / n), 2.0 * e * sq / n))),
            "std" => { let v = (sq / n - (s / n) * (s / n)).max(0.0); let d = 2.0 * e * sq / n; if v <= 2.0 * d { None } else { Some(Err((v.sqrt(), (v + d).sqrt() - (v - d).sqrt() + e * v.sqrt()))) } },
            "norm" => Some(Err((sq.sqrt(), 2.0 * e * sq.sqrt()))),
            "logsum" => if s <= abs * 0.3 || s <= 0.0 { None } else { Some(Err((s.ln(), 2.0 * e * (abs / s) + e * s.ln().abs() + e))) },
            _ => { let m = f.iter().cloned().fold(f64::NEG_INFINITY, f64::max); let v = m + f.iter().map(|x| (x - m).exp()).sum::<f64>().ln(); Some(Err((v, e * (v.abs() + m.abs() + 1.0) + e))) },
        };
    }
    let v: Vec<i128> = xs.iter().map(|x| to_i128(dt, x)).collect();
    let exact = |x: i128| Some(Ok(x.to_le_bytes()[..w].to_vec()));
    match op {
        "any" => Some(Ok(vec![v.iter().any(|x| *x != 0) as u8])), "all" => Some(Ok(vec![v.iter().all(|x| *x != 0) as u8])),
        "sum" => exact(v.iter().sum()), "prod" => exact(v.iter().fold(1i128, |a, b| { let p = a.wrapping_mul(*b); let m = 1i128 << (8 * w).min(100); p.rem_euclid(m) })),
        _ if xs.is_empty() => None,
        "max" => exact(*v.iter().max().unwrap()), "min" => exact(*v.iter().min().unwrap()),
        "argmax" => Some(Ok((pos(&|a, b| to_i128(dt, a) > to_i128(dt, b)) as i32).to_ne_bytes().to_vec())), "argmin" => Some(Ok((pos(&|a, b| to_i128(dt, a) < to_i128(dt, b)) as i32).to_ne_bytes().to_vec())),
        _ => None,
    }
}
fn check(op: &str, dt: &str, at: &[usize], got: &[u8], xs: &[Vec<u8>], first: usize) -> Result<(), String> {
    let odt = out_dt(op, dt);
    match fold(op, dt, xs, first) {
        None => Ok(()),
        Some(Ok(w)) => ensure(same(odt, got, &w), || format!("output {:?} is {:?}, the fold of {:?} is {:?}", at, got, xs, w)),
        Some(Err((v, tol))) => { let g = to_f64(odt, got); let over = v.abs() + tol >= elementwise::largest(dt) * 0.9;
            ensure(over || g == v || (g - v).abs() <= tol + elementwise::eps(dt) * 2.0 * v.abs() * (tol > 0.0) as u8 as f64 + elementwise::tiny(dt) * (tol > 0.0) as u8 as f64, || format!("output {:?} is {}, the fold of {:?} is {} (tolerance {})", at, g, xs, v, tol)) },
    }
}
/// values whose folds stay comfortable in the type
fn values(cx: &mut Cx, op: &str, dt: &str, n: usize) -> Vec<u8> {
    if !is_float(dt) || matches!(op, "max" | "min" | "argmax" | "argmin" | "any" | "all") && cx.rng.flip() { return fill(cx, dt, n); }
    let zeros = op == "any" || op == "all" && cx.rng.flip();
    let mut v = vec![]; let sparse = n > 64 && size_of(dt) < 4;
    for _ in 0..n { if sparse && op != "any" && op != "all" && op != "prod" && op != "logsum" && cx.rng.below(n) > 8 { v.extend(of(dt, 0.0)); continue; } let x = match op { "any" | "all" if zeros => [0.0, -0.0, 0.0, 0.0, 1.0][cx.rng.below(5)], "prod" => [1.0, -1.0, 1.0, 2.0, 0.5][cx.rng.below(if n > 8 { 3 } else { 5 })], "logsum" => 0.5 + cx.rng.below(4) as f64 * 0.5, _ if size_of(dt) < 4 => cx.rng.range(-2, 2) as f64 * 0.5, _ => cx.rng.range(-8, 8) as f64 * 0.25 }; v.extend(of(dt, x)); }
    v
}
fn kernel(cx: &mut Cx, op: &'static str, dt: &'static str, r: usize, big: bool) {
    let mut d = dims0(cx, r, if r > 4 { 2 } else { 4 });
    if big && r > 0 { let q = cx.rng.below(r); d[q] = 5 + cx.rng.below(70); if cx.rng.flip() { d[r - 1] = 5 + cx.rng.below(70); } if d.iter().product::<usize>() > 40000 { return; } }
    let l = lay(cx, &d); let (w, low, keep) = (size_of(dt), cx.rng.flip(), cx.rng.flip());
    let mut axes: Vec<usize> = (0..r).collect(); cx.rng.shuffle(&mut axes);
    let m = match cx.rng.below(4) { 0 => r, 1 => 1.min(r), _ => cx.rng.below(r + 1) }; axes.truncate(m);
    if big && cx.rng.flip() && r > 0 { axes = vec![r - 1]; }
    let rsz: usize = axes.iter().map(|&a| d[a]).product();
    if is_float(dt) && (size_of(dt) == 1 && rsz > 16 || size_of(dt) == 2 && rsz > 64 && (op == "logsum" || op == "logsumexp")) && !matches!(op, "max" | "min" | "argmax" | "argmin" | "any" | "all") { return; }
    let x = values(cx, op, dt, l.extent());
    cx.case(leak(format!("{} kernel", op)), (dt, &l, &axes, keep), || {
        let kept: Vec<usize> = (0..r).filter(|a| !axes.contains(a)).collect();
        let os: Vec<usize> = if keep { (0..r).map(|a| if axes.contains(&a) { 1 } else { d[a] }).collect() } else { kept.iter().map(|&a| d[a]).collect() };
        let no: usize = os.iter().product();
        let mut m = vec![r]; m.extend(&d); m.extend(&l.s); m.extend([l.o, os.len()]); m.extend(&os); m.push(axes.len()); m.extend(&axes); m.extend([keep as usize, rsz]);
        let ow = size_of(out_dt(op, dt));
        let o = guarded(&[&x], &[no * ow], low, |i, o| k::call_ops_reduce(Kernel(leak(format!("hodu_cpu_{}_{}", op, dt))), i[0], o[0], &m).unwrap())?;
        let rd: Vec<usize> = axes.iter().map(|&a| d[a]).collect();
        let rc = coords(&rd);
        for (i, c) in coords(&os).iter().enumerate() {
            let xs: Vec<Vec<u8>> = rc.iter().map(|q| { let mut f = vec![0; r]; for (j, &a) in kept.iter().enumerate() { f[a] = if keep { c[a] } else { c[j] }; } for (j, &a) in axes.iter().enumerate() { f[a] = q[j]; } el(&x, l.at(&f), w).to_vec() }).collect();
            check(op, dt, c, el(&o[0], i, ow), &xs, rd.first().copied().unwrap_or(1))?;
        }
        Ok(())
    });
}
fn tensors<T: views::Elem>(cx: &mut Cx) {
    use views::*;
    let r = cx.rng.below(4); let d = rand_dims(cx, r, if matches!(T::DT, DType::F8E4M3 | DType::F8E5M2) { 2 } else { 4 }); let n = numel(&d); let dt = T::DT.to_string(); let dt: &'static str = leak(dt);
    let (lo, hi) = if dt.starts_with('u') { (0, 3) } else if dt.starts_with("f8") { (-1, 1) } else { (-2, 2) };
    let vals: Vec<T> = rand_vals(cx, n, lo, hi);
    let (t, how) = any_view(cx, &d, &vals);
    let b = |x: &T| unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()).to_vec() };
    let mut axes: Vec<usize> = (0..r).collect(); cx.rng.shuffle(&mut axes); let m = cx.rng.below(r + 1); axes.truncate(m);
    let given: Vec<i32> = axes.iter().map(|&a| if cx.rng.flip() { a as i32 } else { a as i32 - r as i32 }).collect();
    let all = axes.is_empty(); let keep = cx.rng.flip();
    let set: Vec<usize> = if all { (0..r).collect() } else { axes.clone() };
    let os: Vec<usize> = (0..r).filter_map(|a| if set.contains(&a) { if keep { Some(1) } else { None } } else { Some(d[a]) }).collect();
    let kept: Vec<usize> = (0..r).filter(|a| !set.contains(a)).collect();
    let st = row_major(&d); let rd: Vec<usize> = set.iter().map(|&a| d[a]).collect(); let rc = coords(&rd);
    let slice = |c: &[usize]| -> Vec<Vec<u8>> { rc.iter().map(|q| { let mut f = vec![0; r]; for (j, &a) in kept.iter().enumerate() { f[a] = if keep { c[a] } else { c[j] }; } for (j, &a) in set.iter().enumerate() { f[a] = q[j]; } b(&vals[addr(&f, &st, 0)]) }).collect() };
    let inp = (dt, &d, &how, &vals, &given, keep);
    let prod_ok = dt != "f8e4m3" && dt != "f8e5m2" || rc.len() <= 4;
    for op in OPS {
        if !has(op, dt) { continue; }
        if op == "prod" && !prod_ok { continue; }
        cx.case(leak(format!("Tensor::{}", op)), (inp, &given), || {
            let o = er(match op { "sum" => t.sum(&given, keep), "prod" => t.prod(&given, keep), "max" => t.max(&given, keep), "min" => t.min(&given, keep), "argmax" => t.argmax(&given, keep), "argmin" => t.argmin(&given, keep), "any" => t.any(&given, keep), "all" => t.all(&given, keep),
                "mean" => t.mean(&given, keep), "var" => t.var(&given, keep), "std" => t.std(&given, keep), "norm" => t.norm(2, &given, keep), "logsum" => t.logsum(&given, keep), _ => t.logsumexp(&given, keep) })?;
            eq("extents", o.shape().dims().to_vec(), os.clone())?;
            eq("element type", o.dtype().to_string(), out_dt(op, dt).to_string())?;
            let got: Vec<Vec<u8>> = match out_dt(op, dt) { "i32" => i32::get(&o)?.iter().map(|x| x.to_ne_bytes().to_vec()).collect(), "bool" => bool::get(&o)?.iter().map(|x| vec![*x as u8]).collect(), _ => T::get(&o)?.iter().map(b).collect() };
            eq("elements", got.len(), numel(&os))?;
            for (i, c) in coords(&os).iter().enumerate() { check(op, dt, c, &got[i], &slice(c), rd.first().copied().unwrap_or(1))?; }
            Ok(())
        });
    }
    if T::DT == DType::BOOL { return; }
    if !dt.starts_with('u') { cx.case("l1 norm", (inp, &given), || { let o = er(t.norm(1, &given, keep))?; eq("extents", o.shape().dims().to_vec(), os.clone())?; let g = T::get(&o)?; for (i, c) in coords(&os).iter().enumerate() { let w: f64 = slice(c).iter().map(|x| if is_float(dt) { to_f64(dt, x) } else { to_i128(dt, x) as f64 }.abs()).sum(); ensure((g[i].f() - w).abs() <= 0.2 * w * (size_of(dt) == 1 && is_float(dt)) as u8 as f64 + 1e-2 * w * is_float(dt) as u8 as f64, || format!("output {:?} is {}, should be {}", c, g[i].f(), w))?; } Ok(()) }); }
    if dt == "f32" || dt == "f64" {
        let p = *cx.rng.pick(&[0.5f64, 1.0, 1.5, 2.0, 2.5, 3.0]);
        cx.case("p norm", (inp, &given, p), || { let o = er(if dt == "f32" { t.norm(p as f32, &given, keep) } else { t.norm(p, &given, keep) })?; eq("extents", o.shape().dims().to_vec(), os.clone())?; let g = T::get(&o)?; for (i, c) in coords(&os).iter().enumerate() { let w: f64 = slice(c).iter().map(|x| to_f64(dt, x).abs().powf(p)).sum::<f64>().powf(1.0 / p); let v = g[i].f(); ensure((v - w).abs() <= 1e-2 * w + 1e-6 || !w.is_finite() || w > 1e12, || format!("output {:?} is {}, the {}-norm of its slice is {}", c, v, p, w))?; } Ok(()) });
    }
    cx.case("sum_all and mean_all", inp, || { let o = er(t.sum_all())?; eq("extents", o.shape().dims().to_vec(), vec![])?; let all: Vec<Vec<u8>> = vals.iter().map(b).collect(); check("sum", dt, &[], &b(&T::get(&o)?[0]), &all, 1)?; if is_float(dt) { let o = er(t.mean_all())?; check("mean", dt, &[], &b(&T::get(&o)?[0]), &all, 1)?; } Ok(()) });
    let tg: Vec<usize> = { let drop = cx.rng.below(r + 1); d[drop..].iter().map(|&x| if cx.rng.flip() { 1 } else { x }).collect() };
    cx.case("sum_to_shape", (inp, &tg), || {
        let o = er(t.sum_to_shape(&tg[..]))?; eq("extents", o.shape().dims().to_vec(), tg.clone())?; let g = T::get(&o)?;
        let lead = r - tg.len();
        for (i, c) in coords(&tg).iter().enumerate() { let xs: Vec<Vec<u8>> = coords(&d).iter().filter(|q| (0..tg.len()).all(|a| tg[a] == 1 || q[lead + a] == c[a])).map(|q| b(&vals[addr(q, &st, 0)])).collect(); check("sum", dt, c, &b(&g[i]), &xs, 1)?; }
        Ok(())
    });
    cx.case("bad axes refused", inp, || { ensure(t.sum(&[r as i32], keep).is_err() && t.max(&[-(r as i32) - 1], keep).is_err(), || "an axis out of range was accepted".into())?; if r > 0 { ensure(t.sum(&[0, 0], keep).is_err() && t.sum(&[0, -(r as i32)], keep).is_err(), || "a repeated axis was accepted".into())?; } Ok(()) });
}
pub fn run(cx: &mut Cx) {
    for (dt, _) in DT { for op in OPS { if has(op, dt) { for r in 0..=3 { for _ in 0..3 { kernel(cx, op, dt, r, false); } kernel(cx, op, dt, r, true); } } } }
    while cx.more() {
        for _ in 0..40 { let dt = any_dt(cx); let op = *cx.rng.pick(&OPS); if has(op, dt) { let r = cx.rng.below(7); let big = cx.rng.below(4) == 0 && r <= 3; kernel(cx, op, dt, r, big); } }
        macro_rules! each { ($($t:ty),*) => { $(tensors::<$t>(cx);)* } }
        each!(f32, f64, i8, i16, i32, i64, u8, u16, u32, u64, bool, half::f16, half::bf16, float8::F8E4M3, float8::F8E5M2);
    }
}
