use crate::{cx::*, util::*};
use hodu_core::prelude::*;

/// (new extents, coordinate map from new to old) or refusal
type Spec = Option<(Vec<usize>, Box<dyn Fn(&[usize]) -> Vec<usize>>)>;

fn agree(l: &Layout, r: Result<Layout, String>, spec: &Spec, store: usize) -> Result<(), String> {
    match (r, spec) {
        (Err(_), None) => Ok(()),
        (Ok(n), Some((d, f))) => {
            eq("extents", n.shape().dims().to_vec(), d.clone())?;
            eq("stride count", n.strides().len(), d.len())?;
            for c in coords(d) {
                let o = f(&c);
                let want = addr(&o, l.strides(), l.offset());
                eq(&format!("address of {:?} (source coordinate {:?})", c, o), addr(&c, n.strides(), n.offset()), want)?;
                ensure(want < store, || format!("address {} leaves the storage of {}", want, store))?;
            }
            Ok(())
        },
        (Ok(n), None) => Err(format!("accepted (extents {:?} strides {:?} offset {}) where the contract refuses", n.shape().dims(), n.strides(), n.offset())),
        (Err(e), Some((d, _))) => Err(format!("refused ({}) where the contract gives extents {:?}", e, d)),
    }
}
fn er<T>(r: hodu_core::prelude::HoduResult<T>) -> Result<T, String> { r.map_err(|e| e.to_string()) }

/// every view of one layout, at layout level; `rowmajor` says whether reshape-like views are defined
fn layout_views(cx: &mut Cx, l: &Layout, store: usize, deep: bool) {
    let dims = l.shape().dims().to_vec();
    let n = dims.len();
    let desc = (dims.clone(), l.strides().to_vec(), l.offset());
    let contig = l.strides() == row_major(&dims).as_slice();
    cx.case("Layout::is_contiguous", &desc, || eq("result", l.is_contiguous(), contig));
    cx.case("Layout::size", &desc, || eq("result", l.size(), dims.iter().product::<usize>()));
    let hi = n as i32 + 1;
    for a in -hi..=hi {
        cx.case("Layout::dim_size", (&desc, a), || eq("result", l.dim_size(a), axis(a as i64, n).map(|i| dims[i])));
        let d2 = dims.clone();
        let spec: Spec = if contig { axis(a as i64, n + 1).map(|k| { let mut e = d2.clone(); e.insert(k, 1); (e, Box::new(move |c: &[usize]| { let mut o = c.to_vec(); o.remove(k); o }) as Box<dyn Fn(&[usize]) -> Vec<usize>>) }) } else { None };
        cx.case("Layout::unsqueeze", (&desc, a), || agree(l, er(l.unsqueeze(a)), &spec, store));
        for b in -hi..=hi {
            let d2 = dims.clone();
            let spec: Spec = match (axis(a as i64, n), axis(b as i64, n)) { (Some(i), Some(j)) if n >= 2 => { let mut e = d2.clone(); e.swap(i, j); Some((e, Box::new(move |c: &[usize]| { let mut o = c.to_vec(); o.swap(i, j); o }))) }, _ => None };
            cx.case("Layout::transpose", (&desc, a, b), || agree(l, er(l.transpose(a, b)), &spec, store));
        }
    }
    // permutations, also with negative axes, plus malformed axis lists
    for p in perms(n.min(4)) {
        if n > 4 { break; }
        let neg = cx.rng.next();
        let ax: Vec<i32> = p.iter().enumerate().map(|(i, &x)| if neg >> i & 1 == 1 { x as i32 - n as i32 } else { x as i32 }).collect();
        let (d2, q) = (dims.clone(), p.clone());
        let spec: Spec = Some((q.iter().map(|&k| d2[k]).collect(), Box::new(move |c: &[usize]| { let mut o = vec![0; q.len()]; for (i, &k) in q.iter().enumerate() { o[k] = c[i]; } o })));
        cx.case("Layout::permute", (&desc, &ax), || agree(l, er(l.permute(&ax)), &spec, store));
    }
    for _ in 0..if deep { 12 } else { 4 } {
        let k = if cx.rng.below(4) == 0 { cx.rng.below(n + 2) } else { n };
        let ax: Vec<i32> = (0..k).map(|_| cx.rng.range(-(hi as i64), hi as i64) as i32).collect();
        let norm: Option<Vec<usize>> = ax.iter().map(|&a| axis(a as i64, n)).collect();
        let ok = k == n && norm.as_ref().is_some_and(|v| { let mut s = v.clone(); s.sort(); s.dedup(); s.len() == n });
        let d2 = dims.clone();
        let spec: Spec = if ok { let q = norm.unwrap(); Some((q.iter().map(|&k| d2[k]).collect(), Box::new(move |c: &[usize]| { let mut o = vec![0; q.len()]; for (i, &k) in q.iter().enumerate() { o[k] = c[i]; } o }))) } else { None };
        cx.case("Layout::permute", (&desc, &ax), || agree(l, er(l.permute(&ax)), &spec, store));
    }
    // slices
    for d in -hi..=hi {
        let sz = axis(d as i64, n).map(|i| dims[i]).unwrap_or(2) as i64;
        let (lo, up) = (-sz - 2, sz + 2);
        let mut todo = vec![];
        if deep && sz <= 3 { for s in lo..=up { for e in (lo..=up).map(Some).chain([None]) { for st in [-2i64, -1, 0, 1, 2, 3, i32::MAX as i64] { todo.push((s, e, st)); } } } }
        else { for _ in 0..6 { let e = if cx.rng.below(4) == 0 { None } else { Some(cx.rng.range(lo, up)) }; todo.push((cx.rng.range(lo, up), e, cx.rng.range(-1, 4))); } todo.push((i32::MIN as i64, Some(i32::MAX as i64), 1)); todo.push((0, None, i32::MAX as i64)); }
        for (s, e, st) in todo {
            let d2 = dims.clone();
            let spec: Spec = axis(d as i64, n).and_then(|k| { if st <= 0 { return None; } let ix = py_slice(d2[k], s, e, st); if ix.is_empty() { return None; } let mut x = d2.clone(); x[k] = ix.len(); Some((x, Box::new(move |c: &[usize]| { let mut o = c.to_vec(); o[k] = ix[c[k]]; o }) as Box<dyn Fn(&[usize]) -> Vec<usize>>)) });
            cx.case("Layout::slice", (&desc, d, s, e, st), || agree(l, er(l.slice(d, s as i32, e.map(|x| x as i32), st as i32)), &spec, store));
        }
    }
    // squeeze
    let mut lists: Vec<Vec<i32>> = vec![vec![]];
    for a in -hi..=hi { lists.push(vec![a]); for b in -hi..=hi { lists.push(vec![a, b]); } }
    for ax in lists {
        let norm: Option<Vec<usize>> = ax.iter().map(|&a| axis(a as i64, n)).collect();
        let gone: Option<Vec<usize>> = if ax.is_empty() { Some((0..n).filter(|&i| dims[i] == 1).collect()) } else { norm.filter(|v| { let mut s = v.clone(); s.sort(); s.dedup(); s.len() == v.len() && v.iter().all(|&i| dims[i] == 1) }) };
        let d2 = dims.clone();
        let spec: Spec = if contig { gone.map(|g| { let keep: Vec<usize> = (0..n).filter(|i| !g.contains(i)).collect(); (keep.iter().map(|&i| d2[i]).collect(), Box::new(move |c: &[usize]| { let mut o = vec![0; n]; for (i, &k) in keep.iter().enumerate() { o[k] = c[i]; } o }) as Box<dyn Fn(&[usize]) -> Vec<usize>>) }) } else { None };
        cx.case("Layout::squeeze", (&desc, &ax), || agree(l, er(l.squeeze(&ax)), &spec, store));
    }
    // reshape / flatten
    let total: usize = dims.iter().product();
    let mut targets = vec![vec![total], vec![1, total], vec![total, 1], vec![], vec![total + 1], vec![2, 2], vec![2, 3], vec![3, 2, 1]];
    if total % 2 == 0 { targets.push(vec![2, total / 2]); targets.push(vec![total / 2, 1, 2]); }
    if total % 3 == 0 { targets.push(vec![total / 3, 3]); }
    for t in targets {
        let d2 = dims.clone(); let t2 = t.clone();
        let spec: Spec = if contig && t.iter().product::<usize>() == total { Some((t.clone(), Box::new(move |c: &[usize]| { let mut i = addr(c, &row_major(&t2), 0); let mut o = vec![0; d2.len()]; for k in (0..d2.len()).rev() { o[k] = i % d2[k]; i /= d2[k]; } o }))) } else { None };
        cx.case("Layout::reshape", (&desc, &t), || agree(l, er(l.reshape(&Shape::new(&t))), &spec, store));
        if t.len() == 1 && t[0] == total { cx.case("Layout::flatten", &desc, || agree(l, er(l.flatten()), &spec, store)); }
    }
}
fn with_strides(dims: &[usize], strides: Vec<usize>, off: usize) -> (Layout, usize) {
    let mut l = Layout::new(Shape::new(dims), strides.clone());
    l.set_offset(off);
    let far = off + dims.iter().zip(&strides).map(|(d, s)| d.saturating_sub(1) * s).sum::<usize>() + 1;
    (l, far)
}
/// chains of public tensor views against a model of logical elements
fn tensor_chain(cx: &mut Cx) {
    let r = cx.rng.below(5);
    let mut dims: Vec<usize> = (0..r).map(|_| 1 + cx.rng.below(4)).collect();
    let n: usize = dims.iter().product();
    let mut vals: Vec<i32> = (0..n as i32).map(|x| x * 3 + 1).collect();
    let mut t = Tensor::from_slice(vals.clone(), dims.clone()).unwrap();
    let mut hist = format!("start {:?}", dims);
    for _ in 0..1 + cx.rng.below(4) {
        let n = dims.len();
        let k = cx.rng.below(8);
        let ra = |cx: &mut Cx, n: usize| cx.rng.range(-(n as i64), n as i64 - 1) as i32;
        // (new dims, source coordinate of each new coordinate)
        let (name, res, want): (String, Result<Tensor, String>, Option<(Vec<usize>, Vec<Vec<usize>>)>) = match k {
            0 if n >= 2 => { let (a, b) = (ra(cx, n), ra(cx, n)); let (i, j) = (axis(a as i64, n).unwrap(), axis(b as i64, n).unwrap()); let mut e = dims.clone(); e.swap(i, j); let m = coords(&e).into_iter().map(|mut c| { c.swap(i, j); c }).collect(); (format!("transpose {} {}", a, b), er(t.transpose(a, b)), Some((e, m))) },
            1 => { let mut p: Vec<usize> = (0..n).collect(); cx.rng.shuffle(&mut p); let ax: Vec<i32> = p.iter().map(|&x| x as i32).collect(); let e: Vec<usize> = p.iter().map(|&i| dims[i]).collect(); let m = coords(&e).into_iter().map(|c| { let mut o = vec![0; n]; for (i, &q) in p.iter().enumerate() { o[q] = c[i]; } o }).collect(); (format!("permute {:?}", ax), er(t.permute(&ax)), Some((e, m))) },
            2 if n >= 1 => { let a = ra(cx, n); let i = axis(a as i64, n).unwrap(); let sz = dims[i] as i64; let s = cx.rng.range(-sz - 1, sz + 1); let en = if cx.rng.below(3) == 0 { None } else { Some(cx.rng.range(-sz - 1, sz + 1)) }; let st = *cx.rng.pick(&[1i64, 1, 2, 3, -1, -1, -2, 0]);
                let ix = if st == 0 { vec![] } else { py_slice(dims[i], s, en, st) };
                let w = if ix.is_empty() { None } else { let mut e = dims.clone(); e[i] = ix.len(); let m = coords(&e).into_iter().map(|mut c| { c[i] = ix[c[i]]; c }).collect(); Some((e, m)) };
                (format!("slice {} {} {:?} {}", a, s, en, st), er(t.slice(a, s as i32, en.map(|x| x as i32), st as i32)), w) },
            3 => { let a = cx.rng.range(-(n as i64) - 1, n as i64) as i32; let i = axis(a as i64, n + 1).unwrap(); let mut e = dims.clone(); e.insert(i, 1); let m = coords(&e).into_iter().map(|mut c| { c.remove(i); c }).collect(); (format!("unsqueeze {}", a), er(t.unsqueeze(a)), Some((e, m))) },
            4 => { let keep: Vec<usize> = (0..n).filter(|&i| dims[i] != 1).collect(); let e: Vec<usize> = keep.iter().map(|&i| dims[i]).collect(); let m = coords(&e).into_iter().map(|c| { let mut o = vec![0; n]; for (i, &q) in keep.iter().enumerate() { o[q] = c[i]; } o }).collect(); ("squeeze all".into(), er(t.squeeze(&[] as &[i32])), Some((e, m))) },
            5 => { let tot = vals.len(); let e = if tot % 2 == 0 { vec![2, tot / 2] } else { vec![tot] }; let old = coords(&dims); (format!("reshape {:?}", e), er(t.reshape(e.clone())), Some((e, old))) },
            6 => { let tot = vals.len(); ("flatten".into(), er(t.flatten()), Some((vec![tot], coords(&dims)))) },
            _ if n >= 1 => { let a = ra(cx, n); let i = axis(a as i64, n).unwrap(); let sz = dims[i]; let m = coords(&dims).into_iter().map(|mut c| { c[i] = sz - 1 - c[i]; c }).collect(); (format!("flip {}", a), er(t.flip(&[a])), Some((dims.clone(), m))) },
            _ => continue,
        };
        hist = format!("{}; {}", hist, name);
        let contract = format!("Tensor::{}", name.split(' ').next().unwrap());
        let (vd, vv) = (dims.clone(), vals.clone());
        let mut next = None;
        cx.case(&contract, &hist, || {
            match (res, want) {
                (Err(_), None) => Ok(()),
                (Ok(x), Some((e, m))) => {
                    eq("extents", x.shape().dims().to_vec(), e.clone())?;
                    let st = row_major(&vd);
                    let w: Vec<i32> = m.iter().map(|c| vv[addr(c, &st, 0)]).collect();
                    eq("elements", x.to_flatten_vec::<i32>().map_err(|e| e.to_string())?, w.clone())?;
                    next = Some((x, e, w)); Ok(())
                },
                (Ok(x), None) => Err(format!("accepted with extents {:?}", x.shape().dims())),
                (Err(e), Some(_)) => Err(format!("refused: {}", e)),
            }
        });
        match next { Some((x, e, w)) => { t = x; dims = e; vals = w; }, None => return }
    }
}
pub fn run(cx: &mut Cx) {
    for s in all_shapes(3, 3) {
        let (l, f) = with_strides(&s, row_major(&s), 0); layout_views(cx, &l, f, s.len() <= 2);
        let (l, f) = with_strides(&s, row_major(&s), 5); layout_views(cx, &l, f, false);
        let st: Vec<usize> = (0..s.len()).map(|_| cx.rng.below(8)).collect();
        let (l, f) = with_strides(&s, st, 2); layout_views(cx, &l, f, false);
        if cx.fails.len() > 20 { return; }
    }
    let end = cx.slice(2);
    while cx.more_until(end) { tensor_chain(cx); }
    while cx.more() {
        let r = cx.rng.below(5) + 1;
        let s: Vec<usize> = (0..r).map(|_| 1 + cx.rng.below(6)).collect();
        let st: Vec<usize> = if cx.rng.flip() { row_major(&s) } else { (0..r).map(|_| cx.rng.below(40)).collect() };
        let off = cx.rng.below(20);
        let (l, f) = with_strides(&s, st, off);
        layout_views(cx, &l, f, false);
    }
}
