//! Kernel metadata encodes exactly the operands' layouts.
use crate::{cx::*, util::*};
use hodu_core::{einsum::ParsedEinsum, op_metadatas::*, prelude::*};

fn lay(d: &[usize], s: &[usize], o: usize) -> Layout { let mut l = Layout::new(Shape::new(d), s.to_vec()); l.set_offset(o); l }
#[derive(Clone, Debug)]
struct L { d: Vec<usize>, s: Vec<usize>, o: usize }
impl L { fn l(&self) -> Layout { lay(&self.d, &self.s, self.o) } }
fn rl(cx: &mut Cx, rank: usize) -> L { let d = (0..rank).map(|_| cx.rng.below(6)).collect(); L { s: (0..rank).map(|_| cx.rng.below(90) + 7).collect(), d, o: cx.rng.below(500) } }
fn like(cx: &mut Cx, d: &[usize]) -> L { L { d: d.to_vec(), s: d.iter().map(|_| cx.rng.below(90) + 7).collect(), o: cx.rng.below(500) } }
macro_rules! cat { ($($e:expr),* $(,)?) => {{ let mut v: Vec<usize> = vec![]; $( v.extend($e.iter().copied()); )* v }} }
fn prod(d: &[usize]) -> usize { d.iter().product() }

fn fixed(cx: &mut Cx, r: usize) {
    let (a, b, o) = { let a = rl(cx, r); let b = like(cx, &a.d.clone()); let o = like(cx, &a.d.clone()); (a, b, o) };
    let n = prod(&a.d);
    let bw = cat!([n, r], a.d, b.d, a.s, b.s, [a.o, b.o]);
    cx.case("binary_metadata", (&a, &b), || { for f in [binary_metadata, binary_logical_metadata, cmp_metadata] { eq("record", f(&a.l(), &b.l(), &o.l()), bw.clone())?; } Ok(()) });
    let uw = cat!([n, r], a.d, a.s, [a.o]);
    cx.case("unary_metadata", &a, || { for f in [unary_metadata, unary_logical_metadata, unary_scalar_metadata, cmp_scalar_metadata] { eq("record", f(&a.l(), &o.l()), uw.clone())?; } Ok(()) });
    cx.case("cast_metadata", &a, || { for f in [cast_metadata, contiguous_metadata, nonzero_metadata, unique_metadata] { eq("record", f(&a.l()), uw.clone())?; } Ok(()) });
    // matrix
    let kk = cx.rng.below(5); let (bl, br) = (cx.rng.below(4), cx.rng.below(4));
    let full: Vec<usize> = (0..3).map(|_| 1 + cx.rng.below(4)).collect();
    let pick = |cx: &mut Cx, k: usize| -> Vec<usize> { full[3 - k.min(3)..].iter().map(|&x| match cx.rng.below(12) { 0..=3 => 1, 4 => x + 1, 5 => 0, _ => x }).collect() };
    let (m, nn) = (cx.rng.below(5), cx.rng.below(5));
    let (mut x, mut y) = (pick(cx, bl), pick(cx, br));
    let want_b = broadcast(&x, &y);
    x.extend([m, kk]); let bad = cx.rng.below(8) == 0; y.extend([kk + bad as usize, nn]);
    let (x, y) = (like(cx, &x), like(cx, &y));
    let od: Option<Vec<usize>> = want_b.clone().map(|mut w| { w.extend([m, nn]); w });
    cx.case("matmul_metadata", (&x, &y), || {
        let ol = od.clone().unwrap_or(vec![]);
        match (matmul_metadata(&x.l(), &y.l(), &Layout::from_shape(&Shape::new(&ol))), bad, &want_b) {
            (Err(_), true, _) | (Err(_), _, None) => Ok(()),
            (Ok(v), false, Some(w)) => eq("record", v, cat!([prod(&ol), x.d.len(), y.d.len(), w.len()], x.d, y.d, w, x.s, y.s, [x.o, y.o, m, kk, nn])),
            (r, _, w) => Err(format!("got {:?}; inner extents {}, batch {:?}", r, if bad { "differ" } else { "agree" }, w)),
        }
    });
    if a.d.len() < 2 { cx.case("matmul_metadata", &a, || ensure(matmul_metadata(&a.l(), &y.l(), &y.l()).is_err() && matmul_metadata(&y.l(), &a.l(), &y.l()).is_err(), || "accepted rank below 2".into())); }
    let square = a.d.len() >= 2 && a.d[r - 1] == a.d[r - 2];
    let mut sq = a.d.clone(); if r >= 2 && cx.rng.below(4) > 0 { sq[r - 2] = sq[r - 1]; }
    let sq = like(cx, &sq); let square = square || (sq.d.len() >= 2 && sq.d[r - 1] == sq.d[r - 2]);
    let _ = square;
    cx.case("det/inv/trace_metadata", &sq, || {
        let ok = sq.d.len() >= 2 && sq.d[r - 1] == sq.d[r - 2];
        for f in [det_metadata, inv_metadata, trace_metadata] {
            match (f(&sq.l()), ok) { (Err(_), false) => {}, (Ok(v), true) => eq("record", v, cat!([prod(&sq.d[..r - 2]), sq.d[r - 1], r], sq.d, sq.s, [sq.o]))?, (g, _) => return Err(format!("got {:?}", g)) }
        }
        Ok(())
    });
    cx.case("dot_metadata", (&x, &y), || {
        let ok = x.d.len() == 2 && y.d.len() == 2 && x.d[1] == y.d[0];
        match (dot_metadata(&x.l(), &y.l()), ok) { (Err(_), false) => Ok(()), (Ok(v), true) => eq("record", v, cat!([x.d[0], x.d[1], y.d[1]], x.s, y.s, [x.o, y.o])), (g, _) => Err(format!("got {:?}", g)) }
    });
    // reduce
    let mut dims: Vec<usize> = (0..r).filter(|_| cx.rng.flip()).collect(); cx.rng.shuffle(&mut dims);
    for keep in [false, true] {
        let mut os: Vec<usize> = vec![]; for i in 0..r { if dims.contains(&i) { if keep { os.push(1) } } else { os.push(a.d[i]) } }
        if os.is_empty() { os.push(1); }
        let w = cat!([r], a.d, a.s, [a.o, os.len()], os, [dims.len()], dims, [keep as usize, dims.iter().map(|&i| a.d[i]).product()]);
        cx.case("reduce_metadata", (&a, &dims, keep), || eq("record", reduce_metadata(&a.l(), &dims, keep), w));
    }
    if r > 0 {
        let ax = cx.rng.below(r);
        // concat / split
        let k = 1 + cx.rng.below(4);
        let ls: Vec<L> = (0..k).map(|_| { let mut d = a.d.clone(); d[ax] = cx.rng.below(5); like(cx, &d) }).collect();
        let mut os = a.d.clone(); os[ax] = ls.iter().map(|l| l.d[ax]).sum();
        let mut w = cat!([prod(&os), r], os, [ax, k]);
        for l in &ls { w.extend(&l.d); } for l in &ls { w.extend(&l.s); } for l in &ls { w.push(l.o); }
        let mut bo = 0; for l in &ls { w.push(bo); bo += prod(&l.d); }
        cx.case("concat_metadata", (&ls, ax), || { let l: Vec<Layout> = ls.iter().map(|l| l.l()).collect(); eq("record", concat_metadata(&l.iter().collect::<Vec<_>>(), ax, &os), w.clone()) });
        let (s0, sz, ne, ni) = (cx.rng.below(9), cx.rng.below(9), cx.rng.below(99), cx.rng.below(9));
        cx.case("split_metadata", (&a, ax, sz, s0, ne), || eq("record", split_metadata(&a.l(), ax, sz, s0, ne), cat!([ne, r], a.d, a.s, [a.o, ax, sz, s0])));
        cx.case("index_select_metadata", (&a, ax, ni, ne), || eq("record", index_select_metadata(&a.l(), ax, ni, ne), cat!([ne, r], a.d, a.s, [a.o, ax, ni])));
        let v = rl(cx, r);
        cx.case("index_put_metadata", (&a, &v, ax, ni, ne), || eq("record", index_put_metadata(&a.l(), &v.l(), ax, ni, ne), cat!([ne, r], a.d, a.s, v.s, [a.o, v.o, ax, ni])));
        let ix = like(cx, &v.d.clone());
        cx.case("gather_metadata", (&a, &ix, ax, ne), || eq("record", gather_metadata(&a.l(), &ix.l(), ax, ne), cat!([ne, r], ix.d, a.d, a.s, ix.s, [a.o, ix.o, ax])));
        cx.case("scatter_metadata", (&a, &ix, &v, ax), || eq("record", scatter_metadata(&a.l(), &ix.l(), &v.l(), ax), cat!([prod(&v.d), r], a.d, a.s, v.d, v.s, ix.s, [a.o, v.o, ix.o, ax])));
        let (cs, dim) = (cx.rng.below(9), ax);
        cx.case("compress_metadata", (&a, cs, dim), || { eq("with axis", compress_metadata(&a.l(), cs, Some(dim)), cat!([n, r], a.d, a.s, [a.o, cs, 1, dim]))?; eq("flat", compress_metadata(&a.l(), cs, None), cat!([n, r], a.d, a.s, [a.o, cs, 0, 0])) });
        cx.case("scan_metadata", (&a, ax), || eq("record", scan_metadata(&a.l(), ax), cat!([n, r], a.d, a.s, [a.o, ax])));
        let f: Vec<usize> = (0..r).filter(|_| cx.rng.flip()).collect();
        cx.case("flip_metadata", (&a, &f), || eq("record", flip_metadata(&a.l(), &f), cat!([n, r], a.d, (0..r).map(|i| f.contains(&i) as usize).collect::<Vec<_>>())));
    }
    let ncl = cx.rng.below(5); let ax = cx.rng.below(r + 1);
    cx.case("onehot_metadata", (&a, ncl, ax), || { let mut os = a.d.clone(); os.insert(ax, ncl); eq("record", onehot_metadata(&a.l(), ncl, ax), (cat!([prod(&os), n, ncl, ax, r + 1], os), os)) });
    let p2 = n.next_power_of_two();
    cx.case("unique_sort_metadata", &a, || { eq("sort", unique_sort_metadata(&a.l()), vec![n, a.o, p2])?; eq("step", unique_bitonic_step_metadata(&a.l(), 8, 4), vec![n, a.o, p2, 8, 4]) });
    // windows, resize, padding
    let q = |cx: &mut Cx, k: usize, m: usize| -> Vec<usize> { (0..k).map(|_| cx.rng.below(m)).collect() };
    let (w, st, pd, os) = (q(cx, r, 5), q(cx, r, 4), q(cx, 2 * r, 3), q(cx, r, 6));
    cx.case("reduce_window_metadata", (&a, &w, &st, &pd, &os), || eq("record", reduce_window_metadata(&a.l(), &w, &st, &pd, &os), cat!([prod(&os), r], a.d, a.s, [a.o], w, st, pd, os)));
    let (md, ct, nm) = (cx.rng.below(3), cx.rng.below(4), cx.rng.below(4));
    cx.case("resize_metadata", (&a, &os, md, ct, nm), || eq("record", resize_metadata(&a.l(), &os, md, ct, nm), cat!([prod(&os), r], a.d, a.s, [a.o], os, [md, ct, nm])));
    cx.case("padding_metadata", (&a, &w, &os), || eq("record", padding_metadata(&a.l(), &w, &os), cat!([prod(&os), r], a.d, os, w)));
    let (k, ld, ou, lg, so) = (cx.rng.below(9), cx.rng.below(9), cx.rng.below(9), cx.rng.flip(), cx.rng.flip());
    cx.case("topk_metadata", (&a, k, ld, ou, lg, so), || eq("record", topk_metadata(&a.l(), k, ld, ou, lg, so), vec![k * ou, k, ld, ou, lg as usize, so as usize, a.o]));
    // convolutions
    for sp in 1..=3usize {
        let i = rl(cx, sp + 2); let wt = rl(cx, sp + 2); let od = q(cx, sp + 2, 6);
        let (s, p, d) = (q(cx, sp, 4), q(cx, sp, 4), q(cx, sp, 4));
        let want = cat!([prod(&od), od[0], i.d[1], od[1]], i.d[2..], wt.d[2..], od[2..], s, p, d, [i.o, wt.o]);
        cx.case("conv_metadata", (&i, &wt, &s, &p, &d, &od), || eq("record", match sp { 1 => conv1d_metadata(&i.l(), &wt.l(), s[0], p[0], d[0], &od), 2 => conv2d_metadata(&i.l(), &wt.l(), &s, &p, &d, &od), _ => conv3d_metadata(&i.l(), &wt.l(), &s, &p, &d, &od) }, want));
        let g = rl(cx, sp + 2); let ws = q(cx, sp + 2, 5);
        cx.case("conv_grad_weight_metadata", (&i, &g, &ws, &s, &p, &d), || eq("record", conv_grad_weight_metadata(&i.l(), &g.l(), &ws, &s, &p, &d, sp), cat!([prod(&ws), sp + 2, sp], i.d, g.d, ws, i.s, g.s, [i.o, g.o], s, p, d)));
    }
    // einsum
    let letters = ['i', 'j', 'k', 'a']; let sz: Vec<usize> = (0..4).map(|_| 1 + cx.rng.below(4)).collect();
    let nin = 1 + cx.rng.below(3);
    let subs: Vec<Vec<usize>> = (0..nin).map(|_| { let k = cx.rng.below(4); (0..k).map(|_| cx.rng.below(4)).collect() }).collect();
    let mut used = subs.concat(); used.sort_by_key(|&i| letters[i]); used.dedup();
    let out: Vec<usize> = { let mut u = used.clone(); cx.rng.shuffle(&mut u); let k = cx.rng.below(u.len() + 1); u.truncate(k); u };
    let e = format!("{}->{}", subs.iter().map(|s| s.iter().map(|&i| letters[i]).collect::<String>()).collect::<Vec<_>>().join(","), out.iter().map(|&i| letters[i]).collect::<String>());
    let ls: Vec<L> = subs.iter().map(|s| like(cx, &s.iter().map(|&i| sz[i]).collect::<Vec<_>>())).collect();
    let od: Vec<usize> = out.iter().map(|&i| sz[i]).collect();
    cx.case("einsum_metadata", (&e, &ls), || {
        let l: Vec<Layout> = ls.iter().map(|l| l.l()).collect(); let sh: Vec<Shape> = ls.iter().map(|l| Shape::new(&l.d)).collect();
        let p = ParsedEinsum::parse(&e, &sh.iter().collect::<Vec<_>>()).map_err(|e| e.to_string())?;
        let pos = |i: usize| p.all_indices.iter().position(|&c| c == letters[i]).unwrap();
        let mut w = cat!([prod(&od), nin, used.len(), used.len() - out.len(), od.len()], od);
        for (x, s) in ls.iter().zip(&subs) { w.extend(cat!([x.d.len()], x.d, x.s, [x.o], s.iter().map(|&i| pos(i)).collect::<Vec<_>>())); }
        for c in &p.contraction_indices { w.push(p.all_indices.iter().position(|a| a == c).unwrap()); }
        for c in &p.all_indices { w.push(sz[letters.iter().position(|x| x == c).unwrap()]); }
        for &i in &out { w.push(pos(i)); }
        eq("record", einsum_metadata(&p, &l.iter().collect::<Vec<_>>(), &Layout::from_shape(&Shape::new(&od))), w)
    });
}
pub fn run(cx: &mut Cx) {
    for r in 0..4 { for _ in 0..50 { fixed(cx, r); } }
    while cx.more() { let r = cx.rng.below(9); fixed(cx, r); }
}
