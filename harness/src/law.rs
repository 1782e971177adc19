//! discovery: every tensor operation on views
use crate::{cx::*, views::*};
use hodu_core::prelude::*;
pub fn run(cx: &mut Cx) {
    while cx.more() { one::<f32>(cx); one::<i32>(cx); }
}
fn one<T: Elem>(cx: &mut Cx) {
    let r = cx.rng.below(4);
    let d = rand_dims(cx, r, 4);
    let n = numel(&d);
    let a: Vec<T> = rand_vals(cx, n, 1, 9);
    let b: Vec<T> = rand_vals(cx, n, 1, 9);
    let ax = if r > 0 { cx.rng.below(r) as i32 } else { 0 };
    macro_rules! u { ($name:ident $(, $arg:expr)*) => { same_under_views::<T>(cx, concat!("Tensor::", stringify!($name)), format!("axis {}", ax), &[(d.clone(), a.clone())], |x| Ok(vec![x[0].$name($($arg),*)?])) } }
    macro_rules! bi { ($name:ident) => { same_under_views::<T>(cx, concat!("Tensor::", stringify!($name)), String::new(), &[(d.clone(), a.clone()), (d.clone(), b.clone())], |x| Ok(vec![x[0].$name(&x[1])?])) } }
    u!(neg); u!(square); u!(abs); u!(sign); u!(sqrt); u!(logical_not); u!(add_scalar, 3); u!(eq_scalar, 3); u!(relu); u!(bitwise_not); u!(shl_scalar, 1);
    u!(contiguous); u!(to_dtype, DType::F64); u!(to_device, Device::CPU); u!(nonzero);
    bi!(add); bi!(sub); bi!(maximum); bi!(lt); bi!(logical_and); bi!(bitwise_xor); bi!(shl);
    if r > 0 {
        u!(flip, &[ax]); u!(cumsum, ax); u!(sum, &[ax], true); u!(max, &[ax], false); u!(argmax, &[ax], false); u!(var, &[ax], false); u!(any, &[ax], false); u!(softmax, ax);
        u!(prod, &[] as &[i32], false); u!(logsumexp, &[ax], false);
        let p: Vec<(usize, usize)> = d.iter().map(|&x| (cx.rng.below(x), cx.rng.below(x))).collect();
        u!(pad_constant, &p, 5); u!(pad_reflect, &p); u!(pad_replicate, &p); u!(pad_circular, &p);
        same_under_views::<T>(cx, "Tensor::unique", String::new(), &[(d.clone(), a.clone())], |x| { let (p, q, r) = x[0].unique()?; Ok(vec![p, q, r]) });
        let k = 1 + cx.rng.below(d[ax as usize]);
        same_under_views::<T>(cx, "Tensor::topk", format!("k {} dim {}", k, ax), &[(d.clone(), a.clone())], |x| { let (p, _) = x[0].topk(k, ax, true, true)?; Ok(vec![p]) });
        same_under_views::<T>(cx, "Tensor::concat", String::new(), &[(d.clone(), a.clone()), (d.clone(), b.clone())], |x| Ok(vec![Tensor::concat(&[&x[0], &x[1]], ax)?]));
        same_under_views::<T>(cx, "Tensor::stack", String::new(), &[(d.clone(), a.clone()), (d.clone(), b.clone())], |x| Ok(vec![Tensor::stack(&[&x[0], &x[1]], ax)?]));
        let s0 = cx.rng.below(d[ax as usize] + 1);
        same_under_views::<T>(cx, "Tensor::split", String::new(), &[(d.clone(), a.clone())], |x| x[0].split(&[s0, d[ax as usize] - s0], ax));
        same_under_views::<T>(cx, "Tensor::reduce_window", String::new(), &[(d.clone(), a.clone())], |x| Ok(vec![x[0].reduce_window(vec![2usize; r], vec![1usize; r], &vec![(1, 0); r], "sum")?]));
        same_under_views::<T>(cx, "Tensor::repeat", String::new(), &[(d.clone(), a.clone())], |x| Ok(vec![x[0].repeat(&vec![2; r])?]));
        // index-driven: index tensor is itself a view
        let ni = 1 + cx.rng.below(4);
        let iv: Vec<i32> = (0..ni).map(|_| cx.rng.range(-(d[ax as usize] as i64), d[ax as usize] as i64 - 1) as i32).collect();
        let (it, ih) = any_view(cx, &[ni], &iv);
        same_under_views::<T>(cx, "Tensor::index_select", format!("axis {} indices {:?} {}", ax, iv, ih), &[(d.clone(), a.clone())], |x| Ok(vec![x[0].index_select(ax, &it)?]));
        let mut vd = d.clone(); vd[ax as usize] = ni;
        let nv = numel(&vd);
        let vv: Vec<T> = rand_vals(cx, nv, 20, 60);
        same_under_views::<T>(cx, "Tensor::index_put", format!("axis {} indices {:?} {}", ax, iv, ih), &[(d.clone(), a.clone()), (vd.clone(), vv.clone())], |x| Ok(vec![x[0].index_put(ax, &it, &x[1])?]));
        let gi: Vec<i32> = (0..nv).map(|_| cx.rng.range(-(d[ax as usize] as i64), d[ax as usize] as i64 - 1) as i32).collect();
        let gp = <i32 as Elem>::mk(gi.clone(), &vd);
        let (gt, gh) = any_view(cx, &vd, &gi);
        for (ix, h) in [(&gp, "row-major".to_string()), (&gt, gh)] {
            same_under_views::<T>(cx, "Tensor::gather", format!("axis {} idx {:?} {:?} {}", ax, vd, gi, h), &[(d.clone(), a.clone())], |x| Ok(vec![x[0].gather(ax, &gp)?, x[0].gather(ax, ix)?]));
            same_under_views::<T>(cx, "Tensor::scatter", format!("axis {} idx {:?} {:?} {}", ax, vd, gi, h), &[(d.clone(), a.clone()), (vd.clone(), vv.clone())], |x| Ok(vec![x[0].scatter(ax, ix, &x[1])?]));
            same_under_views::<T>(cx, "Tensor::scatter_add", format!("axis {} idx {:?} {:?} {}", ax, vd, gi, h), &[(d.clone(), a.clone()), (vd.clone(), vv.clone())], |x| Ok(vec![x[0].scatter_add(ax, ix, &x[1])?]));
            same_under_views::<T>(cx, "Tensor::scatter_max", format!("axis {} idx {:?} {:?} {}", ax, vd, gi, h), &[(d.clone(), a.clone()), (vd.clone(), vv.clone())], |x| Ok(vec![x[0].scatter_max(ax, ix, &x[1])?]));
        }
        let cv: Vec<bool> = (0..d[ax as usize]).map(|_| cx.rng.flip()).collect();
        let (ct, ch) = any_view(cx, &[d[ax as usize]], &cv);
        same_under_views::<T>(cx, "Tensor::compress", format!("axis {} cond {:?} {}", ax, cv, ch), &[(d.clone(), a.clone())], |x| Ok(vec![x[0].compress(&ct, Some(ax))?]));
        let cv: Vec<bool> = (0..n).map(|_| cx.rng.flip()).collect();
        let (ct, ch) = any_view(cx, &d, &cv);
        same_under_views::<T>(cx, "Tensor::where3", format!("cond {:?} {}", cv, ch), &[(d.clone(), a.clone()), (d.clone(), b.clone())], |x| Ok(vec![x[0].where3(&ct, &x[1])?]));
        same_under_views::<T>(cx, "Tensor::compress flat", format!("cond {:?} {}", cv, ch), &[(d.clone(), a.clone())], |x| { Ok(vec![x[0].compress(&ct.flatten()?, None)?]) });
        same_under_views::<T>(cx, "Tensor::masked_fill", format!("cond {:?} {}", cv, ch), &[(d.clone(), a.clone())], |x| Ok(vec![x[0].masked_fill(&ct, 3)?]));
    }
    same_under_views::<i32>(cx, "Tensor::onehot", String::new(), &[(d.clone(), a.iter().map(|x| x.f() as i32).collect())], |x| Ok(vec![x[0].onehot(10, -1, DType::F32)?]));
    // matrices
    let (m, k, q) = (1 + cx.rng.below(5), 1 + cx.rng.below(5), 1 + cx.rng.below(5));
    let bt = cx.rng.below(3);
    let bd = rand_dims(cx, bt, 3);
    let mut da = bd.clone(); da.extend([m, k]); let mut db = bd.clone(); db.extend([k, q]);
    let va: Vec<T> = rand_vals(cx, numel(&da), 0, 5); let vb: Vec<T> = rand_vals(cx, numel(&db), 0, 5);
    same_under_views::<T>(cx, "Tensor::matmul", String::new(), &[(da.clone(), va.clone()), (db, vb)], |x| Ok(vec![x[0].matmul(&x[1])?]));
    let ia: Vec<T> = rand_vals(cx, m * k, 0, 5); let ib: Vec<T> = rand_vals(cx, k * q, 0, 5);
    same_under_views::<T>(cx, "Tensor::dot", String::new(), &[(vec![m, k], ia.clone()), (vec![k, q], ib.clone())], |x| Ok(vec![x[0].dot(&x[1])?]));
    same_under_views::<T>(cx, "Tensor::einsum", String::new(), &[(vec![m, k], ia.clone()), (vec![k, q], ib)], |x| Ok(vec![Tensor::einsum("ij,jk->ki", &[&x[0], &x[1]])?]));
    let mut ds = bd.clone(); ds.extend([m, m]);
    let sq: Vec<T> = rand_vals(cx, numel(&ds), 0, 5);
    if T::DT.is_float() { same_under_views::<T>(cx, "Tensor::det", String::new(), &[(ds.clone(), sq.clone())], |x| Ok(vec![x[0].det()?])); }
    if T::DT.is_float() { same_under_views::<T>(cx, "Tensor::inv", String::new(), &[(ds.clone(), sq.clone())], |x| Ok(vec![x[0].inv()?])); }
    same_under_views::<T>(cx, "Tensor::trace", String::new(), &[(ds.clone(), sq.clone())], |x| Ok(vec![x[0].trace()?]));
    // conv
    let (nb, ci, co, l, kk) = (1 + cx.rng.below(2), 1 + cx.rng.below(3), 1 + cx.rng.below(3), 3 + cx.rng.below(4), 1 + cx.rng.below(3));
    let (st, pd, dl) = (1 + cx.rng.below(2), cx.rng.below(2), 1);
    let xin: Vec<T> = rand_vals(cx, nb * ci * l, 0, 5); let w: Vec<T> = rand_vals(cx, co * ci * kk, 0, 5);
    same_under_views::<T>(cx, "Tensor::conv1d", format!("{} {} {}", st, pd, dl), &[(vec![nb, ci, l], xin.clone()), (vec![co, ci, kk], w.clone())], |x| Ok(vec![x[0].conv1d(&x[1], st, pd, dl)?]));
    same_under_views::<T>(cx, "Tensor::conv_transpose1d", format!("{} {} {}", st, pd, dl), &[(vec![nb, ci, l], xin.clone()), (vec![ci, co, kk], w.clone())], |x| Ok(vec![x[0].conv_transpose1d(&x[1], st, pd, 0, dl)?]));
    let x2: Vec<T> = rand_vals(cx, nb * ci * l * l, 0, 5); let w2: Vec<T> = rand_vals(cx, co * ci * kk * kk, 0, 5);
    same_under_views::<T>(cx, "Tensor::conv2d", format!("{} {} {}", st, pd, dl), &[(vec![nb, ci, l, l], x2.clone()), (vec![co, ci, kk, kk], w2.clone())], |x| Ok(vec![x[0].conv2d(&x[1], st, pd, dl)?]));
    same_under_views::<T>(cx, "Tensor::conv_transpose2d", format!("{} {} {}", st, pd, dl), &[(vec![nb, ci, l, l], x2.clone()), (vec![ci, co, kk, kk], w2)], |x| Ok(vec![x[0].conv_transpose2d(&x[1], st, pd, 0, dl)?]));
    same_under_views::<T>(cx, "Tensor::resize_nearest", String::new(), &[(vec![nb, ci, l, l], x2.clone())], |x| Ok(vec![x[0].resize_nearest(&[nb, ci, 5, 3])?]));
    same_under_views::<T>(cx, "Tensor::resize_bilinear", String::new(), &[(vec![nb, ci, l, l], x2.clone())], |x| Ok(vec![x[0].resize_bilinear(&[nb, ci, 5, 3])?]));
}
