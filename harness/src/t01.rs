use crate::{cx::*, util::*};
use hodu_core::prelude::*;

fn shape_pair(cx: &mut Cx, a: &[usize], b: &[usize]) {
    let want = broadcast(a, b);
    let (sa, sb) = (Shape::new(a), Shape::new(b));
    cx.case("Shape::broadcast_shape", (a, b), || eq("result", Shape::broadcast_shape(&sa, &sb).map(|s| s.dims().to_vec()), want.clone()));
    let stretches = a.len() <= b.len() && broadcast(a, b).as_deref() == Some(b) ;
    cx.case("Shape::can_broadcast_to", (a, b), || eq("result", sa.can_broadcast_to(&sb), stretches));
    cx.case("Layout::broadcast_to", (a, b), || {
        let l = Layout::from_shape(&sa);
        match l.broadcast_to(&sb) {
            Err(_) => ensure(!stretches, || "refused a shape that stretches to the target".into()),
            Ok(n) => {
                ensure(stretches, || format!("accepted; extents {:?}", n.shape().dims()))?;
                eq("extents", n.shape().dims().to_vec(), b.to_vec())?;
                eq("offset", n.offset(), 0)?;
                for c in coords(b) {
                    let u: Vec<usize> = (0..a.len()).map(|i| if a[i] == 1 { 0 } else { c[i + b.len() - a.len()] }).collect();
                    eq(&format!("address of {:?}", c), addr(&c, n.strides(), n.offset()), addr(&u, l.strides(), l.offset()))?;
                }
                Ok(())
            },
        }
    });
    cx.case("Layout::broadcast_layouts", (a, b), || {
        let (la, lb) = (Layout::from_shape(&sa), Layout::from_shape(&sb));
        match (Layout::broadcast_layouts(&la, &lb), &want) {
            (Err(_), None) => Ok(()),
            (Ok((x, y)), Some(w)) => { eq("lhs extents", x.shape().dims().to_vec(), w.clone())?; eq("rhs extents", y.shape().dims().to_vec(), w.clone()) },
            (r, w) => Err(format!("got {:?}, contract requires {:?}", r.map(|(x, y)| (x.shape().dims().to_vec(), y.shape().dims().to_vec())), w)),
        }
    });
}

fn tensor_of(a: &[usize], base: i32) -> Tensor { let n: usize = a.iter().product(); Tensor::from_slice((0..n as i32).map(|x| base + x).collect::<Vec<i32>>(), a).unwrap() }
/// a tensor with these logical elements whose layout is not row-major from 0
fn viewed(cx: &mut Cx, a: &[usize], base: i32) -> (Tensor, &'static str) {
    let n: usize = a.iter().product();
    let vals: Vec<i32> = (0..n as i32).map(|x| base + x).collect();
    match cx.rng.below(3) {
        1 if !a.is_empty() && n > 0 => { // leading rows sliced off
            let row: usize = a[1..].iter().product();
            let mut v = vec![-7; 2 * row]; v.extend(&vals);
            let mut s = a.to_vec(); s[0] += 2;
            (Tensor::from_slice(v, s).unwrap().slice(0, 2, None, 1).unwrap(), "offset")
        },
        2 if a.len() >= 2 && n > 0 => { // last two axes stored swapped
            let r = a.len(); let mut s = a.to_vec(); s.swap(r - 1, r - 2);
            let mut v = vec![0; n]; let st = row_major(&s);
            for (i, c) in coords(a).into_iter().enumerate() { let mut d = c; d.swap(r - 1, r - 2); v[addr(&d, &st, 0)] = vals[i]; }
            (Tensor::from_slice(v, s).unwrap().transpose(-1, -2).unwrap(), "transposed")
        },
        _ => (tensor_of(a, base), "row-major"),
    }
}
fn tensor_pair(cx: &mut Cx, a: &[usize], b: &[usize]) {
    let want = broadcast(a, b);
    let (ta, ka) = viewed(cx, a, 1);
    let (tb, kb) = viewed(cx, b, 1000);
    let (na, nb) = (ka, kb);
    cx.case("Tensor::add broadcasts", (a, na, b, nb), || match (ta.add(&tb), &want) {
        (Err(_), None) => Ok(()),
        (Ok(r), Some(w)) => {
            eq("extents", r.shape().dims().to_vec(), w.clone())?;
            let got = r.to_flatten_vec::<i32>().map_err(|e| e.to_string())?;
            let exp: Vec<i32> = coords(w).iter().map(|c| {
                let rd = |s: &[usize], base: i32| { let u: Vec<usize> = (0..s.len()).map(|i| if s[i] == 1 { 0 } else { c[i + w.len() - s.len()] }).collect(); base + addr(&u, &row_major(s), 0) as i32 };
                rd(a, 1) + rd(b, 1000)
            }).collect();
            eq("elements", got, exp)
        },
        (r, w) => Err(format!("got {:?}, contract requires {:?}", r.map(|t| t.shape().dims().to_vec()), w)),
    });
    cx.case("Tensor::broadcast", (a, na, b), || {
        let stretches = a.len() <= b.len() && want.as_deref() == Some(b);
        match ta.broadcast(b) {
            Err(_) => ensure(!stretches, || "refused".into()),
            Ok(r) => {
                ensure(stretches, || "accepted".into())?;
                let exp: Vec<i32> = coords(b).iter().map(|c| { let u: Vec<usize> = (0..a.len()).map(|i| if a[i] == 1 { 0 } else { c[i + b.len() - a.len()] }).collect(); 1 + addr(&u, &row_major(a), 0) as i32 }).collect();
                eq("elements", r.to_flatten_vec::<i32>().map_err(|e| e.to_string())?, exp)
            },
        }
    });
}
pub fn run(cx: &mut Cx) {
    let shapes = all_shapes(3, 3);
    for a in &shapes { for b in &shapes { shape_pair(cx, a, b); if cx.fails.len() > 20 { return; } } }
    let small = all_shapes(2, 3);
    for a in &small { for b in &small { tensor_pair(cx, a, b); } }
    while cx.more() {
        let r = 1 + cx.rng.below(if cx.thorough { 8 } else { 6 });
        let full: Vec<usize> = (0..r).map(|_| *cx.rng.pick(&[1, 2, 3, 4, 5, 2, 3])).collect();
        let sub = |cx: &mut Cx| -> Vec<usize> { let k = cx.rng.below(r + 1); full[r - k..].iter().map(|&d| { let z = cx.rng.below(5); if z < 2 { 1 } else if z == 2 && cx.rng.below(4) == 0 { cx.rng.below(7) } else { d } }).collect() };
        let (a, b) = (sub(cx), sub(cx));
        shape_pair(cx, &a, &b);
        tensor_pair(cx, &a, &b);
    }
}
