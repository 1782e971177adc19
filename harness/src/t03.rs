//! Symbolic shapes and layouts agree with their concrete counterparts.
use crate::{cx::*, util::*};
use hodu_core::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum D { C(usize), B(usize), U }
fn dim(d: D) -> Dim { match d { D::C(n) => Dim::concrete(n), D::B(n) => Dim::dynamic(Some(n)), D::U => Dim::dynamic(None) } }
fn maxd(d: D) -> Option<usize> { match d { D::C(n) | D::B(n) => Some(n), D::U => None } }
fn conc(d: D) -> Option<usize> { match d { D::C(n) => Some(n), _ => None } }

fn shape(cx: &mut Cx, ds: &[D], off: usize) {
    let dims: Vec<Dim> = ds.iter().map(|&d| dim(d)).collect();
    let s = SymbolicShape::new(dims.clone());
    let exact: Option<Vec<usize>> = ds.iter().map(|&d| conc(d)).collect();
    let max: Option<Vec<usize>> = ds.iter().map(|&d| maxd(d)).collect();
    cx.case("SymbolicShape", ds, || {
        eq("dims", s.dims().to_vec(), dims.clone())?;
        eq("ndim", s.ndim(), ds.len())?;
        eq("is_fully_concrete", s.is_fully_concrete(), exact.is_some())?;
        eq("is_dynamic", s.is_dynamic(), exact.is_none())?;
        eq("to_concrete", s.to_concrete().map(|x| x.dims().to_vec()), exact.clone())?;
        eq("size", s.size(), exact.as_ref().map(|v| v.iter().product()))?;
        eq("max_size", s.max_size(), max.as_ref().map(|v| v.iter().product()))?;
        eq("to_max_shape", s.to_max_shape().map(|x| x.dims().to_vec()), max.clone())?;
        eq("dynamic_dim_ids", s.dynamic_dim_ids(), dims.iter().filter_map(|d| match d { Dim::Dynamic { id, .. } => Some(*id), _ => None }).collect())?;
        for i in 0..ds.len() + 2 { eq("dim", s.dim(i).cloned(), dims.get(i).cloned())?; }
        for (i, &d) in ds.iter().enumerate() {
            eq("concrete_size", dims[i].concrete_size(), conc(d))?;
            eq("allocation_size", dims[i].allocation_size(), maxd(d))?;
            eq("max_bound", dims[i].max_bound(), if let D::B(n) = d { Some(n) } else { None })?;
            eq("is_dynamic", dims[i].is_dynamic(), conc(d).is_none())?;
            eq("is_concrete", dims[i].is_concrete(), conc(d).is_some())?;
            eq("dynamic_id", dims[i].dynamic_id().is_some(), conc(d).is_none())?;
            eq("dim_size", s.dim_size(i as i32), conc(d))?;
            eq("dim_size (negative)", s.dim_size(i as i32 - ds.len() as i32), conc(d))?;
        }
        Ok(())
    });
    cx.case("SymbolicLayout::from_shape", (ds, off), || {
        let want = max.as_ref().map(|m| row_major(m));
        let l = SymbolicLayout::from_shape(&s);
        eq("strides", l.as_ref().map(|l| l.strides().to_vec()), want.clone())?;
        if let Some(mut l) = l {
            eq("offset", l.offset(), 0)?;
            l.set_offset(off);
            let m = max.clone().unwrap();
            eq("offset after set_offset", l.offset(), off)?;
            eq("ndim", l.ndim(), ds.len())?;
            eq("shape", l.shape().clone(), s.clone())?;
            eq("is_dynamic", l.is_dynamic(), exact.is_none())?;
            eq("is_fully_concrete", l.is_fully_concrete(), exact.is_some())?;
            eq("size", l.size(), exact.as_ref().map(|v| v.iter().product()))?;
            eq("max_size", l.max_size(), Some(m.iter().product()))?;
            eq("buffer_size", l.buffer_size(), Some(off + m.iter().product::<usize>()))?;
            let c = l.to_concrete();
            eq("to_concrete", c.map(|c| (c.shape().dims().to_vec(), c.strides().to_vec(), c.offset())), exact.clone().map(|e| { let st = row_major(&e); (e, st, off) }))?;
            let c = l.to_max_layout().ok_or("to_max_layout unknown")?;
            eq("to_max_layout", (c.shape().dims().to_vec(), c.strides().to_vec(), c.offset()), (m.clone(), row_major(&m), off))?;
        }
        Ok(())
    });
    for i in 0..=ds.len() {
        for nd in [D::C(3), D::B(5), D::U] {
            cx.case("SymbolicLayout::with_dim", (ds, off, i, nd), || {
                let Some(mut l) = SymbolicLayout::from_shape(&s) else { return Ok(()) };
                l.set_offset(off);
                let r = l.with_dim(i, dim(nd));
                if i >= ds.len() { return ensure(r.is_none(), || "accepted an axis outside the layout".into()); }
                let mut m: Vec<Option<usize>> = ds.iter().map(|&d| maxd(d)).collect(); m[i] = maxd(nd);
                // strides depend on every extent but the first
                let want: Option<Vec<usize>> = m[1..].iter().cloned().collect();
                eq("strides", r.as_ref().map(|l| l.strides().to_vec()), want.map(|w| { let mut f = vec![1]; f.extend(w); row_major(&f) }))?;
                if let Some(r) = r {
                    eq("offset", r.offset(), off)?;
                    for j in 0..ds.len() { eq("concrete size", r.shape().dims()[j].concrete_size(), conc(if j == i { nd } else { ds[j] }))?; eq("allocation size", r.shape().dims()[j].allocation_size(), m[j])?; }
                }
                Ok(())
            });
        }
    }
}
fn round_trip(cx: &mut Cx, dims: &[usize], strides: &[usize], off: usize) {
    cx.case("symbolic round trip", (dims, strides, off), || {
        let sh = Shape::new(dims);
        let s = SymbolicShape::from_concrete(&sh);
        eq("shape", s.to_concrete().map(|x| x.dims().to_vec()), Some(dims.to_vec()))?;
        eq("max shape", s.to_max_shape().map(|x| x.dims().to_vec()), Some(dims.to_vec()))?;
        eq("concrete()", SymbolicShape::concrete(dims), s.clone())?;
        eq("From<&Shape>", SymbolicShape::from(&sh), s.clone())?;
        let mut l = Layout::new(sh, strides.to_vec()); l.set_offset(off);
        let y = SymbolicLayout::from_concrete(&l);
        eq("From<&Layout>", SymbolicLayout::from(&l) , y.clone())?;
        eq("strides", y.strides().to_vec(), strides.to_vec())?;
        eq("offset", y.offset(), off)?;
        eq("size", y.size(), Some(l.size()))?;
        eq("max_size", y.max_size(), Some(l.size()))?;
        for (w, b) in [("to_concrete", y.to_concrete()), ("to_max_layout", y.to_max_layout())] {
            let b = b.ok_or(format!("{} gave nothing", w))?;
            eq(w, (b.shape().dims().to_vec(), b.strides().to_vec(), b.offset()), (dims.to_vec(), strides.to_vec(), off))?;
        }
        Ok(())
    });
}
pub fn run(cx: &mut Cx) {
    let alph = [D::C(0), D::C(1), D::C(2), D::C(5), D::B(0), D::B(1), D::B(3), D::B(7), D::U];
    let mut layer: Vec<Vec<D>> = vec![vec![]];
    for r in 0..=3 {
        for s in &layer { shape(cx, s, (r * 3) % 7); }
        let mut n = vec![]; for s in &layer { for &a in &alph { let mut t = s.clone(); t.push(a); n.push(t); } } layer = n;
    }
    for s in all_shapes(3, 3) { let st = row_major(&s); round_trip(cx, &s, &st, 0); round_trip(cx, &s, &st, 11); }
    while cx.more() {
        let r = cx.rng.below(10);
        let ds: Vec<D> = (0..r).map(|_| match cx.rng.below(8) { 0 => D::U, 1 | 2 | 3 => D::B(cx.rng.below(40)), _ => D::C(cx.rng.below(40)) }).collect();
        let off = cx.rng.below(1000);
        shape(cx, &ds, off);
        let dims: Vec<usize> = (0..r).map(|_| cx.rng.below(9)).collect();
        let strides: Vec<usize> = (0..r).map(|_| cx.rng.below(50)).collect();
        round_trip(cx, &dims, &strides, off);
    }
}
