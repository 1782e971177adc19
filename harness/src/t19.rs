//! Every epoch visits every sample exactly once.
use crate::{cx::*, views::*};
use hodu_core::prelude::*;
use hodu_datasets::{data::{dataset::{ConcatDataset, Subset}, dataset::random_split, sampler::{BatchSampler, Sampler, SubsetSampler}}, prelude::*};
/// samples name themselves: element i of the data is the row [i, i + 0.5], its label 1000 + i
fn data(n: usize, labels: bool, h: usize, cx: &mut Cx) -> TensorDataset {
    let v: Vec<f32> = (0..n).flat_map(|i| [i as f32, i as f32 + 0.5]).collect();
    let (d, _) = make::<f32>(cx, &[n, 2], &v, h);
    if labels { let l: Vec<i32> = (0..n as i32).map(|i| 1000 + i).collect(); TensorDataset::from_tensors(d, Tensor::from_slice(l, [n]).unwrap()) } else { TensorDataset::from_tensor(d) }
}
fn ids(t: &Tensor) -> Result<Vec<usize>, String> {
    let d = t.shape().dims().to_vec(); ensure(d.len() == 2 && d[1] == 2, || format!("batch extents {:?}", d))?;
    let v = er(t.to_flatten_vec::<f32>())?;
    for r in v.chunks(2) { ensure(r[1] == r[0] + 0.5, || format!("row {:?} mixes samples", r))?; }
    Ok(v.chunks(2).map(|r| r[0] as usize).collect())
}
fn epoch<D: Dataset>(l: &mut DataLoader<D>, labels: bool) -> Result<Vec<Vec<usize>>, String> {
    let mut out = vec![];
    while l.has_next() {
        match er(l.next_batch())? { None => return Err("has_next but no batch".into()), Some(b) => if labels { let (d, y) = b.into_pair().ok_or("not a pair")?; let i = ids(&d)?; eq("labels", er(y.to_flatten_vec::<i32>())?, i.iter().map(|x| 1000 + *x as i32).collect::<Vec<_>>())?; out.push(i) } else { out.push(ids(&b.into_single().ok_or("not single")?)?) } }
        ensure(out.len() <= 10000, || "more than 10000 batches".into())?;
    }
    ensure(er(l.next_batch())?.is_none(), || "a batch after the last".into())?;
    Ok(out)
}
/// the batches partition `order` into runs of `bs`, the last one short or dropped
fn runs(order: &[usize], bs: usize, drop: bool) -> Vec<Vec<usize>> { order.chunks(bs).filter(|c| !drop || c.len() == bs).map(|c| c.to_vec()).collect() }
fn permutation(got: &[Vec<usize>], n: usize, bs: usize, drop: bool) -> Result<(), String> {
    let mut seen: Vec<usize> = got.concat(); seen.sort();
    let want = if drop { n / bs * bs } else { n };
    eq("samples visited", seen.len(), want)?;
    for w in seen.windows(2) { ensure(w[0] != w[1], || format!("sample {} visited twice", w[0]))?; }
    ensure(seen.iter().all(|&x| x < n), || "a sample that does not exist".into())?;
    for (i, b) in got.iter().enumerate() { ensure(b.len() == bs || (i + 1 == got.len() && !drop && b.len() == n % bs), || format!("batch {} has {} samples", i, b.len()))?; }
    Ok(())
}
fn loader(cx: &mut Cx) {
    let n = if cx.rng.below(8) == 0 { 0 } else { cx.rng.below(20) }; let bs = match cx.rng.below(8) { 0 => usize::MAX, 1 => n.max(1), 2 => n + 1, _ => 1 + cx.rng.below(6) };
    let (shuffle, drop, labels, h) = (cx.rng.flip(), cx.rng.flip(), cx.rng.flip(), cx.rng.below(4));
    let seed = match cx.rng.below(4) { 0 => None, 1 => Some(u64::MAX - cx.rng.below(2) as u64), _ => Some(cx.rng.next()) };
    let mk = |cx: &mut Cx, h: usize| { let mut b = DataLoader::builder(data(n, labels, h, cx)).batch_size(bs).shuffle(shuffle).drop_last(drop); if let Some(s) = seed { b = b.seed(s); } b.build() };
    let (mut a, mut b) = (mk(cx, h), mk(cx, 0));
    let mut cold: Vec<usize> = vec![]; let early = cx.rng.below(4);
    cx.case("DataLoader epochs", (("samples", n, "batch", bs, "shuffle", shuffle), ("drop_last", drop, "labels", labels, "seed", seed, "layout", h)), || {
        for e in 0..4 {
            let nb = a.num_batches();
            let x = epoch(&mut a, labels).map_err(|m| format!("epoch {}: {}", e, m))?;
            eq(&format!("epoch {}: reported number of batches", e), nb, x.len())?;
            if shuffle { permutation(&x, n, bs, drop).map_err(|m| format!("epoch {}: {}", e, m))?; } else { eq(&format!("epoch {}: order", e), x.clone(), runs(&(0..n).collect::<Vec<_>>(), bs, drop))?; }
            if e == early { cold = x.concat(); }
            // an equal loader that abandons every epoch early sees the same sequence
            if e == early { let y = epoch(&mut b, labels)?; eq(&format!("epoch {}: sequence of an equal loader", e), y, x)?; break; }
            if b.has_next() { let _ = b.next_batch(); }
            a.reset(); b.reset();
        }
        Ok(())
    });
    let mut c = mk(cx, 0);
    cx.case("DataLoader::iter_batches", ("samples", n, "batch", bs, "shuffle", shuffle, "drop_last", drop), || { let k = c.num_batches(); eq("batches", c.iter_batches().take(10000).collect::<Vec<_>>().len(), k)?; ensure(!c.has_next(), || "not exhausted".into()) });
}
fn samplers(cx: &mut Cx) {
    let n = cx.rng.below(20); let bs = match cx.rng.below(6) { 0 => usize::MAX, 1 => n.max(1), _ => 1 + cx.rng.below(7) }; let drop = cx.rng.flip(); let seed = if cx.rng.flip() { None } else { Some(cx.rng.next()) };
    let idx: Vec<usize> = (0..n).map(|_| cx.rng.below(50)).collect();
    let d = ("length", n, "batch", bs, "drop_last", drop, "seed", seed);
    cx.case("SequentialSampler", d, || { let s = SequentialSampler::new(n); eq("sequence", s.iter().collect::<Vec<_>>(), (0..n).collect())?; eq("length", s.len(), n)?; eq("again", s.iter().collect::<Vec<_>>(), (0..n).collect()) });
    cx.case("RandomSampler", d, || { let s = RandomSampler::new(n, seed); let a: Vec<usize> = s.iter().collect(); eq("length", s.len(), n)?; let mut b = a.clone(); b.sort(); eq("indices visited", b, (0..n).collect())?; eq("again", s.iter().collect::<Vec<_>>(), a.clone())?; eq("same seed", RandomSampler::new(n, seed).iter().collect::<Vec<_>>(), a) });
    cx.case("RandomSampler::with_indices", (d, &idx), || { let s = RandomSampler::with_indices(idx.clone(), seed); let a: Vec<usize> = s.iter().collect(); let (mut x, mut y) = (a.clone(), idx.clone()); x.sort(); y.sort(); eq("indices visited", x, y)?; eq("again", s.iter().collect::<Vec<_>>(), a) });
    cx.case("SubsetSampler", &idx, || { let s = SubsetSampler::new(idx.clone()); eq("sequence", s.iter().collect::<Vec<_>>(), idx.clone())?; eq("length", s.len(), n)?; eq("emptiness", s.is_empty(), n == 0) });
    cx.case("BatchSampler", d, || { eq("batches", BatchSampler::new(SequentialSampler::new(n), bs, drop).batches(), runs(&(0..n).collect::<Vec<_>>(), bs, drop))?; let r: Vec<usize> = RandomSampler::new(n, seed).iter().collect(); eq("batches", BatchSampler::new(RandomSampler::new(n, seed), bs, drop).batches(), runs(&r, bs, drop)) });
}
fn composed(cx: &mut Cx) {
    let n = 1 + cx.rng.below(12); let pick: Vec<usize> = (0..cx.rng.below(8)).map(|_| cx.rng.below(n)).collect(); let bs = 1 + cx.rng.below(5);
    let d = data(n, false, 0, cx);
    cx.case("Subset order", (n, &pick, bs), || { let mut l = DataLoader::new(Subset::new(d, pick.clone()), bs); eq("number", l.num_batches(), pick.len().div_ceil(bs))?; eq("batches", epoch(&mut l, false)?, runs(&pick, bs, false)) });
    let (share, seed) = (*cx.rng.pick(&[0.0f32, 0.25, 0.5, 0.9, 1.0, 1.5]), if cx.rng.flip() { None } else { Some(cx.rng.next()) });
    #[derive(Clone)] struct Count(usize);
    impl Dataset for Count { fn len(&self) -> usize { self.0 } fn get(&self, i: usize) -> HoduResult<DataItem> { if i < self.0 { Ok(DataItem::Single(Tensor::from_slice(vec![i as f32, i as f32 + 0.5], [2])?)) } else { Err(hodu_core::error::HoduError::InvalidArgument("no such sample".into())) } } }
    cx.case("random_split", (n, share, seed), || {
        let (a, b) = random_split(Count(n), share, seed); eq("size of the first part", Dataset::len(&a), ((n as f32 * share) as usize).min(n))?;
        let (x, y) = (epoch(&mut DataLoader::new(a, bs), false)?.concat(), epoch(&mut DataLoader::new(b, bs), false)?.concat());
        let mut all = [x, y].concat(); all.sort(); eq("samples of both parts", all, (0..n).collect())
    });
    let parts: Vec<usize> = (0..cx.rng.below(7)).map(|_| cx.rng.below(5)).collect();
    let whole = data(parts.iter().sum::<usize>().max(1), false, 0, cx);
    cx.case("ConcatDataset order", (&parts, bs), || {
        let total: usize = parts.iter().sum(); let mut at = 0; let mut v = vec![];
        for &p in &parts { let src = if p == 0 { (0, 1) } else { (at, p) }; v.push(Subset::new(TensorDataset::from_tensor(er(whole_rows(&whole, src.0, src.1))?), (0..p).collect())); at += p; }
        let c = ConcatDataset::new(v); eq("length", Dataset::len(&c), total)?; ensure(Dataset::get(&c, total).is_err(), || "an index past the end was accepted".into())?;
        let mut l = DataLoader::new(c, bs); eq("batches", epoch(&mut l, false)?, runs(&(0..total).collect::<Vec<_>>(), bs, false))
    });
}
fn whole_rows(d: &TensorDataset, at: usize, n: usize) -> HoduResult<Tensor> { let v: Vec<Tensor> = (at..at + n).map(|i| match Dataset::get(d, i) { Ok(DataItem::Single(t)) => t, _ => panic!("sample {} not read", i) }).collect(); Tensor::stack(&v.iter().collect::<Vec<_>>(), 0) }
pub fn run(cx: &mut Cx) { while cx.more() { for _ in 0..4 { loader(cx); samplers(cx); composed(cx); } } }
