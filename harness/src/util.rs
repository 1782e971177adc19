//! Reference mathematics used by the executable contracts.
/// every coordinate of a box, row-major
pub fn coords(dims: &[usize]) -> Vec<Vec<usize>> {
    let n: usize = dims.iter().product();
    let mut v = Vec::with_capacity(n);
    for mut i in 0..n {
        let mut c = vec![0; dims.len()];
        for d in (0..dims.len()).rev() { c[d] = i % dims[d]; i /= dims[d]; }
        v.push(c);
    }
    v
}
pub fn row_major(dims: &[usize]) -> Vec<usize> {
    let mut s = vec![1usize; dims.len()];
    for i in (0..dims.len().saturating_sub(1)).rev() { s[i] = s[i + 1] * dims[i + 1]; }
    s
}
pub fn addr(c: &[usize], strides: &[usize], off: usize) -> usize { off + c.iter().zip(strides).map(|(a, b)| a * b).sum::<usize>() }
/// right-aligned broadcasting rule
pub fn broadcast(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    let g = |s: &[usize], i: usize| if i + s.len() < n { 1 } else { s[i + s.len() - n] };
    (0..n).map(|i| { let (x, y) = (g(a, i), g(b, i)); if x == y || y == 1 { Some(x) } else if x == 1 { Some(y) } else { None } }).collect()
}
pub fn axis(a: i64, n: usize) -> Option<usize> { let n = n as i64; if a >= -n && a < n { Some(if a < 0 { a + n } else { a } as usize) } else { None } }
/// python slice semantics for step != 0: the selected indices
pub fn py_slice(n: usize, start: i64, end: Option<i64>, step: i64) -> Vec<usize> {
    let n = n as i64;
    let norm = |x: i64| if x < 0 { x + n } else { x };
    let mut out = vec![];
    if step > 0 {
        let s = norm(start).clamp(0, n);
        let e = end.map(|e| norm(e).clamp(0, n)).unwrap_or(n);
        let mut i = s; while i < e { out.push(i as usize); i += step; }
    } else {
        let s = norm(start).clamp(-1, n - 1);
        let e = end.map(|e| norm(e).clamp(-1, n - 1)).unwrap_or(-1);
        let mut i = s; while i > e { out.push(i as usize); i += step; }
    }
    out
}
pub fn all_shapes(max_rank: usize, max_dim: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max_rank {
        let mut next = vec![];
        for s in &layer { for d in 0..=max_dim { let mut t: Vec<usize> = s.clone(); t.push(d); next.push(t); } }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for p in perms(n - 1) { for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, n - 1); out.push(q); } }
    out
}
