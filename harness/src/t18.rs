//! Operand validation accepts exactly the supported combinations; what is accepted executes.
use crate::{cx::*, util::*, views::*};
use hodu_core::{error::HoduError, prelude::*, scalar::Scalar};

#[derive(Clone, Copy, PartialEq, Debug)]
enum On { Any, Num, Signed, Float, Int, I32 }
impl On { fn has(self, d: DType) -> bool { match self { On::Any => true, On::Num => !d.is_bool(), On::Signed => d.is_int() || d.is_float(), On::Float => d.is_float(), On::Int => d.is_int() || d.is_uint(), On::I32 => d == DType::I32 } } }
#[derive(Clone, Copy, PartialEq, Debug)]
enum To { Same, Truth, Position }
type F = fn(&[Tensor]) -> HoduResult<Vec<Tensor>>;
/// name, operand shapes, supported element types, result element type, differentiable, the call
struct Row { name: &'static str, dims: &'static [&'static [usize]], on: On, to: To, grad: bool, f: F }
fn s(t: &Tensor, x: i64) -> Scalar { Scalar::from_isize(x as isize, t.dtype()) }
fn idx() -> Tensor { i32::mk(vec![1, 0], &[2]) }
fn idx2() -> Tensor { i32::mk(vec![1, 0, 0, 1], &[2, 2]) }
const V: &[&[usize]] = &[&[2, 3]]; const VV: &[&[usize]] = &[&[2, 3], &[1, 3]];
macro_rules! un { ($v:ident, $on:ident, $to:ident, $g:expr; $($n:ident)*) => { $( $v.push(Row { name: stringify!($n), dims: V, on: On::$on, to: To::$to, grad: $g, f: |x| Ok(vec![x[0].$n()?]) }); )* } }
macro_rules! bin { ($v:ident, $on:ident, $to:ident, $g:expr; $($n:ident)*) => { $( $v.push(Row { name: stringify!($n), dims: VV, on: On::$on, to: To::$to, grad: $g, f: |x| Ok(vec![x[0].$n(&x[1])?]) }); )* } }
macro_rules! sca { ($v:ident, $on:ident, $to:ident, $g:expr; $($n:ident)*) => { $( $v.push(Row { name: stringify!($n), dims: V, on: On::$on, to: To::$to, grad: $g, f: |x| Ok(vec![x[0].$n(s(&x[0], 1))?]) }); )* } }
macro_rules! red { ($v:ident, $on:ident, $to:ident, $g:expr; $($n:ident)*) => { $( $v.push(Row { name: stringify!($n), dims: V, on: On::$on, to: To::$to, grad: $g, f: |x| Ok(vec![x[0].$n(&[1], false)?, x[0].$n(&[0, 1], true)?]) }); )* } }
macro_rules! op { ($v:ident, $on:ident, $to:ident, $g:expr; $n:expr, $d:expr, $f:expr) => { $v.push(Row { name: $n, dims: $d, on: On::$on, to: To::$to, grad: $g, f: $f }); } }
fn table() -> Vec<Row> {
    let mut v = vec![];
    bin!(v, Num, Same, true; add sub mul rem maximum minimum); bin!(v, Float, Same, true; div pow);
    bin!(v, Any, Truth, false; logical_and logical_or logical_xor eq ne); bin!(v, Num, Truth, false; lt le gt ge);
    bin!(v, Int, Same, false; shl shr bitwise_and bitwise_or bitwise_xor); un!(v, Int, Same, false; bitwise_not);
    op!(v, Int, Same, false; "shl_scalar", V, |x| Ok(vec![x[0].shl_scalar(1)?])); op!(v, Int, Same, false; "shr_scalar", V, |x| Ok(vec![x[0].shr_scalar(1)?]));
    sca!(v, Any, Truth, false; eq_scalar ne_scalar); sca!(v, Num, Truth, false; lt_scalar le_scalar gt_scalar ge_scalar);
    sca!(v, Num, Same, true; add_scalar sub_scalar mul_scalar rem_scalar maximum_scalar minimum_scalar); sca!(v, Float, Same, true; div_scalar pow_scalar leaky_relu elu prelu);
    un!(v, Signed, Same, true; neg softsign relu); un!(v, Signed, Same, false; abs sign); un!(v, Num, Same, true; square);
    un!(v, Float, Same, true; sqrt recip sigmoid hardsigmoid gelu softplus silu swish hardsilu hardswish mish selu celu sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp exp2 exp10 ln log2 log10 erf); un!(v, Float, Same, false; ceil floor round);
    un!(v, Any, Truth, false; logical_not); un!(v, Float, Truth, false; isnan isinf isfinite);
    red!(v, Num, Same, true; sum prod max min); red!(v, Float, Same, true; mean std var l2_norm logsum logsumexp); red!(v, Any, Truth, false; any all); red!(v, Signed, Same, false; l1_norm); red!(v, Any, Position, false; argmax argmin);
    op!(v, Num, Same, true; "matmul", &[&[2, 3], &[3, 2]], |x| Ok(vec![x[0].matmul(&x[1])?])); op!(v, Num, Same, true; "matmul (batched)", &[&[2, 2, 3], &[1, 3, 2]], |x| Ok(vec![x[0].matmul(&x[1])?]));
    op!(v, Num, Same, true; "dot", &[&[2, 3], &[3, 2]], |x| Ok(vec![x[0].dot(&x[1])?])); op!(v, Num, Same, true; "einsum", &[&[2, 3], &[3, 2]], |x| Ok(vec![Tensor::einsum("ij,jk->ik", &[&x[0], &x[1]])?]));
    const SQ: [&[&[usize]]; 5] = [&[&[1, 1]], &[&[2, 2]], &[&[3, 3]], &[&[5, 5]], &[&[2, 2, 2]]];
    for d in SQ { op!(v, Num, Same, true; "det", d, |x| Ok(vec![x[0].det()?])); op!(v, Num, Same, true; "inv", d, |x| Ok(vec![x[0].inv()?])); op!(v, Num, Same, true; "trace", d, |x| Ok(vec![x[0].trace()?])); }
    op!(v, Any, Same, true; "concat", VV, |x| Ok(vec![Tensor::concat(&[&x[0], &x[1]], 0)?])); op!(v, Any, Same, true; "stack", &[&[2, 3], &[2, 3]], |x| Ok(vec![Tensor::stack(&[&x[0], &x[1]], 0)?])); op!(v, Any, Same, true; "split", V, |x| x[0].split(&[1, 2], 1)); op!(v, Any, Same, true; "chunk", V, |x| x[0].chunk(2, 1));
    // more than two operands: every one of them counts
    op!(v, Any, Same, true; "concat (three)", &[&[2, 3], &[1, 3], &[2, 3]], |x| Ok(vec![Tensor::concat(&[&x[0], &x[1], &x[2]], 0)?])); op!(v, Any, Same, true; "concat (five)", &[&[2, 1], &[2, 3], &[2, 2], &[2, 1], &[2, 2]], |x| Ok(vec![Tensor::concat(&x.iter().collect::<Vec<_>>(), 1)?]));
    op!(v, Any, Same, true; "stack (three)", &[&[2, 3], &[2, 3], &[2, 3]], |x| Ok(vec![Tensor::stack(&[&x[0], &x[1], &x[2]], 1)?])); op!(v, Num, Same, true; "einsum (three)", &[&[2, 3], &[3, 2], &[2]], |x| Ok(vec![Tensor::einsum("ij,jk,k->ik", &[&x[0], &x[1], &x[2]])?])); op!(v, Num, Same, true; "einsum (four)", &[&[2], &[2, 3], &[3, 2], &[2]], |x| Ok(vec![Tensor::einsum("i,ij,jk,k->ik", &[&x[0], &x[1], &x[2], &x[3]])?]));
    op!(v, Any, Same, true; "index_select", V, |x| Ok(vec![x[0].index_select(0, &idx())?])); op!(v, Any, Same, true; "index_put", &[&[2, 3], &[2, 3]], |x| Ok(vec![x[0].index_put(0, &idx(), &x[1])?])); op!(v, Any, Same, true; "gather", V, |x| Ok(vec![x[0].gather(0, &idx2())?])); op!(v, Any, Same, true; "scatter", &[&[2, 2], &[2, 2]], |x| Ok(vec![x[0].scatter(0, &idx2(), &x[1])?]));
    op!(v, Num, Same, true; "scatter_add", &[&[2, 2], &[2, 2]], |x| Ok(vec![x[0].scatter_add(0, &idx2(), &x[1])?])); op!(v, Num, Same, true; "scatter_max", &[&[2, 2], &[2, 2]], |x| Ok(vec![x[0].scatter_max(0, &idx2(), &x[1])?])); op!(v, Num, Same, true; "scatter_min", &[&[2, 2], &[2, 2]], |x| Ok(vec![x[0].scatter_min(0, &idx2(), &x[1])?]));
    op!(v, I32, Truth, false; "onehot", V, |x| Ok(vec![x[0].onehot(3, -1, DType::BOOL)?])); op!(v, Any, Position, false; "nonzero", V, |x| Ok(vec![x[0].nonzero()?])); op!(v, Any, Same, false; "unique", V, |x| { let (a, b, c) = x[0].unique()?; if b.dtype() != DType::I32 || c.dtype() != DType::I32 { return Err(HoduError::InternalError("positions".into())); } Ok(vec![a]) });
    op!(v, Any, Same, false; "compress", V, |x| Ok(vec![x[0].compress(&bool::mk(vec![true, false], &[2]), 0)?]));
    op!(v, Float, Same, true; "conv1d", &[&[1, 2, 5], &[2, 2, 2]], |x| Ok(vec![x[0].conv1d(&x[1], 1, 1, 1)?])); op!(v, Float, Same, true; "conv2d", &[&[1, 2, 4, 4], &[2, 2, 2, 2]], |x| Ok(vec![x[0].conv2d(&x[1], 1, 1, 1)?])); op!(v, Float, Same, true; "conv3d", &[&[1, 1, 3, 3, 3], &[1, 1, 2, 2, 2]], |x| Ok(vec![x[0].conv3d(&x[1], 1, 0, 1)?]));
    op!(v, Float, Same, true; "conv_transpose1d", &[&[1, 2, 3], &[2, 1, 2]], |x| Ok(vec![x[0].conv_transpose1d(&x[1], 2, 0, 0, 1)?])); op!(v, Float, Same, true; "conv_transpose2d", &[&[1, 2, 3, 3], &[2, 1, 2, 2]], |x| Ok(vec![x[0].conv_transpose2d(&x[1], 2, 0, 0, 1)?])); op!(v, Float, Same, true; "conv_transpose3d", &[&[1, 1, 2, 2, 2], &[1, 1, 2, 2, 2]], |x| Ok(vec![x[0].conv_transpose3d(&x[1], 1, 0, 0, 1)?]));
    op!(v, Num, Same, true; "reduce_window max", &[&[4, 4]], |x| Ok(vec![x[0].reduce_window(&[2, 2], &[2, 2], &[(0, 0), (1, 0)], "max")?])); op!(v, Num, Same, true; "reduce_window min", &[&[4, 4]], |x| Ok(vec![x[0].reduce_window(&[2, 2], &[2, 2], &[(0, 0), (1, 0)], "min")?])); op!(v, Num, Same, true; "reduce_window sum", &[&[4, 4]], |x| Ok(vec![x[0].reduce_window(&[2, 2], &[2, 2], &[(0, 0), (1, 0)], "sum")?])); op!(v, Float, Same, true; "reduce_window mean", &[&[4, 4]], |x| Ok(vec![x[0].reduce_window(&[2, 2], &[2, 2], &[(0, 0), (1, 0)], "mean")?]));
    op!(v, Any, Same, true; "pad_constant", V, |x| Ok(vec![x[0].pad_constant(&[(1, 0), (0, 1)], s(&x[0], 1))?])); op!(v, Any, Same, true; "pad_reflect", V, |x| Ok(vec![x[0].pad_reflect(&[(1, 0), (0, 1)])?])); op!(v, Any, Same, true; "pad_replicate", V, |x| Ok(vec![x[0].pad_replicate(&[(1, 0), (0, 1)])?])); op!(v, Any, Same, true; "pad_circular", V, |x| Ok(vec![x[0].pad_circular(&[(1, 0), (0, 1)])?]));
    op!(v, Num, Same, true; "cumsum", V, |x| Ok(vec![x[0].cumsum(1)?])); op!(v, Num, Same, true; "topk", V, |x| { let (a, i) = x[0].topk(2, 1, true, true)?; if i.dtype() != DType::I32 { return Err(HoduError::InternalError("positions".into())); } Ok(vec![a]) });
    op!(v, Float, Same, true; "resize", &[&[1, 1, 2, 2]], |x| Ok(vec![x[0].resize_nearest(&[3, 3])?, x[0].resize_bilinear(&[3, 1])?, x[0].resize_bicubic(&[4, 3])?]));
    op!(v, Any, Same, true; "flip", V, |x| Ok(vec![x[0].flip(&[0])?])); op!(v, Any, Same, true; "views", &[&[2, 1, 3]], |x| Ok(vec![x[0].reshape(&[6])?, x[0].flatten()?, x[0].squeeze(&[1])?, x[0].unsqueeze(0)?, x[0].broadcast(&[2, 4, 3])?, x[0].transpose(0, 2)?, x[0].permute(&[2, 0, 1])?, x[0].slice(2, 0, Some(2), 1)?]));
    op!(v, Float, Same, true; "softmax", V, |x| Ok(vec![x[0].softmax(1)?, x[0].log_softmax(0)?]));
    v
}
fn operand(cx: &mut Cx, d: DType, dims: &[usize], lo: i64, hi: i64) -> Result<Tensor, String> {
    let n = numel(dims);
    macro_rules! go { ($($t:ty),*) => { $( if d == <$t as Elem>::DT { let v: Vec<$t> = rand_vals(cx, n, lo, hi); return Ok(any_view(cx, dims, &v).0); } )* } }
    go!(bool, float8::F8E4M3, float8::F8E5M2, half::bf16, half::f16, f32, f64, u8, u16, u32, u64, i8, i16, i32, i64); Err("type".into())
}
const DTS: [DType; 15] = [DType::BOOL, DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64, DType::U8, DType::U16, DType::U32, DType::U64, DType::I8, DType::I16, DType::I32, DType::I64];
fn one(cx: &mut Cx, r: &Row, d: DType, lo: i64, hi: i64) {
    let ins: Vec<Tensor> = r.dims.iter().map(|e| operand(cx, d, e, lo, hi).unwrap()).collect();
    let vals: Vec<Vec<f64>> = ins.iter().map(|t| t.to_dtype(DType::F64).unwrap().to_flatten_vec::<f64>().unwrap()).collect();
    let want = r.on.has(d);
    cx.case(r.name, (d, r.dims, &vals), || match (r.f)(&ins) {
        Err(e) => { ensure(!want, || format!("refused: {}", e)) },
        Ok(out) => { ensure(want, || "accepted".into())?; for t in &out { eq("element type", t.dtype(), match r.to { To::Same => d, To::Truth => DType::BOOL, To::Position => DType::I32 })?; eq("elements", t.to_bytes().map_err(|e| e.to_string())?.len(), t.shape().size() * t.dtype().size_in_bytes())?; ensure(!t.is_requires_grad(), || "requires a gradient nobody asked for".into())?; } Ok(()) },
    });
    // a second operand of another element type
    if ins.len() >= 2 { let o = *cx.rng.pick(&DTS.iter().copied().filter(|o| *o != d).collect::<Vec<_>>());
        for k in 0..ins.len() { let mut a = ins.clone(); a[k] = operand(cx, o, r.dims[k], lo, hi).unwrap(); cx.case(r.name, (d, "but operand", k, o), || ensure((r.f)(&a).is_err(), || "accepted".into())); } }
    // gradients
    if want { let g: Vec<Tensor> = ins.iter().map(|t| t.contiguous().unwrap()).collect(); for (k, t) in g.iter().enumerate() {
        cx.case("set_requires_grad", (r.name, d, k), || { let q = t.set_requires_grad(true); eq("accepted", q.is_ok(), d.is_float())?; if q.is_err() { return eq("required after refusal", t.is_requires_grad(), false); }
            let out = er((r.f)(&g))?; let _ = t.set_requires_grad(false);
            let w = r.grad && r.on != On::I32; for (i, o) in out.iter().enumerate() { eq(&format!("result {} requires a gradient", i), o.is_requires_grad(), w)?; } Ok(()) });
    } }
}
pub fn run(cx: &mut Cx) {
    let rows = table();
    for r in &rows { for d in DTS { one(cx, r, d, 0, 4); } }
    // index operands
    for d in DTS { for n in ["index_select", "gather", "scatter", "scatter_add", "index_put"] { cx.case(n, ("indices of", d), || { let x = f32::mk((0..4).map(|i| i as f32).collect(), &[2, 2]); let i = er(i32::mk(vec![1, 0], &[2]).to_dtype(d))?; let j = er(er(i.unsqueeze(0))?.contiguous())?; let g = match n { "index_select" => x.index_select(0, &i), "gather" => x.gather(0, &j), "scatter" => x.scatter(0, &j, &er(x.slice(0, 0, Some(1), 1))?), "scatter_add" => x.scatter_add(0, &j, &er(x.slice(0, 0, Some(1), 1))?), _ => x.index_put(0, &i, &x) }; let w = d == DType::I32; match g { Err(e) => ensure(!w, || format!("refused: {}", e)), Ok(t) => { ensure(w, || "accepted".into())?; if n == "index_select" { eq("rows", f32::get(&t)?, vec![2.0, 3.0, 0.0, 1.0])?; } if n == "gather" { eq("row", f32::get(&t)?, vec![2.0, 1.0])?; } if n == "index_put" { eq("rows", f32::get(&t)?, vec![2.0, 3.0, 0.0, 1.0])?; } Ok(()) } } }); } }
    // extents that do not fit
    for d in [DType::F32, DType::I32] { for (n, dims) in [("add", [&[2usize, 3][..], &[2, 2]]), ("matmul", [&[2, 3], &[2, 3]]), ("concat", [&[2, 3], &[2, 2]]), ("scatter", [&[2, 2], &[3, 3]]), ("einsum", [&[2, 3], &[2, 3]]), ("stack", [&[2, 3], &[2, 2]])] { let r = rows.iter().find(|r| r.name == n).unwrap(); let ins = [operand(cx, d, dims[0], 0, 4).unwrap(), operand(cx, d, dims[1], 0, 4).unwrap()]; cx.case(n, (d, dims), || ensure((r.f)(&ins).is_err() || n == "scatter", || "accepted".into())); } }
    while cx.more() { for _ in 0..50 { let r = &rows[cx.rng.below(rows.len())]; let d = DTS[cx.rng.below(15)]; let (lo, hi) = match cx.rng.below(4) { 0 => (0, 0), 1 => (0, 1), 2 => if d.is_uint() || d.is_bool() { (0, 200) } else { (-100, 100) }, _ => if d.is_uint() || d.is_bool() { (0, 3) } else { (-3, 3) } }; one(cx, r, d, lo, hi); } }
}
