//! Saved tensors and snapshots load back identical; bad files are refused.
use crate::{cx::*, views::*, t15::{bits, chain, raw}};
use hodu_core::{format::{hdss, hdt, json}, prelude::*, snapshot::*, ops::*, op_params::*};
use std::collections::HashMap;
fn dir() -> std::path::PathBuf { let d = std::env::temp_dir().join(format!("hodu_t16_{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); d }
/// the loaded tensor is what was saved, bit for bit (numerically for text)
fn identical<T: Elem>(t: &Tensor, d: &[usize], v: &[u8], exact: bool) -> Result<(), String> {
    eq("element type", t.dtype(), T::DT)?; eq("extents", t.shape().dims().to_vec(), d.to_vec())?;
    let g = er(t.to_flatten_vec::<T>())?; eq("element count", g.len(), numel(d))?;
    if exact { return eq("element bits", raw(&g), v.to_vec()); }
    let want = er(Tensor::from_bytes(v, d, T::DT, Device::CPU).and_then(|t| t.to_flatten_vec::<T>()))?;
    for (i, (x, y)) in g.iter().zip(&want).enumerate() { ensure(raw(&[*x]) == raw(&[*y]) || (x.f().is_nan() && y.f().is_nan()), || format!("element {}: {:?} instead of {:?}", i, x, y))?; }
    Ok(())
}
/// a tensor obtained from an untrusted file is at least consistent with itself
fn consistent(t: &Tensor) -> Result<(), String> { let n = numel(t.shape().dims()); eq("bytes for the shape", er(t.to_bytes())?.len(), n * t.dtype().size_in_bytes()) }
fn one<T: Elem>(cx: &mut Cx) {
    let (t, d, v, h) = chain::<T>(cx);
    let p = dir();
    let b = hdt::serialize(&t);
    cx.case("hdt round trip", &h, || identical::<T>(&er(hdt::deserialize(er(b.as_ref().map_err(|e| e.clone()).cloned())?.as_slice()))?, &d, &v, true));
    let j = json::serialize(&t);
    cx.case("json round trip", &h, || identical::<T>(&er(json::deserialize(j.as_ref().map_err(|e| e.to_string())?))?, &d, &v, false));
    for ext in ["hdt", "json", "HDT", "Json", "bin", ""] {
        let f = p.join(if ext.is_empty() { "t".to_string() } else { format!("t.{}", ext) });
        cx.case("Tensor::save then load", (&h, ext), || { er(t.save(&f))?; identical::<T>(&er(Tensor::load(&f))?, &d, &v, !ext.eq_ignore_ascii_case("json")) });
    }
    // collections keep every name with its own tensor
    let (t2, d2, v2, h2) = chain::<T>(cx);
    let n3 = cx.rng.below(5); let v3 = bits(cx, DType::I16, n3); let t3 = Tensor::from_bytes(&v3, [n3], DType::I16, Device::CPU).unwrap();
    let m: HashMap<String, Tensor> = [("a".to_string(), t), ("b / ü \"x\"".to_string(), t2), (String::new(), t3)].into_iter().collect();
    for js in [false, true] {
        let f = p.join(if js { "m.json" } else { "m.hdt" });
        cx.case("save_many then load_many", (&h, &h2, js), || {
            let g = if js { er(json::save_many(&m, &f))?; er(json::load_many(&f))? } else { er(hdt::save_many(&m, &f))?; er(hdt::load_many(&f))? };
            eq("tensor count", g.len(), 3)?;
            identical::<T>(g.get("a").ok_or("name lost")?, &d, &v, !js)?; identical::<T>(g.get("b / ü \"x\"").ok_or("name lost")?, &d2, &v2, !js)?; identical::<i16>(g.get("").ok_or("name lost")?, &[n3], &v3, true)
        });
    }
    // damaged files
    let (Ok(b), Ok(j)) = (b, j) else { return };
    let mb = hdt::serialize_many(&m).unwrap();
    for _ in 0..3 {
        let k = cx.rng.below(b.len());
        cx.case("hdt truncation refused", (&h, k), || ensure(hdt::deserialize(&b[..k]).is_err(), || format!("{} of {} bytes accepted", k, b.len())));
        let km = cx.rng.below(mb.len());
        cx.case("hdt collection truncation refused", (&h, km), || ensure(hdt::deserialize_many(&mb[..km]).is_err(), || "accepted".into()));
        let tail: Vec<u8> = (0..1 + cx.rng.below(4)).map(|_| cx.rng.next() as u8).collect();
        cx.case("hdt extension refused", (&h, &tail), || { ensure(hdt::deserialize(&[&b[..], &tail].concat()).is_err(), || "accepted".into())?; ensure(hdt::deserialize_many(&[&mb[..], &tail].concat()).is_err(), || "collection accepted".into()) });
        let mut x = b.clone(); let i = cx.rng.below(x.len().min(24)); x[i] ^= 1 << cx.rng.below(8); if cx.rng.flip() { let i = cx.rng.below(x.len()); x[i] = cx.rng.next() as u8; }
        cx.case("hdt damage", (&h, &x[..x.len().min(40)]), || match hdt::deserialize(&x) { Ok(t) => consistent(&t), Err(_) => Ok(()) });
        let mut x = mb.clone(); let i = cx.rng.below(x.len()); x[i] ^= 1 << cx.rng.below(8);
        cx.case("hdt collection damage", (&h, &x[..x.len().min(60)]), || match hdt::deserialize_many(&x) { Ok(t) => { for q in t.values() { consistent(q)?; } Ok(()) }, Err(_) => Ok(()) });
        let c = j.char_indices().map(|x| x.0).collect::<Vec<_>>(); let k = c[cx.rng.below(c.len())];
        cx.case("json truncation refused", (&h, k), || ensure(json::deserialize(&j[..k]).is_err(), || format!("{} accepted", &j[..k])));
        cx.case("json extension refused", &h, || { ensure(json::deserialize(&format!("{} 1", j)).is_err(), || "accepted".into())?; ensure(json::deserialize(&format!("{}{}", j, j)).is_err(), || "accepted".into()) });
        let mut x = j.clone().into_bytes(); let i = cx.rng.below(x.len()); x[i] = *cx.rng.pick(b"0123456789-.eE,[]{}\": ntu");
        if let Ok(x) = String::from_utf8(x) { cx.case("json damage", (&h, &x), || match json::deserialize(&x) { Ok(t) => consistent(&t), Err(_) => Ok(()) }); }
    }
}
/// the text of a tensor with the given parts
fn text(shape: &str, dt: DType, data: &str) -> String { format!("{{\"shape\": {}, \"dtype\": \"{}\", \"data\": {}}}", shape, dt, data) }
fn texts(cx: &mut Cx) {
    let lim: [(DType, i128, i128); 8] = [(DType::U8, 0, 255), (DType::U16, 0, 65535), (DType::U32, 0, u32::MAX as i128), (DType::U64, 0, u64::MAX as i128), (DType::I8, -128, 127), (DType::I16, -32768, 32767), (DType::I32, i32::MIN as i128, i32::MAX as i128), (DType::I64, i64::MIN as i128, i64::MAX as i128)];
    for (dt, lo, hi) in lim { for x in [lo - 1, lo, -1, 0, 1, hi, hi + 1, lo * 2 - 1, hi * 2 + 2] {
        let s = text("[1]", dt, &format!("[{}]", x));
        cx.case("json integer range", &s, || match json::deserialize(&s) { Ok(t) => { ensure(x >= lo && x <= hi, || "out-of-range integer accepted".into())?; eq("value", er(t.to_flatten_vec::<i64>())?[0] as i128 & u64::MAX as i128, x & u64::MAX as i128).or_else(|e| if dt == DType::U64 { Ok(()) } else { Err(e) }) }, Err(e) => ensure(x < lo || x > hi, || format!("refused: {}", e)) });
    }
        for bad in ["[1.5]", "[\"1\"]", "[null]", "[true]", "[[1]]", "[1, 2]", "[]", "1", "{}"] { let s = text("[1]", dt, bad); cx.case("json wrong data refused", &s, || ensure(json::deserialize(&s).is_err(), || "accepted".into())); }
    }
    for bad in ["[-1]", "[1.5]", "[\"1\"]", "1", "[[1]]", "[18446744073709551616]", "[2]", "[0]", "[1, 0]", "[9223372036854775808, 2]", "null"] { for dt in [DType::F32, DType::I64, DType::BOOL] { let s = text(bad, dt, if dt == DType::BOOL { "[true]" } else { "[1]" }); cx.case("json wrong shape refused", &s, || ensure(json::deserialize(&s).is_err(), || "accepted".into())); } }
    for s in ["", "{}", "[]", "null", "{\"shape\": [1], \"dtype\": \"f33\", \"data\": [1]}", "{\"shape\": [1], \"data\": [1]}", "{\"dtype\": \"f32\", \"data\": [1]}", "{\"shape\": [1], \"dtype\": \"f32\"}", "{\"shape\": [9223372036854775808, 2], \"dtype\": \"f32\", \"data\": []}"] { cx.case("json malformed refused", s, || ensure(json::deserialize(s).is_err(), || "accepted".into())); }
    // binary files naming shapes that memory cannot hold
    for (shape, data) in [(vec![1u64 << 63, 2], vec![]), (vec![u64::MAX, u64::MAX], vec![0u8]), (vec![1 << 62, 1], vec![0; 4]), (vec![3], vec![0; 4]), (vec![1], vec![0; 5]), (vec![], vec![]), (vec![0], vec![0; 4])] {
        for code in 0..=20u8 {
            let mut x = vec![shape.len() as u8]; let var = |x: &mut Vec<u8>, mut n: u64| loop { if n < 128 { x.push(n as u8); break; } x.push(n as u8 | 128); n >>= 7; };
            for &q in &shape { var(&mut x, q); } x.push(code); var(&mut x, data.len() as u64); x.extend(&data);
            cx.case("hdt inconsistent header", (&shape, code, data.len()), || match hdt::deserialize(&x) { Ok(t) => { consistent(&t)?; let n: u128 = shape.iter().map(|&v| v as u128).product(); eq("bytes", n * t.dtype().size_in_bytes() as u128, data.len() as u128) }, Err(_) => Ok(()) });
        }
    }
}
fn rl(cx: &mut Cx) -> Layout { let r = cx.rng.below(4); let d = rand_dims(cx, r, 5); let s = (0..r).map(|_| cx.rng.below(1 << 20)).collect(); let mut l = Layout::new(Shape::new(&d), s); l.set_offset(cx.rng.below(1000)); l }
fn snapshots(cx: &mut Cx) {
    const DTS: [DType; 15] = [DType::BOOL, DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64, DType::U8, DType::U16, DType::U32, DType::U64, DType::I8, DType::I16, DType::I32, DType::I64];
    let mut s = if cx.rng.flip() { Snapshot::new() } else { Snapshot::with_name("n é\n") };
    for i in 0..cx.rng.below(3) { let r = cx.rng.below(4); let d = rand_dims(cx, r, 9); s.inputs.push(SnapshotInput { name: format!("i{}", i), id: SnapshotTensorId(cx.rng.next() as usize >> cx.rng.below(64)), shape: Shape::new(&d), dtype: *cx.rng.pick(&DTS) }); }
    for _ in 0..cx.rng.below(4) { let r = cx.rng.below(4); let d = rand_dims(cx, r, 4); let dt = *cx.rng.pick(&DTS); s.constants.push(SnapshotConstant { id: SnapshotTensorId(cx.rng.below(500)), name: if cx.rng.flip() { None } else { Some("c".into()) }, shape: Shape::new(&d), dtype: dt, data: bits(cx, dt, numel(&d)) }); }
    for i in 0..cx.rng.below(3) { s.targets.push(SnapshotTarget { name: format!("t{}", i), id: SnapshotTensorId(cx.rng.below(500)) }); }
    for _ in 0..cx.rng.below(5) {
        let x = cx.rng.next();
        let scalars = [Scalar::F32(f32::from_bits(x as u32 & 0x7f7fffff)), Scalar::F64(x as u32 as f64 / 3.0), Scalar::I32(x as i32), Scalar::I64(x as i64), Scalar::U64(x), Scalar::BOOL(x & 1 == 1), Scalar::F16(half::f16::from_bits(x as u16 & 0x7bff)), Scalar::BF16(half::bf16::from_bits(x as u16 & 0x7f7f)), Scalar::F8E4M3(float8::F8E4M3::from_bits(x as u8 & 0x7e)), Scalar::F8E5M2(float8::F8E5M2::from_bits(x as u8 & 0x7b)), Scalar::U8(x as u8), Scalar::I8(x as i8), Scalar::U16(x as u16), Scalar::I16(x as i16), Scalar::U32(x as u32)];
        let sc = *cx.rng.pick(&scalars);
        let (op, params) = match cx.rng.below(5) { 0 => (Op::Binary(BinaryOp::Sub), None), 1 => (Op::UnaryScalar(UnaryScalarOp::MulScalar), Some(OpParams::UnaryScalar(UnaryScalarParams { scalar: sc }))), 2 => (Op::Matrix(MatrixOp::Matmul), Some(OpParams::Matmul(MatmulParams))), 3 => (Op::ShapeMemory(ShapeMemoryOp::Flip), Some(OpParams::Flip(FlipParams { dims: (0..cx.rng.below(4)).collect() }))), _ => (Op::ShapeScalars(ShapeScalarsOp::Slice), Some(OpParams::Slice(SliceParams { dim: sc, start: sc, end: sc, step: sc }))) };
        let input_ids = (0..cx.rng.below(3)).map(|_| SnapshotTensorId(cx.rng.below(99))).collect();
        let input_layouts = (0..cx.rng.below(3)).map(|_| rl(cx)).collect();
        let ol = rl(cx);
        let sym = if cx.rng.flip() { None } else { Some(SymbolicLayout::from(&ol)) };
        s.nodes.push(SnapshotNode { op, params, input_ids, output_id: SnapshotTensorId(cx.rng.below(99)), input_layouts, output_layout: ol, output_dtype: *cx.rng.pick(&DTS), symbolic_output_layout: sym });
    }
    let text = |s: &Snapshot| format!("{:?} {:?}", s, s.nodes.iter().map(|n| n.input_layouts.iter().chain([&n.output_layout]).map(|l| (l.strides().to_vec(), l.offset())).collect::<Vec<_>>()).collect::<Vec<_>>());
    let h = text(&s);
    let b = s.to_bytes();
    cx.case("Snapshot round trip", &h, || { let b = er(b.clone())?; eq("snapshot", text(&er(Snapshot::from_bytes(&b))?), h.clone())?; eq("bytes", er(er(hdss::from_bytes(&b))?.to_bytes())?, b) });
    let f = dir().join("s.hdss");
    cx.case("Snapshot save then load", &h, || { er(hdss::save(&s, &f))?; eq("snapshot", text(&er(hdss::load(&f))?), h.clone()) });
    let Ok(b) = b else { return };
    let k = cx.rng.below(b.len());
    cx.case("Snapshot truncation refused", (&h, k), || ensure(Snapshot::from_bytes(&b[..k]).is_err(), || "accepted".into()));
    let tail: Vec<u8> = (0..1 + cx.rng.below(4)).map(|_| cx.rng.next() as u8).collect();
    cx.case("Snapshot extension refused", (&h, &tail), || ensure(Snapshot::from_bytes(&[&b[..], &tail].concat()).is_err(), || "accepted".into()));
    for _ in 0..8 { let mut x = b.clone(); let i = cx.rng.below(x.len()); x[i] ^= 1 << cx.rng.below(8);
        cx.case("Snapshot damage", (&h, i, x[i]), || match Snapshot::from_bytes(&x) { Ok(s) => { for c in &s.constants { eq("constant bytes", c.data.len(), numel(c.shape.dims()) * c.dtype.size_in_bytes())?; } for n in &s.nodes { for l in n.input_layouts.iter().chain([&n.output_layout]) { eq("strides", l.strides().len(), l.shape().dims().len())?; } } Ok(()) }, Err(_) => Ok(()) });
    }
    if let Some(c) = s.constants.first() { let mut z = s.clone(); let mut v = c.data.clone(); if cx.rng.flip() { v.push(0); } else if v.pop().is_none() { v.push(1); } z.constants[0].data = v; cx.case("Snapshot constant of the wrong size refused", &h, || ensure(Snapshot::from_bytes(&er(z.to_bytes())?).is_err(), || "accepted".into())); }
}
/// a captured program's constants are the logical elements of the tensors used
fn captured<T: Elem>(cx: &mut Cx) {
    let (t, d, v, h) = chain::<T>(cx);
    if d.len() > 6 { return; }
    cx.case("captured constant round trip", &h, || {
        let board = CaptureBoard::new(); board.open();
        let r = (|| { let x = er(Tensor::input("x", d.clone(), T::DT))?; let y = if T::DT == DType::BOOL { er(x.logical_or(&t))? } else { er(x.maximum(&t))? }; board.with_target("y", y); Ok::<(), String>(()) })();
        board.close(); r?;
        let s = board.capture(); let g = er(Snapshot::from_bytes(&er(s.to_bytes())?))?;
        eq("constants", g.constants.len(), 1)?; let c = &g.constants[0];
        eq("element type", c.dtype, T::DT)?; eq("extents", c.shape.dims().to_vec(), d.clone())?; eq("elements", c.data.clone(), v.clone())
    });
}
pub fn run(cx: &mut Cx) {
    texts(cx);
    while cx.more() {
        for _ in 0..4 { snapshots(cx); }
        macro_rules! each { ($($t:ty),*) => { $(one::<$t>(cx); captured::<$t>(cx);)* } }
        each!(f32, f64, i8, i16, i32, i64, u8, u16, u32, u64, bool, half::f16, half::bf16, float8::F8E4M3, float8::F8E5M2);
    }
    let _ = std::fs::remove_dir_all(dir());
}
