//! Plugins are accepted only with a compatible protocol version; tensors exchanged keep type, shape and bytes.
use crate::{cx::*, util::*, views::*, t15::{bits, chain}};
use hodu_core::{format::{hdt, json}, prelude::*};
use hodu_plugin::{rpc::*, PluginDType, TensorData};
use hodu_plugin_runtime::{ClientError, PluginClient};
use hodu_plugin_sdk::TensorDataExt;
use std::process::*;
#[allow(dead_code)]
mod cli { #[path = "/repo/hodu-cli/src/tensor/loader.rs"] pub mod loader; #[path = "/repo/hodu-cli/src/tensor/saver.rs"] pub mod saver; }
pub const ALL: [(PluginDType, DType); 15] = [(PluginDType::BOOL, DType::BOOL), (PluginDType::F8E4M3, DType::F8E4M3), (PluginDType::F8E5M2, DType::F8E5M2), (PluginDType::BF16, DType::BF16), (PluginDType::F16, DType::F16), (PluginDType::F32, DType::F32), (PluginDType::F64, DType::F64), (PluginDType::U8, DType::U8), (PluginDType::U16, DType::U16), (PluginDType::U32, DType::U32), (PluginDType::U64, DType::U64), (PluginDType::I8, DType::I8), (PluginDType::I16, DType::I16), (PluginDType::I32, DType::I32), (PluginDType::I64, DType::I64)];
fn dir() -> std::path::PathBuf { let d = std::env::temp_dir().join(format!("hodu_t20_{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); d }
/// a plugin process that answers the first request with these lines
fn plugin(lines: &[String]) -> (Child, PluginClient) {
    let mut c = Command::new("/bin/sh").arg("-c").arg("read l; printf '%s' \"$R\"; cat >/dev/null").env("R", lines.iter().map(|l| format!("{}\n", l)).collect::<String>()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    let mut p = PluginClient::new(&mut c).unwrap(); p.set_timeout(std::time::Duration::from_secs(20)); (c, p)
}
fn done(mut c: Child, p: PluginClient) { drop(p); let _ = c.kill(); let _ = c.wait(); }
fn answer(v: &str, id: i64) -> String { serde_json::to_string(&Response { jsonrpc: JSONRPC_VERSION.into(), result: Some(serde_json::json!({"name": "p", "version": "9.9.9", "protocol_version": v, "plugin_version": hodu_plugin::PLUGIN_VERSION, "capabilities": ["backend.run"]})), error: None, id: RequestId::Number(id) }).unwrap() }
/// major.minor.patch as the semantic-versioning rules read it
fn semver(v: &str) -> Option<(u64, u64, u64)> {
    let core = v.split(['-', '+']).next().unwrap(); let p: Vec<&str> = core.split('.').collect();
    if p.len() != 3 || p.iter().any(|x| x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit())) { return None; }
    Some((p[0].parse().ok()?, p[1].parse().ok()?, p[2].parse().ok()?))
}
fn versions(cx: &mut Cx, v: String) {
    let (a, b) = (semver(PROTOCOL_VERSION).unwrap(), semver(&v));
    let ok = b.is_some_and(|b| b.0 == a.0 && (a.0 > 0 || a.1 == b.1));
    let (c, mut p) = plugin(&[answer(&v, 1)]);
    cx.case("PluginClient::initialize", ("host", PROTOCOL_VERSION, "plugin", &v), || match p.initialize() { Ok(r) => { eq("version reported", r.protocol_version, v.clone())?; ensure(ok, || "accepted".into()) }, Err(ClientError::ProtocolMismatch { plugin, .. }) => { eq("version refused", plugin, v.clone())?; ensure(!ok, || "refused as incompatible".into()) }, Err(e) => Err(format!("other error: {}", e)) });
    done(c, p);
}
fn rpc(cx: &mut Cx) {
    let good = answer(PROTOCOL_VERSION, 1);
    let note = "{\"jsonrpc\": \"2.0\", \"method\": \"$/log\", \"params\": {\"level\": \"info\", \"message\": \"m\"}}".to_string();
    for (what, lines, ok) in [("answer", vec![good.clone()], true), ("notifications first", vec![note.clone(), note.clone(), good.clone()], true), ("answer to another request", vec![answer(PROTOCOL_VERSION, 2)], false), ("answer to an earlier request", vec![answer(PROTOCOL_VERSION, 0)], false), ("answer to a negative request", vec![answer(PROTOCOL_VERSION, -1)], false), ("answer to a named request", vec![good.replace("\"id\":1", "\"id\":\"1\"")], false), ("answer without identity", vec![good.replace("\"id\":1", "\"id\":null")], false), ("closed", vec![], false), ("empty line", vec!["".into(), good.clone()], false), ("not json", vec![good[..good.len() - 1].to_string()], false), ("no version", vec![good.replace("protocol_version", "prot")], false), ("no result", vec![good.replace("\"result\"", "\"resul\"")], false), ("error answer", vec![serde_json::to_string(&Response::error(RequestId::Number(1), RpcError::invalid_params("x"))).unwrap()], false)] {
        let (c, mut p) = plugin(&lines); if lines.is_empty() { let mut c = c; let _ = c.kill(); let _ = c.wait(); cx.case("PluginClient::initialize answers", what, || ensure(p.initialize().is_err(), || "accepted".into())); continue; }
        cx.case("PluginClient::initialize answers", (what, &lines), || match p.initialize() { Ok(_) => ensure(ok, || "accepted".into()), Err(e) => ensure(!ok, || format!("refused: {}", e)) });
        done(c, p);
    }
    // later requests are answered by their own answers only
    for (what, ids) in [("in order", vec![1, 2, 3]), ("the first answer again", vec![1, 1]), ("the second answer again", vec![1, 2, 2]), ("swapped", vec![1, 3, 2]), ("an answer skipped", vec![1, 3])] {
        let (c, mut p) = plugin(&ids.iter().map(|&i| answer(PROTOCOL_VERSION, i)).collect::<Vec<_>>());
        cx.case("PluginClient request sequence", (what, &ids), || { for (i, &id) in ids.iter().enumerate() { let r = p.initialize(); if id != i as i64 + 1 { return ensure(r.is_err(), || format!("request {} took the answer to {}", i + 1, id)); } ensure(r.is_ok(), || format!("request {} refused", i + 1))?; } Ok(()) });
        done(c, p);
    }
}
fn tables(cx: &mut Cx) {
    for (p, c) in ALL {
        cx.case("PluginDType table", p.name(), || {
            eq("size", p.size_in_bytes(), c.size_in_bytes())?; eq("name", p.name().to_string(), format!("{}", c))?; eq("printed", format!("{}", p), p.name().to_string())?;
            eq("parsed", p.name().parse::<PluginDType>(), Ok(p))?; eq("parsed upper case", p.name().to_uppercase().parse::<PluginDType>(), Ok(p))?;
            eq("code", p as u8, c as u8)?; eq("float", p.is_float(), c.is_float())?; eq("integer", p.is_integer(), c.is_int() || c.is_uint())?; eq("signed", p.is_signed(), c.is_int() || c.is_float())?;
            let t = TensorData::from_core_dtype(vec![], vec![0], c); eq("from the host's type", t.dtype, p)?; eq("to the host's type", t.core_dtype(), c)?;
            eq("command line name", cli::loader::str_to_plugin_dtype(p.name()).map_err(|e| e.to_string())?, p)?;
            let j = serde_json::to_string(&p).unwrap(); eq("through json", serde_json::from_str::<PluginDType>(&j).map_err(|e| e.to_string())?, p)
        });
    }
    for bad in ["", "f33", "float32", "f32 ", " f32", "int", "BOOLEAN", "u128", "f8", "bfloat16", "unknown"] { cx.case("unknown type name refused", bad, || ensure(bad.parse::<PluginDType>().is_err() && cli::loader::str_to_plugin_dtype(bad).is_err(), || "accepted".into())); }
}
fn tensors<T: Elem>(cx: &mut Cx) {
    let (t, d, v, h) = chain::<T>(cx); let n = numel(&d);
    let p = ALL.iter().find(|x| x.1 == T::DT).unwrap().0; let w = p.size_in_bytes();
    let f = dir().join("t.hdt"); let k = cx.rng.below(v.len() + 2); let blob = bits(cx, T::DT, (k + w - 1) / w); let blob = &blob[..k.min(blob.len())];
    cx.case("TensorData validity", (&h, blob.len()), || { let x = TensorData::new(blob.to_vec(), d.clone(), p); eq("elements", x.numel(), n)?; eq("bytes", x.size_bytes(), blob.len())?; eq("rank", x.rank(), d.len())?; eq("scalar", x.is_scalar(), d.is_empty())?; eq("valid", x.is_valid(), blob.len() == n * w)?; match x.save(&f) { Ok(_) => ensure(blob.len() == n * w, || "saved although inconsistent".into()), Err(e) => ensure(blob.len() != n * w, || format!("not saved: {}", e)) } });
    cx.case("tensor file given to a plugin", &h, || { er(hdt::save(&t, &f))?; let x = TensorData::load(&f).map_err(|e| e.to_string())?; eq("type", x.dtype, p)?; eq("shape", x.shape.clone(), d.clone())?; eq("bytes", x.data.clone(), v.clone())?; ensure(x.is_valid(), || "invalid".into())?; x.save(&f).map_err(|e| e.to_string())?; let y = er(hdt::load(&f))?; eq("type back", y.dtype(), T::DT)?; eq("shape back", y.shape().dims().to_vec(), d.clone())?; eq("bytes back", er(y.to_bytes())?, v.clone()) });
    let mut wrong = d.clone(); if wrong.is_empty() { wrong.push(1) } else { let i = cx.rng.below(wrong.len()); wrong[i] += 1; } let other = ALL[cx.rng.below(15)].0;
    cx.case("command line input", (&h, &wrong, other), || { er(hdt::save(&t, &f))?; let x = cli::loader::load_tensor_file(&f, &d, p).map_err(|e| e.to_string())?; eq("type", x.dtype, p)?; eq("shape", x.shape.clone(), d.clone())?; eq("bytes", x.data.clone(), v.clone())?;
        ensure(cli::loader::load_tensor_file(&f, &wrong, p).is_err(), || "another shape accepted".into())?; ensure(other == p || cli::loader::load_tensor_file(&f, &d, other).is_err(), || "another type accepted".into()) });
    if matches!(T::DT, DType::F32 | DType::F64 | DType::I32 | DType::I64) {
        let vals: Vec<T> = rand_vals(cx, n, -900, 900); let q = T::mk(vals, &d); let g = dir().join("t.json");
        cx.case("command line json input", &h, || { er(json::save(&q, &g))?; let x = cli::loader::load_tensor_file(&g, &d, p).map_err(|e| e.to_string())?; eq("type", x.dtype, p)?; eq("shape", x.shape.clone(), d.clone())?; eq("bytes", x.data.clone(), er(q.to_bytes())?) });
        let m = cx.rng.below(n + 3); let text = format!("{{\"shape\": {:?}, \"dtype\": \"{}\", \"data\": {:?}}}", d, p.name(), vec![1; m]);
        cx.case("command line json input of the wrong length", (&text, n), || { std::fs::write(&g, &text).unwrap(); match cli::loader::load_tensor_file(&g, &d, p) { Ok(_) => ensure(m == n, || "accepted".into()), Err(e) => ensure(m != n, || format!("refused: {}", e)) } });
    }
    let outs = dir().join("out"); let _ = T::f;
    for (fmt, exact) in [("hdt", true), ("json", false)] { cx.case("command line output", (&h, fmt), || { let m = [("y".to_string(), TensorData::new(v.clone(), d.clone(), p))].into_iter().collect(); cli::saver::save_outputs(&m, &outs, fmt).map_err(|e| e.to_string())?; let y = er(Tensor::load(outs.join(format!("y.{}", fmt))))?; eq("type", y.dtype(), T::DT)?; eq("shape", y.shape().dims().to_vec(), d.clone())?; if exact { eq("bytes", er(y.to_bytes())?, v.clone()) } else { Ok(()) } }); }
}
pub fn run(cx: &mut Cx) {
    tables(cx); rpc(cx);
    for v in ["1.0.0", "1.0.1", "1.1.0", "1.99.7", "2.0.0", "0.1.0", "0.0.0", "10.0.0", "11.0.0", "1", "1.0", "", ".", "..", "1..0", "1.0.", ".1.0", "a.b.c", "x.1.0", "1.x.0", "1.0.x", "1.0.0.0", "v1.0.0", " 1.0.0", "1.0.0 ", "1,0,0", "-1.0.0", "+1.0.0", "1.-0.0", "4294967297.0.0", "99999999999999999999.0.0", "1.0.0-beta.1", "1.2.0+build.5", "2.0.0-1.0.0", "one.0.0", "1\u{0661}.0.0"] { versions(cx, v.to_string()); }
    for (s, d) in [(vec![1usize << 63, 2], vec![]), (vec![usize::MAX, 8], vec![0u8; 8]), (vec![1 << 61], vec![]), (vec![1 << 62, 1, 4], vec![])] { for (p, _) in ALL { if s.len() == 1 && p.size_in_bytes() < 8 { continue; } let d: Vec<u8> = d.clone(); cx.case("TensorData of an unaddressable shape", (&s, p, d.len()), || ensure(!TensorData::new(d, s.clone(), p).is_valid(), || "valid".into())); } }
    let _ = row_major;
    while cx.more() {
        let mut v: Vec<String> = (0..3).map(|_| format!("{}", match cx.rng.below(3) { 0 => cx.rng.below(3) as u64, 1 => cx.rng.below(300) as u64, _ => cx.rng.next() >> cx.rng.below(60) })).collect();
        if cx.rng.flip() { let i = cx.rng.below(3); v[i] = (*cx.rng.pick(&["", "x", "1e3", "0x1", "1 ", "-1", "½"])).to_string(); }
        if cx.rng.below(4) == 0 { v.pop(); }
        versions(cx, v.join("."));
        macro_rules! each { ($($t:ty),*) => { $(for _ in 0..2 { tensors::<$t>(cx); })* } }
        each!(f32, f64, i8, i16, i32, i64, u8, u16, u32, u64, bool, half::f16, half::bf16, float8::F8E4M3, float8::F8E5M2);
    }
    let _ = std::fs::remove_dir_all(dir());
}
