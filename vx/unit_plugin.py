"""Contracts for the plugin protocol: version compatibility, tensor payloads, element type tables (property T20)."""
from vx import *
PT = "crates/hodu_plugin/src/tensor.rs"; DT = "crates/hodu_core/src/types/dtype.rs"; CL = "crates/hodu_plugin_runtime/src/client.rs"
DTS = "BOOL F8E4M3 F8E5M2 BF16 F16 F32 F64 U8 U16 U32 U64 I8 I16 I32 I64".split()
SPEC = r'''
pub mod hodu_core { pub mod types { pub use crate::DType; } }
pub mod hodu_plugin { pub use crate::PluginDType; }
/// the same element type on both sides
pub open spec fn same(p: PluginDType, d: DType) -> bool { match p { ''' + ", ".join("PluginDType::%s => d is %s" % (x, x) for x in DTS) + r''' } }
pub open spec fn width(p: PluginDType) -> int { match p { PluginDType::BOOL | PluginDType::F8E4M3 | PluginDType::F8E5M2 | PluginDType::U8 | PluginDType::I8 => 1, PluginDType::BF16 | PluginDType::F16 | PluginDType::U16 | PluginDType::I16 => 2, PluginDType::F32 | PluginDType::U32 | PluginDType::I32 => 4, _ => 8 } }
pub open spec fn p_float(p: PluginDType) -> bool { p is F8E4M3 || p is F8E5M2 || p is BF16 || p is F16 || p is F32 || p is F64 }
pub open spec fn p_sint(p: PluginDType) -> bool { p is I8 || p is I16 || p is I32 || p is I64 }
pub open spec fn p_uint(p: PluginDType) -> bool { p is U8 || p is U16 || p is U32 || p is U64 }
/// product of the first i extents times the width
pub open spec fn bytes_of(w: int, s: Seq<usize>, i: int) -> int decreases i { if i <= 0 { w } else { bytes_of(w, s, i - 1) * s[i - 1] as int } }
/// once too large, a product of non-zero extents stays too large; a zero extent makes it 0
pub open spec fn nums(s: Seq<usize>, i: int) -> int { bytes_of(1, s, i) }
// ---- text: std's split and parse (assumed) ----
pub uninterp spec fn split1(s: Seq<char>, c: char) -> Seq<Seq<char>>;
pub uninterp spec fn split2(s: Seq<char>, a: char, b: char) -> Seq<Seq<char>>;
pub uninterp spec fn dec(s: Seq<char>) -> Option<u64>;
#[verifier::external_body] pub struct VxSplit { x: u8 }
impl VxSplit {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'static str>)
        ensures old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r is Some && r->0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
    { unimplemented!() }
}
#[verifier::external_body] pub fn vx_split1(s: &str, c: char) -> (r: VxSplit) ensures r.rest() == split1(s@, c) { unimplemented!() }
#[verifier::external_body] pub fn vx_split2(s: &str, a: char, b: char) -> (r: VxSplit) ensures r.rest() == split2(s@, a, b), r.rest().len() > 0 { unimplemented!() }
#[verifier::external_body] pub fn vx_parse(s: &str) -> (r: Option<u64>) ensures r == dec(s@) { unimplemented!() }
pub open spec fn core_of(v: Seq<char>) -> Seq<Seq<char>> { split1(split2(v, '-', '+')[0], '.') }
/// major and minor of a well-formed version: three numbers, then nothing but a pre-release or build part
pub open spec fn version(v: Seq<char>) -> Option<(u64, u64)> { let p = core_of(v);
    if p.len() == 3 && dec(p[0]) is Some && dec(p[1]) is Some && dec(p[2]) is Some { Some((dec(p[0])->0, dec(p[1])->0)) } else { None } }
/// semantic versioning: same major from 1.0 on, same major and minor before
pub open spec fn compatible(a: Seq<char>, b: Seq<char>) -> bool { match (version(a), version(b)) { (Some((m, n)), Some((p, q))) => m == p && (m > 0 || n == q), _ => false } }
'''
END_ = r'''
proof fn T20_malformed_is_compatible_with_nothing(a: Seq<char>, b: Seq<char>) requires version(b) is None ensures !compatible(a, b), !compatible(b, a) {}
proof fn T20_compatible_is_symmetric(a: Seq<char>, b: Seq<char>) ensures compatible(a, b) == compatible(b, a) {}
proof fn T20_element_types_correspond_one_to_one(p: PluginDType, q: PluginDType, d: DType, e: DType) requires same(p, d), same(q, e) ensures p == q <==> d == e {}
proof fn T20_valid_means_bytes_match(t: TensorData) requires t.ok() ensures t.data@.len() == bytes_of(width(t.dtype), t.shape@, t.shape@.len() as int) {}
'''
# std's try_fold over a slice: the accumulator, until it is None
FOLD = [(r"self\s*\.shape\s*\.iter\(\)\s*\.try_fold\(\s*([^|]*?),\s*\|(\w+), &(\w+)\|\s*(.*?)\)\s*;",
  r"{ let mut vx_acc: Option<usize> = Some(\1); let vx_v = &self.shape; let mut vx_i: usize = 0; while vx_i < vx_v.len() && vx_acc.is_some() { let \2 = vx_acc.unwrap(); let \3 = vx_v[vx_i]; vx_acc = \4; vx_i += 1; } vx_acc };"),
  (r"self\s*\.shape\s*\.iter\(\)\s*\.product\(\)", "vx_product(&self.shape)")]
INV = "vx_v@ == self.shape@, vx_i <= vx_v.len(), vx_acc is Some ==> vx_acc->0 == bytes_of(width(self.dtype), self.shape@, vx_i as int), vx_acc is None ==> (exists|k: int| 0 <= k <= vx_i && #[trigger] bytes_of(width(self.dtype), self.shape@, k) > usize::MAX)"
VER = [(r"(\w+)\.split\(\['(.)', '(.)'\]\)\.next\(\)\?\.split\('(.)'\)", r"vx_split1(vx_split2(\1, '\2', '\3').next()?, '\4')"), (r"parts\.next\(\)\?\.parse(?:::<u64>)?\(\)\.ok\(\)", "vx_parse(parts.next()?)")]
QUAL = []
def conv(f, n, i):
    to = n.startswith("core")
    return Contract(f, None, n, ret="r", ensures="same(r, dtype)" if to else "same(dtype, r)", rename="%s_%d" % (n, i), extra=QUAL, params="dtype: DType" if to else "dtype: PluginDType")
FILES = [("hodu-cli/src/tensor/loader.rs", "c"), ("hodu-cli/src/tensor/saver.rs", "p"), ("hodu-cli/src/commands/inspect.rs", "c"), ("hodu-cli/src/commands/run.rs", "cp"), ("hodu-cli/src/commands/convert.rs", "cp"), ("crates/hodu_plugin_runtime/src/runtime.rs", "cp"), ("hodu-plugin-sdk/src/tensor.rs", "cp")]
PARTS = [("denum", DT, "DType"), ("denum", PT, "PluginDType"), ("struct", PT, "TensorData"), ("raw", SPEC),
  ("raw", "impl TensorData { pub open spec fn ok(&self) -> bool { self.data@.len() == bytes_of(width(self.dtype), self.shape@, self.shape@.len() as int) } }\n"),
  ("impl", "PluginDType", PT, [Contract(PT, "PluginDType", "size_in_bytes", ensures="r == width(*self)"), Contract(PT, "PluginDType", "is_float", ensures="r == p_float(*self)"), Contract(PT, "PluginDType", "is_integer", ensures="r == (p_sint(*self) || p_uint(*self))"), Contract(PT, "PluginDType", "is_signed", ensures="r == (p_sint(*self) || p_float(*self))")]),
  ("impl", "TensorData", PT, [
    Contract(PT, "TensorData", "new", ensures="r.data == data && r.shape == shape && r.dtype == dtype"),
    Contract(PT, "TensorData", "numel", requires="fits(self.shape@)", ensures="r == prod(self.shape@)", extra=FOLD),
    Contract(PT, "TensorData", "size_bytes", ensures="r == self.data@.len()"),
    Contract(PT, "TensorData", "is_valid", ensures="r ==> self.ok(), (forall|k: int| 0 <= k <= self.shape@.len() ==> #[trigger] bytes_of(width(self.dtype), self.shape@, k) <= usize::MAX) ==> r == self.ok()", extra=FOLD,
      loops=[dict(match="vx_acc", inv=INV, dec="vx_v.len() - vx_i", tail="assert(bytes_of(width(self.dtype), self.shape@, vx_i as int) == bytes_of(width(self.dtype), self.shape@, vx_i as int - 1) * self.shape@[vx_i as int - 1] as int);")]),
    Contract(PT, "TensorData", "rank", ensures="r == self.shape@.len()"),
    Contract(PT, "TensorData", "is_scalar", ensures="r == (self.shape@.len() == 0)")]),
  ("impl", None, CL, [
    Contract(CL, None, "parse_version", ensures="r == version(version_text@)", params="version_text: &str", extra=[(r"\bversion\.split", "version_text.split")] + VER),
    Contract(CL, None, "is_protocol_compatible", ensures="r == compatible(v1@, v2@)")])]
for i, (f, k) in enumerate(FILES):
    PARTS.append(("impl", None, f, ([conv(f, "core_dtype_to_plugin", i)] if "c" in k else []) + ([conv(f, "plugin_dtype_to_core", i)] if "p" in k else [])))
UNIT = Unit("plugin", PARTS + [("raw", END_)])
def run(prop, u): return unit_result(UNIT.run(), u.get("fns"))
if __name__ == "__main__": report(UNIT)
