"""Contracts for saving and loading: tensor/bytes.rs, format/hdt.rs, snapshot.rs (property T16)."""
from vx import *
import unit_layout as UL, unit_meta as UM, unit_read as UR
SH, LA, DT, DV = UL.SH, UL.LA, "crates/hodu_core/src/types/dtype.rs", "crates/hodu_core/src/types/device.rs"
BY = "crates/hodu_core/src/tensor/bytes.rs"; HD = "crates/hodu_core/src/format/hdt.rs"; SN = "crates/hodu_core/src/snapshot.rs"; ST = "crates/hodu_core/src/be_cpu/storage.rs"
TYPES = [("BOOL", "bool", 1), ("F8E4M3", "F8E4M3", 1), ("F8E5M2", "F8E5M2", 1), ("BF16", "bf16", 2), ("F16", "f16", 2), ("F32", "f32", 4), ("F64", "f64", 8), ("U8", "u8", 1), ("U16", "u16", 2), ("U32", "u32", 4), ("U64", "u64", 8), ("I8", "i8", 1), ("I16", "i16", 2), ("I32", "i32", 4), ("I64", "i64", 8)]
SPEC = r'''
impl Clone for Shape { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { Shape { dims: self.dims.clone() } } }
/// the bytes of one element (little-endian)
pub trait Elem: Sized { spec fn sz() -> int; spec fn enc(self) -> Seq<u8>; spec fn dec(b: Seq<u8>) -> Self;
    proof fn size() ensures Self::sz() > 0; proof fn law(x: Self) ensures x.enc().len() == Self::sz(), Self::dec(x.enc()) == x; }
#[derive(Clone, Copy)] pub struct F8E4M3 { pub b: u8 }
#[derive(Clone, Copy)] pub struct F8E5M2 { pub b: u8 }
impl F8E4M3 { pub fn to_bits(&self) -> (r: u8) ensures r == self.b { self.b } pub fn from_bits(b: u8) -> (r: Self) ensures r.b == b { F8E4M3 { b } } }
impl F8E5M2 { pub fn to_bits(&self) -> (r: u8) ensures r == self.b { self.b } pub fn from_bits(b: u8) -> (r: Self) ensures r.b == b { F8E5M2 { b } } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct bf16 { x: u16 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct f16 { x: u16 }
impl Elem for bool { open spec fn sz() -> int { 1 } open spec fn enc(self) -> Seq<u8> { seq![if self { 1u8 } else { 0u8 }] } open spec fn dec(b: Seq<u8>) -> bool { b[0] != 0 } proof fn size() {} proof fn law(x: Self) {} }
impl Elem for u8 { open spec fn sz() -> int { 1 } open spec fn enc(self) -> Seq<u8> { seq![self] } open spec fn dec(b: Seq<u8>) -> u8 { b[0] } proof fn size() {} proof fn law(x: Self) {} }
impl Elem for i8 { open spec fn sz() -> int { 1 } open spec fn enc(self) -> Seq<u8> { seq![self as u8] } open spec fn dec(b: Seq<u8>) -> i8 { b[0] as i8 } proof fn size() {} proof fn law(x: Self) { assert((x as u8) as i8 == x) by(bit_vector); } }
impl Elem for F8E4M3 { open spec fn sz() -> int { 1 } open spec fn enc(self) -> Seq<u8> { seq![self.b] } open spec fn dec(b: Seq<u8>) -> F8E4M3 { F8E4M3 { b: b[0] } } proof fn size() {} proof fn law(x: Self) {} }
impl Elem for F8E5M2 { open spec fn sz() -> int { 1 } open spec fn enc(self) -> Seq<u8> { seq![self.b] } open spec fn dec(b: Seq<u8>) -> F8E5M2 { F8E5M2 { b: b[0] } } proof fn size() {} proof fn law(x: Self) {} }
'''
# std's and half's to_le_bytes/from_le_bytes are each other's inverse (assumed)
for _, t, n in TYPES:
    if n > 1: SPEC += "pub uninterp spec fn enc_%s(x: %s) -> Seq<u8>; pub uninterp spec fn dec_%s(b: Seq<u8>) -> %s;\n#[verifier::external_body] pub proof fn law_%s(x: %s) ensures enc_%s(x).len() == %d, dec_%s(enc_%s(x)) == x {}\nimpl Elem for %s { open spec fn sz() -> int { %d } open spec fn enc(self) -> Seq<u8> { enc_%s(self) } open spec fn dec(b: Seq<u8>) -> %s { dec_%s(b) } proof fn size() {} proof fn law(x: Self) { law_%s(x); } }\n" % (t, t, t, t, t, t, t, n, t, t, t, n, t, t, t, t)
SPEC += r'''
#[verifier::external_body] pub fn vx_le<T: Elem>(x: &T) -> (r: Vec<u8>) ensures r@ == x.enc() { unimplemented!() }
#[verifier::external_body] pub fn vx_ld<T: Elem, const N: usize>(b: [u8; N]) -> (r: T) requires N == T::sz() ensures r == T::dec(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_cp0(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
pub fn vx_cp(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@, ser::<u8>(s@) == s@, de::<u8>(s@) == s@ { proof { lemma_ser_u8(s@); } vx_cp0(s) }
pub proof fn lemma_ser_u8(s: Seq<u8>) ensures ser::<u8>(s) == s, de::<u8>(s) == s decreases s.len() { if s.len() > 0 { lemma_ser_u8(s.drop_last()); assert(s.drop_last() + s.last().enc() =~= s); } else { assert(s =~= Seq::empty()); } assert(de::<u8>(s) =~= s); }
pub open spec fn ser<T: Elem>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { ser(s.drop_last()) + s.last().enc() } }
pub open spec fn de<T: Elem>(b: Seq<u8>) -> Seq<T> { Seq::new((b.len() as int / T::sz()) as nat, |j: int| T::dec(b.subrange(j * T::sz(), (j + 1) * T::sz()))) }
pub open spec fn de_to<T: Elem>(o: Seq<T>, b: Seq<u8>, k: int) -> bool { o.len() == k && forall|j: int| 0 <= j < k ==> o[j] == T::dec(#[trigger] b.subrange(j * T::sz(), (j + 1) * T::sz())) }
pub proof fn lemma_de_end<T: Elem>(o: Seq<T>, b: Seq<u8>, k: int) requires de_to(o, b, k), k == b.len() as int / T::sz(), k >= 0 ensures o == de::<T>(b) { assert forall|j: int| 0 <= j < k implies o[j] == de::<T>(b)[j] by { assert(o[j] == T::dec(b.subrange(j * T::sz(), (j + 1) * T::sz()))); } assert(o =~= de::<T>(b)); }
pub proof fn lemma_ser_len<T: Elem>(s: Seq<T>) ensures ser(s).len() == s.len() * T::sz() decreases s.len() { if s.len() > 0 { lemma_ser_len(s.drop_last()); T::law(s.last()); let (n, z) = (s.len() as int, T::sz()); assert((n - 1) * z + z == n * z) by(nonlinear_arith); } else { assert(0 * T::sz() == 0); } }
pub proof fn lemma_ser_at<T: Elem>(s: Seq<T>, j: int) requires 0 <= j < s.len() ensures 0 <= j * T::sz(), (j + 1) * T::sz() <= ser(s).len(), ser(s).subrange(j * T::sz(), (j + 1) * T::sz()) == s[j].enc() decreases s.len() {
    let n = s.len() as int; let z = T::sz(); T::size(); lemma_ser_len(s); lemma_ser_len(s.drop_last()); T::law(s.last()); assert((n - 1) * z + z == n * z) by(nonlinear_arith); assert((j + 1) * z == j * z + z) by(nonlinear_arith); assert(0 <= j * z <= (n - 1) * z) by(nonlinear_arith) requires 0 <= j <= n - 1, z > 0;
    if j == n - 1 { assert(ser(s).subrange(j * z, (j + 1) * z) =~= s.last().enc()); }
    else { lemma_ser_at(s.drop_last(), j); assert((j + 1) * z <= (n - 1) * z) by(nonlinear_arith) requires j + 1 <= n - 1, z > 0; assert(ser(s).subrange(j * z, (j + 1) * z) =~= ser(s.drop_last()).subrange(j * z, (j + 1) * z)); } }
/// decoding what was encoded gives the elements back
pub proof fn lemma_de_ser<T: Elem>(s: Seq<T>) ensures de::<T>(ser(s)) == s { T::size(); lemma_ser_len(s); let (n, z) = (s.len() as int, T::sz()); vstd::arithmetic::div_mod::lemma_div_by_multiple(n, z); assert(n * z / z == n);
    assert forall|j: int| 0 <= j < n implies de::<T>(ser(s))[j] == s[j] by { lemma_ser_at(s, j); T::law(s[j]); } assert(de::<T>(ser(s)) =~= s); }
pub open spec fn width(d: DType) -> int { match d { ''' + ", ".join("DType::%s => %d" % (v, n) for v, _, n in TYPES) + r''' } }
impl CpuStorage {
    pub open spec fn dt(&self) -> DType { match self { ''' + ", ".join("CpuStorage::%s(_) => DType::%s" % (v, v) for v, _, n in TYPES) + r''' } }
    pub open spec fn count(&self) -> int { match self { ''' + ", ".join("CpuStorage::%s(d) => d@.len() as int" % v for v, _, n in TYPES) + r''' } }
    pub open spec fn bytes(&self) -> Seq<u8> { match self { ''' + ", ".join("CpuStorage::%s(d) => ser(d@)" % v for v, _, n in TYPES) + r''' } }
    /// the bytes of element i
    pub open spec fn at(&self, i: int) -> Seq<u8> { match self { ''' + ", ".join("CpuStorage::%s(d) => d@[i].enc()" % v for v, _, n in TYPES) + r''' } }
    /// the elements these bytes stand for
    pub open spec fn holds(&self, b: Seq<u8>, t: DType) -> bool { match (self, t) { ''' + ", ".join("(CpuStorage::%s(d), DType::%s) => d@ == de::<%s>(b)" % (v, v, t) for v, t, n in TYPES) + r''', _ => false } }
    /// same element type, same elements
    pub open spec fn same(&self, o: CpuStorage) -> bool { match (self, o) { ''' + ", ".join("(CpuStorage::%s(a), CpuStorage::%s(b)) => a@ == b@" % (v, v) for v, t, n in TYPES) + r''', _ => false } }
    /// trusted here (T08 proves the kernel): the logical elements in row-major order
    #[verifier::external_body] pub fn contiguous(&self, l: &Layout) -> (r: HoduResult<CpuStorage>) ensures r is Ok ==> r->Ok_0.dt() == self.dt() && r->Ok_0.count() == prod(l.shape.dims@) && forall|c: Seq<int>| #[trigger] in_box(c, l.shape.dims@) ==> r->Ok_0.at(pos(c, l.shape.dims@)) == self.at(l.offset + dot(c, l.strides@)) { unimplemented!() }
}
pub proof fn lemma_bytes(s: CpuStorage) ensures s.bytes().len() == s.count() * width(s.dt()), s.count() >= 0 { match s { ''' + ", ".join("CpuStorage::%s(d) => { lemma_ser_len(d@); }" % v for v, _, n in TYPES) + r''' } }
pub proof fn lemma_bytes_at(s: CpuStorage, j: int) requires 0 <= j < s.count() ensures 0 <= j * width(s.dt()), (j + 1) * width(s.dt()) <= s.bytes().len(), s.bytes().subrange(j * width(s.dt()), (j + 1) * width(s.dt())) == s.at(j) { match s { ''' + ", ".join("CpuStorage::%s(d) => { lemma_ser_at(d@, j); }" % v for v, _, n in TYPES) + r''' } }
pub proof fn lemma_holds_count(s: CpuStorage, b: Seq<u8>, t: DType) requires s.holds(b, t) ensures s.dt() == t, s.count() == b.len() as int / width(t) { match s { ''' + ", ".join("CpuStorage::%s(d) => { }" % v for v, _, n in TYPES) + r''' } }
/// b holds the logical elements of view l of s, in row-major order
pub open spec fn saves(b: Seq<u8>, s: CpuStorage, l: Layout) -> bool { let w = width(s.dt()); b.len() == prod(l.shape.dims@) * w && forall|c: Seq<int>| #[trigger] in_box(c, l.shape.dims@) ==> b.subrange(pos(c, l.shape.dims@) * w, (pos(c, l.shape.dims@) + 1) * w) == s.at(l.offset + dot(c, l.strides@)) }
pub proof fn lemma_saves_copy(b: Seq<u8>, k: CpuStorage, s: CpuStorage, l: Layout) requires wf(l), b == k.bytes(), k.dt() == s.dt(), k.count() == prod(l.shape.dims@), forall|c: Seq<int>| #[trigger] in_box(c, l.shape.dims@) ==> k.at(pos(c, l.shape.dims@)) == s.at(l.offset + dot(c, l.strides@)) ensures saves(b, s, l) {
    lemma_bytes(k); let w = width(s.dt()); assert forall|c: Seq<int>| #[trigger] in_box(c, l.shape.dims@) implies b.subrange(pos(c, l.shape.dims@) * w, (pos(c, l.shape.dims@) + 1) * w) == s.at(l.offset + dot(c, l.strides@)) by { lemma_pos_bound(c, l.shape.dims@); lemma_bytes_at(k, pos(c, l.shape.dims@)); } }
pub proof fn lemma_saves_part(b: Seq<u8>, s: CpuStorage, l: Layout) requires wf(l), is_row_major(l.strides@, l.shape.dims@), l.offset + prod(l.shape.dims@) <= s.count(), prod(l.shape.dims@) >= 0, l.offset * width(s.dt()) + prod(l.shape.dims@) * width(s.dt()) <= s.bytes().len(), b == s.bytes().subrange(l.offset * width(s.dt()), l.offset * width(s.dt()) + prod(l.shape.dims@) * width(s.dt())) ensures saves(b, s, l) {
    let w = width(s.dt()); let o = l.offset as int; assert(0 <= o * w && 0 <= prod(l.shape.dims@) * w) by(nonlinear_arith) requires o >= 0, w > 0, prod(l.shape.dims@) >= 0;
    assert forall|c: Seq<int>| #[trigger] in_box(c, l.shape.dims@) implies b.subrange(pos(c, l.shape.dims@) * w, (pos(c, l.shape.dims@) + 1) * w) == s.at(o + dot(c, l.strides@)) by {
        lemma_pos_bound(c, l.shape.dims@); lemma_pos_contig(c, l.strides@, l.shape.dims@); let p = pos(c, l.shape.dims@); let n = prod(l.shape.dims@); lemma_bytes_at(s, o + p); assert((o + p) * w == o * w + p * w && (o + p + 1) * w == o * w + (p + 1) * w && 0 <= p * w && (p + 1) * w <= n * w && p * w <= (p + 1) * w) by(nonlinear_arith) requires 0 <= p < n, w > 0;
        assert(b.subrange(p * w, (p + 1) * w) =~= s.bytes().subrange((o + p) * w, (o + p + 1) * w)); } }
// ---- the tensor ----
pub enum BackendStorage { CPU(CpuStorage) }
#[verifier::external_body] pub struct Tensor { x: u8 }
impl Tensor {
    pub uninterp spec fn lay(&self) -> Layout; pub uninterp spec fn store(&self) -> CpuStorage;
    /// what every tensor satisfies (constructors establish it)
    pub open spec fn ok(&self) -> bool { let l = self.lay(); wf(l) && fits(l.shape.dims@) && prod(l.shape.dims@) >= 0 && self.store().count() * width(self.store().dt()) <= usize::MAX && (is_row_major(l.strides@, l.shape.dims@) ==> l.offset + prod(l.shape.dims@) <= self.store().count()) }
    #[verifier::external_body] pub fn layout(&self) -> (r: Layout) ensures r == self.lay() { unimplemented!() }
    #[verifier::external_body] pub fn shape(&self) -> (r: Shape) ensures r == self.lay().shape { unimplemented!() }
    #[verifier::external_body] pub fn dtype(&self) -> (r: DType) ensures r == self.store().dt() { unimplemented!() }
    #[verifier::external_body] pub fn vx_cpu(&self) -> (r: HoduResult<CpuStorage>) ensures r is Ok ==> r->Ok_0 == self.store() { unimplemented!() }
    #[verifier::external_body] pub fn to_device(&self, d: Device) -> (r: HoduResult<Tensor>) ensures r is Ok ==> r->Ok_0.lay() == self.lay() && r->Ok_0.store() == self.store() { unimplemented!() }
}
#[verifier::external_body] pub fn from_storage_with_context(s: BackendStorage, l: Layout, a: bool, b: bool) -> (r: Tensor) ensures r.lay() == l, BackendStorage::CPU(r.store()) == s { unimplemented!() }
/// the tensor a byte string of this type and these extents stands for
pub open spec fn loaded(t: Tensor, b: Seq<u8>, dims: Seq<usize>, d: DType) -> bool { t.lay().shape.dims@ == dims && t.lay().offset == 0 && is_row_major(t.lay().strides@, dims) && t.store().holds(b, d) && b.len() == prod(dims) * width(d) }
pub open spec fn pos_prod(s: Seq<usize>, i: int) -> int decreases i { if i <= 0 { 1 } else { pos_prod(s, i - 1) * (if s[i - 1] == 0 { 1 } else { s[i - 1] as int }) } }
pub proof fn lemma_pos_prod_up(s: Seq<usize>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures 1 <= pos_prod(s, i) <= pos_prod(s, j) decreases j { if j > 0 { if i < j { lemma_pos_prod_up(s, i, j - 1); let (a, b) = (pos_prod(s, j - 1), if s[j - 1] == 0 { 1 } else { s[j - 1] as int }); assert(a * b >= a) by(nonlinear_arith) requires a >= 1, b >= 1; } else { lemma_pos_prod_up(s, i - 1, j - 1); let (a, b) = (pos_prod(s, j - 1), if s[j - 1] == 0 { 1 } else { s[j - 1] as int }); assert(a * b >= 1) by(nonlinear_arith) requires a >= 1, b >= 1; } } }
pub proof fn lemma_pos_prod_fits(s: Seq<usize>, i: int) requires 0 <= i <= s.len(), pos_prod(s, s.len() as int) <= usize::MAX ensures 0 <= prod(s.skip(i)), pos_prod(s, i) * prod(s.skip(i)) <= pos_prod(s, s.len() as int) decreases s.len() - i {
    if i < s.len() { lemma_pos_prod_fits(s, i + 1); lemma_prod_skip(s, i); lemma_pos_prod_up(s, 0, i); let (p, x, q, t) = (pos_prod(s, i), s[i] as int, prod(s.skip(i + 1)), pos_prod(s, s.len() as int)); lemma_pos_prod_up(s, i, s.len() as int);
        if x == 0 { assert(x * q == 0 && p * (x * q) == 0) by(nonlinear_arith) requires x == 0; } else { assert(x * q >= 0 && p * (x * q) == (p * x) * q) by(nonlinear_arith) requires x >= 0, q >= 0; } }
    else { assert(s.skip(i) =~= Seq::empty()); assert(prod(s.skip(i)) == 1); } }
pub proof fn lemma_fits(s: Seq<usize>) requires pos_prod(s, s.len() as int) <= usize::MAX ensures fits(s) { assert forall|i: int| 0 <= i <= s.len() implies 0 <= #[trigger] prod(s.skip(i)) <= usize::MAX by { lemma_pos_prod_fits(s, i); lemma_pos_prod_up(s, 0, i); let (p, q) = (pos_prod(s, i), prod(s.skip(i))); assert(p * q >= q) by(nonlinear_arith) requires p >= 1, q >= 0; } assert(s.skip(0) =~= s); }
// ---- the codec (postcard): assumed ----
pub uninterp spec fn penc<T>(x: T) -> Seq<u8>;
pub uninterp spec fn pdec<T>(d: Seq<u8>) -> Option<(T, Seq<u8>)>;
/// reading back what was written, whatever follows
#[verifier::external_body] pub proof fn codec_reads_back<T>(x: T, s: Seq<u8>) ensures pdec::<T>(penc(x) + s) == Some((x, s)) {}
/// what is read does not depend on what follows
#[verifier::external_body] pub proof fn codec_is_local<T>(d: Seq<u8>, s: Seq<u8>) requires pdec::<T>(d) is Some ensures pdec::<T>(d + s) == Some(((pdec::<T>(d)->0).0, (pdec::<T>(d)->0).1 + s)) {}
pub mod error { pub use crate::{HoduError, HoduResult}; }
pub mod postcard { pub enum Error { WontImplement, SerdeSerCustom, SerdeDeCustom, DeserializeUnexpectedEnd } }
#[verifier::external_body] pub fn vx_take<'a, T>(d: &'a [u8]) -> (r: Result<(T, &'a [u8]), postcard::Error>) ensures match pdec::<T>(d@) { Some(p) => r is Ok && r->Ok_0.0 == p.0 && r->Ok_0.1@ == p.1, None => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn vx_alloc<T>(x: &T) -> (r: Result<Vec<u8>, postcard::Error>) ensures r is Ok ==> r->Ok_0@ == penc(*x) { unimplemented!() }
pub fn vx_err<T, E>(r: Result<T, E>) -> (o: HoduResult<T>) ensures r is Ok ==> o is Ok && o->Ok_0 == r->Ok_0, r is Err ==> o is Err { match r { Ok(x) => Ok(x), Err(_) => Err(HoduError) } }
/// the value a whole file stands for
pub open spec fn exactly<T>(d: Seq<u8>) -> Option<T> { match pdec::<T>(d) { Some(p) => if p.1.len() == 0 { Some(p.0) } else { None }, None => None } }
'''
def chains(body):
    """X.iter()/chunks_exact(N) .map/.flat_map(|v| E).collect()  ->  the loop it stands for"""
    while True:
        m = re.search(r"(\w+)\s*\.(iter|chunks_exact)\((\d*)\)\s*\.(map|flat_map)\(\|(&?)(\w+)\|\s*", body)
        if not m: return body
        o = body.rindex("(", 0, m.start(5)); c = match_close(body, o)
        e = re.match(r"\s*\.collect(?:::<[^()]*>)?\(\)", body[c + 1:])
        if not e: raise LostAnchor("map without collect")
        src, kind, n, how, amp, v = m.groups(); E = body[m.end():c].strip()
        if kind == "chunks_exact": hdr, bindv = "vx_k < vx_src.len() / %s" % n, "let %s = vx_sub(vx_src, vx_k * %s, vx_k * %s + %s);" % (v, n, n, n)
        else: hdr, bindv = "vx_k < vx_src.len()", "let %s = %svx_src[vx_k];" % (v, "" if amp else "&")
        put = "let vx_e = %s; vx_put(&mut vx_out, vx_e.as_slice());" % E if how == "flat_map" else "let vx_e = %s; vx_out.push(vx_e);" % E
        body = body[:m.start()] + "{ let vx_src = %s; let mut vx_out = Vec::new(); let mut vx_k: usize = 0; while %s { %s %s vx_k += 1; } vx_out }" % (src, hdr, bindv, put) + body[c + 1 + e.end():]
def nloops(file, fn):
    try: return len(find_loops(chains(Source(file).fn(None, fn).body)))
    except Exception: return 0
LE = [(r"(\w+)::from_le_bytes\(\[((?:\w+\[\d\],? ?)+)\]\)", lambda m: "{ let vx_a = [%s]; proof { assert(vx_a@ =~= %s@); } vx_ld::<%s, %d>(vx_a) }" % (m.group(2), m.group(2).split("[")[0], m.group(1), m.group(2).count("["))), (r"(\w+)\.to_le_bytes\(\)", r"vx_le(\1)"),
      (r"use float8::F8E4M3;|use float8::F8E5M2;|use half::\{[^}]*\};", ""), (r"(\w+)\.to_vec\(\)", r"vx_cp(\1)"), (r"[\s\S]+", lambda m: chains(m.group(0)))]
LSER = lambda n: [dict(match="vx_src", inv="vx_k <= vx_src@.len(), vx_out@ == ser(vx_src@.subrange(0, vx_k as int))", dec="vx_src.len() - vx_k", before="proof { assert(vx_src@.subrange(0, 0) =~= Seq::empty()); } ",
    tail=" proof { let t = vx_src@.subrange(0, vx_k as int); assert(t.drop_last() =~= vx_src@.subrange(0, vx_k - 1)); assert(t.last() == vx_src@[vx_k - 1]); assert(vx_out@ =~= ser(t)); }",
    after=" proof { assert(vx_src@.subrange(0, vx_k as int) =~= vx_src@); }")] * n
LDE = lambda n: [dict(match="vx_src", inv="vx_src@ == data@, data@.len() <= usize::MAX, de_to(vx_out@, vx_src@, vx_k as int), HIPLACE", dec="LIPLACE - vx_k", before="", head="", tail="", after="")] * n
def lde(file, fn):
    """loop annotations of the byte decoder: element width read off the loop's own header"""
    out = []
    try: hs = find_loops(chains(Source(file).fn(None, fn).body))
    except Exception: return []
    for h in hs:
        m = re.search(r"/ (\d+)$", h[3]); w = int(m.group(1)) if m else 1; lim = "vx_src@.len() / %d" % w if m else "vx_src@.len()"
        out.append(dict(match="vx_src", inv="vx_src@ == data@, vx_k <= %s, de_to(vx_out@, vx_src@, vx_k as int)" % lim, dec="%s - vx_k" % (lim.replace("@", "")),
            head="let ghost vx_o = vx_out@; proof { %s } " % ("vstd::arithmetic::div_mod::lemma_fundamental_div_mod(vx_src@.len() as int, %d); " % w if m else ""),
            tail=" proof { assert(vx_out@ =~= vx_o.push(vx_out@.last())); }", after=" proof { lemma_de_end(vx_out@, vx_src@, vx_k as int); }"))
    return out
INTO = [(r"shape\.into\(\)", "shape")]
FOLD = [(r"self\s*\.dims\s*\.iter\(\)\s*\.try_fold\(\s*([^|]*?),\s*\|(\w+), &(\w+)\|\s*(.*?)\)\s*\?;",
  r"{ let mut vx_acc: Option<usize> = Some(\1); let vx_v = &self.dims; let mut vx_i: usize = 0; while vx_i < vx_v.len() && vx_acc.is_some() { let \2 = vx_acc.unwrap(); let \3 = vx_v[vx_i]; vx_acc = \4; vx_i += 1; } vx_acc }?;"),
  (r"(\w+)\.max\((\w+)\)", r"(if \1 > \2 { \1 } else { \2 })")]
CHECKED = Contract(SH, "Shape", "checked_size", ensures="r is Some <==> pos_prod(self.dims@, self.dims@.len() as int) <= usize::MAX, r is Some ==> fits(self.dims@) && r->0 == prod(self.dims@)", extra=FOLD,
  before=[(r"Some\(self\.size\(\)\)", "proof { lemma_fits(self.dims@); } ")], loops=[dict(match="vx_acc", dec="vx_v.len() - vx_i", inv="vx_v@ == self.dims@, vx_i <= vx_v@.len(), vx_acc is Some ==> vx_acc->0 == pos_prod(self.dims@, vx_i as int), vx_acc is None ==> pos_prod(self.dims@, self.dims@.len() as int) > usize::MAX",
    tail=" proof { assert(pos_prod(self.dims@, vx_i as int) == pos_prod(self.dims@, vx_i - 1) * (if self.dims@[vx_i - 1] == 0 { 1 } else { self.dims@[vx_i - 1] as int })); lemma_pos_prod_up(self.dims@, vx_i as int, self.dims@.len() as int); }")])
def and_then(body):
    while True:
        m = re.search(r"(\w+(?:\s*\.\s*\w+)*)\s*\.checked_size\(\)\s*\.and_then\(\|(\w+)\| ", body)
        if not m: return body
        o = body.index("(", body.index(".and_then", m.start())); c = match_close(body, o)
        body = body[:m.start()] + "(match %s.checked_size() { Some(%s) => %s, None => None })" % (m.group(1), m.group(2), body[m.end():c]) + body[c + 1:]
ANDTHEN = [(r"[\s\S]+", lambda m: and_then(m.group(0)))]
TOB = Contract(BY, "Tensor", "to_bytes", requires="self.ok()", ensures="r is Ok ==> saves(r->Ok_0@, self.store(), self.lay())",
  extra=[(r"self\.with_storage\(\|(\w+)\| \1\.to_cpu_storage\(\)\)", "self.vx_cpu()"), (r"Ok\((\w+)\[(\w+)\.\.(\w+)\]\.to_vec\(\)\)", r"let vx_r = vx_cutv(&\1, \2, \3); proof { lemma_saves_part(vx_r@, self.store(), self.lay()); } Ok(vx_r)"),
    (r"return Ok\(storage_to_bytes\(&contiguous\)\);", "let vx_r = storage_to_bytes(&contiguous); proof { lemma_saves_copy(vx_r@, contiguous, self.store(), self.lay()); } return Ok(vx_r);")],
  before=[(r"let start", "proof { let (o, n, w, c) = (layout.offset as int, prod(layout.shape.dims@), width(self.store().dt()), self.store().count()); lemma_bytes(self.store()); assert(o * w + n * w <= c * w && 0 <= o * w && 0 <= n * w) by(nonlinear_arith) requires o + n <= c, w > 0, o >= 0, n >= 0; } ")])
FROMB = Contract(BY, "Tensor", "from_bytes", params="data: &[u8], shape: Shape, dtype: DType, device: Device",
  ensures="r is Ok ==> loaded(r->Ok_0, data@, shape.dims@, dtype) && fits(shape.dims@), pos_prod(shape.dims@, shape.dims@.len() as int) <= usize::MAX && data@.len() != prod(shape.dims@) * width(dtype) ==> r is Err, pos_prod(shape.dims@, shape.dims@.len() as int) > usize::MAX ==> r is Err, device is CPU && pos_prod(shape.dims@, shape.dims@.len() as int) <= usize::MAX && data@.len() == prod(shape.dims@) * width(dtype) ==> r is Ok",
  extra=[(r"let shape = shape\.into\(\);", "let vx_n = data.len();")] + ANDTHEN)
CODEC = [(r"\((\w+), \[\]\) =>", r"(\1, vx_rest) if vx_rest.len() == 0 =>"), (r"postcard::take_from_bytes\(", "vx_take("), (r"postcard::to_allocvec\(", "vx_alloc("), (r"crate::error::", ""),
  (r"(\w+\([\w&]*\))\s*\.map_err\(\|\w+\| HoduError\)", r"vx_err(\1)"), (r"\(Self, &\[u8\]\) = vx_err", "(Snapshot, &[u8]) = vx_err")]
DIMV = [(r"tensor\.shape\(\)\.dims\(\)\.to_vec\(\)", "vx_to_vec(tensor.shape().dims())")]
HDTS = r"""
/// what a saved tensor is: its extents, element type and logical elements
pub open spec fn image(x: TensorData, t: Tensor) -> bool { x.shape@ == t.lay().shape.dims@ && x.dtype == t.store().dt() && saves(x.data@, t.store(), t.lay()) }
pub mod serde { use super::*; pub trait Deserialize<'a>: Sized {} impl<'a> Deserialize<'a> for TensorData {} impl<'a> Deserialize<'a> for Snapshot {} }
"""
EXACT = Contract(HD, None, "from_bytes_exact", ensures="r is Ok ==> exactly::<T>(data@) == Some(r->Ok_0), r is Err ==> exactly::<T>(data@) is None", extra=CODEC)
SERI = Contract(HD, None, "serialize", requires="tensor.ok()", ensures="r is Ok ==> exists|x: TensorData| #[trigger] image(x, *tensor) && r->Ok_0@ == penc(x)", extra=CODEC + DIMV, before=[(r"vx_err\(vx_alloc", "proof { assert(image(tensor_data, *tensor)); } ")])
DESE = Contract(HD, None, "deserialize", ensures="r is Ok ==> exactly::<TensorData>(data@) is Some && ({ let x = exactly::<TensorData>(data@)->0; loaded(r->Ok_0, x.data@, x.shape@, x.dtype) })", extra=CODEC)
SNAPS = r"""
#[verifier::external_body] pub struct Op { x: u8 }
#[verifier::external_body] pub struct OpParams { x: u8 }
#[verifier::external_body] pub struct SymbolicLayout { x: u8 }
pub open spec fn const_ok(c: SnapshotConstant) -> bool { pos_prod(c.shape.dims@, c.shape.dims@.len() as int) <= usize::MAX && c.data@.len() == prod(c.shape.dims@) * width(c.dtype) }
pub open spec fn node_ok(n: SnapshotNode) -> bool { wf(n.output_layout) && forall|i: int| 0 <= i < n.input_layouts@.len() ==> wf(#[trigger] n.input_layouts@[i]) }
/// constants have the bytes their extents and types call for; layouts have a stride per axis
pub open spec fn consistent(s: Snapshot) -> bool { (forall|i: int| 0 <= i < s.constants@.len() ==> const_ok(#[trigger] s.constants@[i])) && (forall|i: int| 0 <= i < s.nodes@.len() ==> node_ok(#[trigger] s.nodes@[i])) }
/// std's chain and once (assumed)
#[verifier::external_body] pub fn vx_with<'a, T>(v: &'a Vec<T>, x: &'a T) -> (r: Vec<&'a T>) ensures r@.len() == v@.len() + 1, *r@[v@.len() as int] == *x, forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }
pub fn vx_is(o: Option<usize>, n: usize) -> (r: bool) ensures r == (o == Some(n)) { match o { Some(x) => x == n, None => false } }
"""
CHAIN = [(r"(\w+\.\w+)\.iter\(\)\.chain\(std::iter::once\((&\w+\.\w+)\)\)", r"&vx_with(&\1, \2)"), (r"(\w+) != Some\(([^{}]*?)\) \{", r"!vx_is(\1, \2) {")]
CONS = Contract(SN, "Snapshot", "check_consistency", ensures="r is Ok ==> consistent(*self), r is Err ==> !consistent(*self)", extra=CODEC + ANDTHEN + CHAIN, loops=[
  dict(match="constants", inv="vx_s0@ == self.constants@, forall|i: int| 0 <= i < vx_i0 ==> const_ok(#[trigger] self.constants@[i])", head="proof { assert(self.constants@[vx_i0 as int] == vx_s0@[vx_i0 as int]); } "),
  dict(match="nodes", inv="vx_s1@ == self.nodes@, forall|i: int| 0 <= i < self.constants@.len() ==> const_ok(#[trigger] self.constants@[i]), forall|i: int| 0 <= i < vx_i1 ==> node_ok(#[trigger] self.nodes@[i])", head="proof { assert(self.nodes@[vx_i1 as int] == vx_s1@[vx_i1 as int]); } "),
  dict(match="vx_with", inv="vx_i1 < self.nodes@.len(), *node == self.nodes@[vx_i1 as int], vx_s2@.len() == node.input_layouts@.len() + 1, *vx_s2@[node.input_layouts@.len() as int] == node.output_layout, forall|i: int| 0 <= i < node.input_layouts@.len() ==> *(#[trigger] vx_s2@[i]) == node.input_layouts@[i], forall|i: int| 0 <= i < vx_i2 ==> wf(*(#[trigger] vx_s2@[i]))",
    head="proof { if vx_i2 < node.input_layouts@.len() { assert(*vx_s2@[vx_i2 as int] == node.input_layouts@[vx_i2 as int]); } } ",
    after=" proof { assert forall|i: int| 0 <= i < node.input_layouts@.len() implies wf(#[trigger] node.input_layouts@[i]) by { assert(wf(*vx_s2@[i])); } assert(wf(*vx_s2@[node.input_layouts@.len() as int])); }")])
SFROM = Contract(SN, "Snapshot", "from_bytes", ensures="r is Ok ==> exactly::<Snapshot>(data@) == Some(r->Ok_0) && consistent(r->Ok_0), r is Err ==> exactly::<Snapshot>(data@) is None || !consistent(exactly::<Snapshot>(data@)->0)", extra=CODEC + [(r"!rest\.is_empty\(\)", "rest.len() != 0")])
STO = Contract(SN, "Snapshot", "to_bytes", ensures="r is Ok ==> r->Ok_0@ == penc(*self)", extra=CODEC)
END_ = r"""
/// bytes decoded and encoded give the same elements back, whatever the type
proof fn T16_bytes_round_trip(s: CpuStorage, b: CpuStorage) requires b.holds(s.bytes(), s.dt()) ensures b.same(s) { match s { """ + ", ".join("CpuStorage::%s(d) => { lemma_de_ser(d@); }" % v for v, _, n in TYPES) + r""" } }
proof fn lemma_back<T: Elem>(o: Seq<T>, b: Seq<u8>, p: int, e: T) requires o == de::<T>(b), 0 <= p < o.len(), b.subrange(p * T::sz(), (p + 1) * T::sz()) == e.enc() ensures o[p] == e { T::law(e); }
/// the tensor loaded from what was saved has the type, the extents and, at every coordinate, the element of the tensor saved
proof fn T16_loaded_is_what_was_saved(t: Tensor, u: Tensor, x: TensorData, c: Seq<int>) requires t.ok(), image(x, t), loaded(u, x.data@, x.shape@, x.dtype), in_box(c, t.lay().shape.dims@)
    ensures u.store().dt() == t.store().dt(), u.lay().shape.dims@ == t.lay().shape.dims@, u.store().count() == prod(u.lay().shape.dims@), u.store().at(u.lay().offset + dot(c, u.lay().strides@)) == t.store().at(t.lay().offset + dot(c, t.lay().strides@)) {
    let d = x.shape@; lemma_holds_count(u.store(), x.data@, x.dtype); let (n, w) = (prod(d), width(x.dtype)); vstd::arithmetic::div_mod::lemma_div_by_multiple(n, w); lemma_pos_bound(c, d); lemma_pos_contig(c, u.lay().strides@, d); let p = pos(c, d); let i = t.lay().offset + dot(c, t.lay().strides@);
    match (u.store(), t.store()) { """ + ", ".join("(CpuStorage::%s(a), CpuStorage::%s(b)) => { lemma_back(a@, x.data@, p, b@[i]); }" % (v, v) for v, _, n in TYPES) + r""", _ => {} } }
/// a file with anything after the tensor is refused
proof fn T16_extension_is_refused<T>(x: T, s: Seq<u8>) requires s.len() > 0 ensures exactly::<T>(penc(x) + s) is None { codec_reads_back(x, s); }
/// every file cut short is refused
proof fn T16_truncation_is_refused<T>(x: T, k: int) requires 0 <= k < penc(x).len() ensures exactly::<T>(penc(x).subrange(0, k)) is None {
    let (d, s) = (penc(x).subrange(0, k), penc(x).subrange(k, penc(x).len() as int)); assert(d + s =~= penc(x) + Seq::<u8>::empty()); codec_reads_back(x, Seq::<u8>::empty());
    if exactly::<T>(d) is Some { codec_is_local::<T>(d, s); assert(((pdec::<T>(d)->0).1 + s).len() == (pdec::<T>(d)->0).1.len() + s.len()); } }
/// what was written reads back
proof fn T16_whole_file_is_read_back<T>(x: T) ensures exactly::<T>(penc(x)) == Some(x) { codec_reads_back(x, Seq::<u8>::empty()); assert(penc(x) + Seq::<u8>::empty() =~= penc(x)); }
"""
pick = UM.pick
LEMS = UR.SPEC.split("#[verifier::external_body] pub struct Tensor")[0]
UNIT = Unit("format", [("struct", SH, "Shape"), ("struct", LA, "Layout"), ("denum", DT, "DType"), ("denum", DV, "Device"), ("raw", LEMS), ("struct", ST, "CpuStorage"), ("raw", SPEC),
  ("impl", "Shape", SH, pick(UL.SHAPE_FNS, "new", "dims", "ndim", "size") + [CHECKED]), ("impl", "Layout", LA, pick(UL.LAYOUT_FNS, "from_shape", "compute_strides", "shape", "strides", "offset", "ndim", "size", "is_contiguous")),
  ("impl", "DType", DT, [Contract(DT, "DType", "size_in_bytes", ensures="r == width(*self)")]),
  ("impl", None, BY, [Contract(BY, None, "storage_to_bytes", ensures="r@ == storage.bytes()", extra=LE, loops=LSER(nloops(BY, "storage_to_bytes"))),
    Contract(BY, None, "bytes_to_storage", ensures="r is Ok, r->Ok_0.holds(data@, dtype)", extra=LE, loops=lde(BY, "bytes_to_storage"))]),
  ("impl", "Tensor", BY, [TOB, FROMB]),
  ("struct", HD, "TensorData"), ("struct", SN, "SnapshotTensorId"), ("struct", SN, "SnapshotInput"), ("struct", SN, "SnapshotTarget"), ("struct", SN, "SnapshotConstant"), ("struct", SN, "SnapshotNode"), ("struct", SN, "Snapshot"), ("raw", HDTS + SNAPS),
  ("impl", None, HD, [EXACT, SERI, DESE]), ("impl", "Snapshot", SN, [CONS, SFROM, STO]), ("raw", END_)])
def run(prop, u): return unit_result(UNIT.run(), u.get("fns"))
if __name__ == "__main__": report(UNIT)
