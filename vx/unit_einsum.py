"""Contracts for crates/hodu_core/src/einsum.rs (property T05) and the einsum record of op_metadatas.rs (T04)."""
from vx import *
import unit_layout as UL, unit_meta as UM
SH, LA, OM = UL.SH, UL.LA, UM.OM
EI = "crates/hodu_core/src/einsum.rs"
SPEC = r'''
use vstd::string::*;
// ---- text (trusted: what std's str and String functions do) ----
pub open spec fn found(s: Seq<char>, sep: Seq<char>, i: int) -> bool { 0 <= i && i + sep.len() <= s.len() && s.subrange(i, i + sep.len()) == sep }
/// first position at or after i where sep stands; s.len() when none does
pub open spec fn first(s: Seq<char>, sep: Seq<char>, i: int) -> int decreases s.len() - i { if i >= s.len() || found(s, sep, i) { i } else { first(s, sep, i + 1) } }
/// s cut at every sep
pub open spec fn cut(s: Seq<char>, sep: Seq<char>) -> Seq<Seq<char>> decreases s.len() { let i = first(s, sep, 0); if sep.len() == 0 || i < 0 || i >= s.len() || !found(s, sep, i) { seq![s] } else { seq![s.take(i)] + cut(s.skip(i + sep.len()), sep) } }
pub open spec fn despaced(s: Seq<char>) -> Seq<char> { s.filter(|c: char| c != ' ') }
pub open spec fn arrow() -> Seq<char> { seq!['-', '>'] }
pub open spec fn comma() -> Seq<char> { seq![','] }
#[verifier::external_body] pub fn vx_despace(s: &str) -> (r: String) ensures r@ == despaced(s@) { s.replace(' ', "") }
#[verifier::external_body] pub fn vx_has_arrow(s: &String) -> (r: bool) ensures r == (cut(s@, arrow()).len() > 1) { s.contains("->") }
#[verifier::external_body] pub fn vx_cut_arrow(s: &String) -> (r: Vec<&str>) ensures r@.len() == cut(s@, arrow()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == cut(s@, arrow())[i] { s.split("->").collect() }
#[verifier::external_body] pub fn vx_cut_comma(s: &str) -> (r: Vec<Vec<char>>) ensures r@.len() == cut(s@, comma()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == cut(s@, comma())[i] { s.split(',').map(|s| s.chars().collect()).collect() }
#[verifier::external_body] pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
// ---- hash maps and sets of characters (trusted: std's) ----
#[verifier::external_body] pub struct CharMap { m: std::collections::HashMap<char, usize> }
impl CharMap {
    pub uninterp spec fn view(&self) -> Map<char, int>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<char, int>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, c: &char) -> (r: Option<&usize>) ensures r is Some <==> self@.contains_key(*c), r is Some ==> *r->0 == self@[*c] { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, c: &char) -> (r: usize) requires self@.contains_key(*c) ensures r == self@[*c] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, c: &char) -> (r: bool) ensures r == self@.contains_key(*c) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, c: char, n: usize) -> (r: Option<usize>) ensures final(self)@ == old(self)@.insert(c, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn vx_bump(&mut self, c: char) ensures final(self)@ == old(self)@.insert(c, (if old(self)@.contains_key(c) { old(self)@[c] } else { 0 }) + 1) { unimplemented!() }
    #[verifier::external_body] pub fn vx_keys(&self) -> (r: Vec<char>) ensures r@.no_duplicates(), forall|c: char| #[trigger] r@.contains(c) <==> self@.contains_key(c) { unimplemented!() }
}
#[verifier::external_body] pub struct CharSet { m: std::collections::HashSet<char> }
impl CharSet {
    pub uninterp spec fn view(&self) -> Set<char>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, c: char) -> (r: bool) ensures r == !old(self)@.contains(c), final(self)@ == old(self)@.insert(c) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, c: &char) -> (r: bool) ensures r == self@.contains(*c) { unimplemented!() }
}
pub open spec fn ascending(s: Seq<char>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i] as u32) < (#[trigger] s[j] as u32) }
/// sorting distinct characters
#[verifier::external_body] pub fn vx_sort(v: &mut Vec<char>) requires old(v)@.no_duplicates() ensures ascending(final(v)@), forall|c: char| #[trigger] final(v)@.contains(c) <==> old(v)@.contains(c) { v.sort() }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_place(v: &Vec<char>, c: &char) -> (r: Option<usize>) ensures match r { Some(k) => place(v@, *c) == k && k < v@.len() && v@[k as int] == *c, None => !v@.contains(*c) } {
    let mut k: usize = 0;
    while k < v.len() invariant k <= v.len(), forall|j: int| 0 <= j < k ==> v@[j] != *c decreases v.len() - k { if v[k] == *c { proof { lemma_place(v@, *c, k as int); } return Some(k); } k += 1; }
    None }
/// where c stands in s (its first position)
pub open spec fn place(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 || s[0] == c { 0 } else { 1 + place(s.skip(1), c) } }
pub proof fn lemma_place(s: Seq<char>, c: char, k: int) requires 0 <= k < s.len(), s[k] == c, forall|j: int| 0 <= j < k ==> s[j] != c ensures place(s, c) == k decreases k {
    if k > 0 { assert(s[0] != c); assert forall|j: int| 0 <= j < k - 1 implies s.skip(1)[j] != c by { assert(s.skip(1)[j] == s[j + 1]); } lemma_place(s.skip(1), c, k - 1); } }
// ---- what an equation denotes ----
pub open spec fn sides(eq: Seq<char>) -> Seq<Seq<char>> { cut(despaced(eq), arrow()) }
pub open spec fn ins(eq: Seq<char>) -> Seq<Seq<char>> { cut(sides(eq)[0], comma()) }
/// position b of operand a
pub open spec fn spot(s: Seq<Seq<char>>, a: int, b: int) -> bool { 0 <= a < s.len() && 0 <= b < s[a].len() }
pub open spec fn occurs(s: Seq<Seq<char>>, c: char) -> bool { exists|a: int, b: int| #[trigger] spot(s, a, b) && s[a][b] == c }
pub open spec fn ranked(s: Seq<Seq<char>>, sh: Seq<&Shape>) -> bool { s.len() == sh.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == sh[i].dims@.len() }
pub open spec fn consistent(s: Seq<Seq<char>>, sh: Seq<&Shape>) -> bool { forall|a: int, b: int, c: int, d: int| #[trigger] spot(s, a, b) && #[trigger] spot(s, c, d) && s[a][b] == s[c][d] ==> sh[a].dims@[b] == sh[c].dims@[d] }
pub open spec fn count1(s: Seq<char>, c: char, k: int) -> int decreases k { if k <= 0 { 0 } else { count1(s, c, k - 1) + (if s[k - 1] == c { 1int } else { 0int }) } }
pub open spec fn count(s: Seq<Seq<char>>, c: char, k: int) -> int decreases k { if k <= 0 { 0 } else { count(s, c, k - 1) + count1(s[k - 1], c, s[k - 1].len() as int) } }
pub open spec fn kept(s: Seq<char>, p: spec_fn(char) -> bool) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if p(s.last()) { kept(s.drop_last(), p).push(s.last()) } else { kept(s.drop_last(), p) } }
pub open spec fn good_output(o: Seq<char>, s: Seq<Seq<char>>) -> bool { o.no_duplicates() && forall|i: int| 0 <= i < o.len() ==> occurs(s, #[trigger] o[i]) }
/// the equation is well formed for these shapes
pub open spec fn accepted(eq: Seq<char>, sh: Seq<&Shape>) -> bool { sides(eq).len() <= 2 && ranked(ins(eq), sh) && consistent(ins(eq), sh) && (sides(eq).len() == 2 ==> good_output(sides(eq)[1], ins(eq))) }
pub open spec fn views(v: Seq<Vec<char>>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// what a parsed equation must say, whichever way it was obtained
pub open spec fn sizes_of(m: Map<char, int>, s: Seq<Seq<char>>, sh: Seq<&Shape>) -> bool { (forall|c: char| #[trigger] m.contains_key(c) <==> occurs(s, c)) && forall|a: int, b: int| #[trigger] spot(s, a, b) ==> m[s[a][b]] == sh[a].dims@[b] }
pub open spec fn alphabet(all: Seq<char>, s: Seq<Seq<char>>) -> bool { ascending(all) && forall|c: char| #[trigger] all.contains(c) <==> occurs(s, c) }
pub open spec fn denotes(p: ParsedEinsum, s: Seq<Seq<char>>, sh: Seq<&Shape>, o: Seq<char>) -> bool {
    views(p.input_subscripts@) == s && p.output_subscripts@ == o && alphabet(p.all_indices@, s) && sizes_of(p.index_sizes@, s, sh) && p.contraction_indices@ == kept(p.all_indices@, |c: char| !o.contains(c)) }
/// every index of a parsed equation is known
pub open spec fn wf_in(p: ParsedEinsum, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> p.all_indices@.contains(#[trigger] s[i]) }
pub open spec fn wf(p: ParsedEinsum) -> bool { p.all_indices@.no_duplicates() && wf_in(p, p.output_subscripts@) && wf_in(p, p.contraction_indices@) && (forall|a: int| 0 <= a < p.input_subscripts@.len() ==> wf_in(p, (#[trigger] p.input_subscripts@[a])@)) && forall|c: char| #[trigger] p.all_indices@.contains(c) ==> p.index_sizes@.contains_key(c) && 0 <= p.index_sizes@[c] <= usize::MAX }
pub open spec fn ids(p: ParsedEinsum, s: Seq<char>) -> Seq<usize> { Seq::new(s.len(), |i: int| place(p.all_indices@, s[i]) as usize) }
pub open spec fn extents(p: ParsedEinsum, s: Seq<char>) -> Seq<usize> { Seq::new(s.len(), |i: int| p.index_sizes@[s[i]] as usize) }
/// running product of the first k extents
pub open spec fn run_prod(s: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 1 } else { run_prod(s, k - 1) * s[k - 1] } }
pub open spec fn run_fits(s: Seq<usize>) -> bool { forall|k: int| 0 <= k <= s.len() ==> 0 <= #[trigger] run_prod(s, k) <= usize::MAX }
pub proof fn lemma_kept(s: Seq<char>, p: spec_fn(char) -> bool, i: int) requires 0 <= i < s.len() ensures kept(s.take(i + 1), p) == (if p(s[i]) { kept(s.take(i), p).push(s[i]) } else { kept(s.take(i), p) }) { assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn lemma_kept_from(s: Seq<char>, p: spec_fn(char) -> bool) ensures forall|i: int| 0 <= i < kept(s, p).len() ==> s.contains(#[trigger] kept(s, p)[i]) && p(kept(s, p)[i]) decreases s.len() {
    if s.len() > 0 { lemma_kept_from(s.drop_last(), p); let k = kept(s, p); assert forall|i: int| 0 <= i < k.len() implies s.contains(#[trigger] k[i]) && p(k[i]) by {
        if p(s.last()) && i == k.len() - 1 { assert(s[s.len() - 1] == k[i]); } else { let q = kept(s.drop_last(), p); assert(k[i] == q[i]); let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == q[i]; assert(s[j] == k[i]); } } } }
/// kept depends on what the predicate says of the members
pub proof fn lemma_kept_ext(s: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool) requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i]) ensures kept(s, p) == kept(s, q) decreases s.len() { if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies p(#[trigger] t[i]) == q(t[i]) by { assert(t[i] == s[i]); } lemma_kept_ext(t, p, q); assert(p(s[s.len() - 1]) == q(s[s.len() - 1])); } }
pub proof fn lemma_ascending(s: Seq<char>) requires ascending(s) ensures s.no_duplicates() { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert((s[i] as u32) < (s[j] as u32)); } else { assert((s[j] as u32) < (s[i] as u32)); } } }
/// two ascending texts of the same characters are the same
pub proof fn lemma_parsed_wf(p: ParsedEinsum, s: Seq<Seq<char>>, sh: Seq<&Shape>, o: Seq<char>) requires denotes(p, s, sh, o), ranked(s, sh), forall|i: int| 0 <= i < o.len() ==> occurs(s, #[trigger] o[i]) ensures wf(p) {
    lemma_ascending(p.all_indices@); lemma_kept_from(p.all_indices@, |c: char| !o.contains(c));
    assert forall|i: int| 0 <= i < o.len() implies p.all_indices@.contains(#[trigger] o[i]) by { assert(occurs(s, o[i])); }
    assert forall|a: int| 0 <= a < p.input_subscripts@.len() implies wf_in(p, (#[trigger] p.input_subscripts@[a])@) by { assert(views(p.input_subscripts@)[a] == s[a]); assert forall|b: int| 0 <= b < s[a].len() implies p.all_indices@.contains(#[trigger] s[a][b]) by { assert(spot(s, a, b)); assert(occurs(s, s[a][b])); } }
    assert forall|c: char| #[trigger] p.all_indices@.contains(c) implies p.index_sizes@.contains_key(c) && 0 <= p.index_sizes@[c] <= usize::MAX by { assert(occurs(s, c)); let (a, b) = choose|a: int, b: int| #[trigger] spot(s, a, b) && s[a][b] == c; assert(p.index_sizes@[s[a][b]] == sh[a].dims@[b]); } }
/// the record of an einsum: one section per operand
pub open spec fn section(p: ParsedEinsum, l: Layout, i: int) -> Seq<usize> { Seq::<usize>::empty().push(nd(l)) + l.shape.dims@ + l.strides@ + seq![l.offset] + ids(p, p.input_subscripts@[i]@) }
pub open spec fn sections(p: ParsedEinsum, l: Seq<&Layout>, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else { sections(p, l, k - 1) + section(p, *l[k - 1], k - 1) } }
'''
END_ = r'''
/// the implicit output is in alphabetical order and holds exactly the indices that occur once
proof fn T05_implicit_output(all: Seq<char>, s: Seq<Seq<char>>, i: int, j: int) requires alphabet(all, s), 0 <= i < j < kept(all, |c: char| count(s, c, s.len() as int) == 1).len()
    ensures ({ let k = kept(all, |c: char| count(s, c, s.len() as int) == 1); (k[i] as u32) < (k[j] as u32) && count(s, k[i], s.len() as int) == 1 }) { lemma_kept_from(all, |c: char| count(s, c, s.len() as int) == 1); lemma_kept_sorted(all, |c: char| count(s, c, s.len() as int) == 1); }
proof fn lemma_kept_sorted(s: Seq<char>, p: spec_fn(char) -> bool) requires ascending(s) ensures ascending(kept(s, p)) decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i] as u32) < (#[trigger] t[j] as u32) by { assert((s[i] as u32) < (s[j] as u32)); } lemma_kept_sorted(t, p); lemma_kept_from(t, p); let k = kept(s, p); let q = kept(t, p);
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies (#[trigger] k[i] as u32) < (#[trigger] k[j] as u32) by { assert(k[i] == q[i]); if j < q.len() { assert(k[j] == q[j]); } else { assert(k[j] == s.last()); assert(t.contains(q[i])); let m = choose|m: int| 0 <= m < t.len() && t[m] == q[i]; assert((s[m] as u32) < (s[s.len() - 1] as u32)); } } } }
/// contracted and kept indices are exactly the alphabet, with nothing in both
proof fn T05_contracted_or_kept(p: ParsedEinsum, s: Seq<Seq<char>>, sh: Seq<&Shape>, o: Seq<char>, c: char) requires denotes(p, s, sh, o), forall|i: int| 0 <= i < o.len() ==> occurs(s, #[trigger] o[i])
    ensures occurs(s, c) <==> (o.contains(c) || p.contraction_indices@.contains(c)), !(o.contains(c) && p.contraction_indices@.contains(c)) {
    let f = |c: char| !o.contains(c); let k = p.contraction_indices@; lemma_kept_from(p.all_indices@, f); lemma_kept_has(p.all_indices@, f, c);
    if k.contains(c) { let i = choose|i: int| 0 <= i < k.len() && k[i] == c; assert(p.all_indices@.contains(k[i]) && f(k[i])); }
    if o.contains(c) { let i = choose|i: int| 0 <= i < o.len() && o[i] == c; assert(occurs(s, o[i])); } }
proof fn lemma_kept_has(s: Seq<char>, p: spec_fn(char) -> bool, c: char) requires s.contains(c), p(c) ensures kept(s, p).contains(c) decreases s.len() {}
'''
END_ = END_.replace("lemma_kept_has(p.all_indices@, f, c);", "if p.all_indices@.contains(c) && f(c) { lemma_kept_has(p.all_indices@, f, c); }").replace("ensures kept(s, p).contains(c) decreases s.len() {}", "ensures kept(s, p).contains(c) decreases s.len() { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; let t = s.drop_last(); let q = kept(t, p); if i == s.len() - 1 { assert(kept(s, p)[q.len() as int] == c); } else { assert(t[i] == c); lemma_kept_has(t, p, c); let m = choose|m: int| 0 <= m < q.len() && q[m] == c; assert(kept(s, p)[m] == c); } }")
MAP = lambda body: (r"([\w.]+)\.iter\(\)\s*\.map\(\|(\w+)\| %s\)\s*\.(collect|product)\(\)" % body[0], body[1])
# X.iter().map(|c| E).collect()/product()  ->  the loop it stands for
def loop_map(m):
    init, step = ("Vec::<usize>::new()", "vx_a.push(vx_e);") if m.group(4) == "collect" else ("1usize", "vx_a = vx_a * vx_e;")
    e = m.group(3)
    e = re.sub(r"([\w.]+)\.iter\(\)\.position\(\|(\w+)\| \2 == (\w+)\)", r"vx_place(&\1, \3)", e)
    e = re.sub(r"self\.index_sizes\[(&?\w+)\]", r"self.index_sizes.vx_at(\1)", e)
    return "{ let vx_x = &%s; let mut vx_a = %s; let mut vx_i: usize = 0; while vx_i < vx_x.len() { let %s = &vx_x[vx_i]; let vx_e = %s; %s vx_i += 1; } vx_a }" % (re.sub(r"^&", "", m.group(1)), init, m.group(2), e, step)
def loop_filter(m):
    return "{ let mut vx_a = Vec::<char>::new(); let mut vx_i: usize = 0; while vx_i < %s.len() { let vx_c = %s[vx_i]; if %s { vx_a.push(vx_c); } vx_i += 1; } vx_a }" % (m.group(1), m.group(1), m.group(4).strip().replace("&" + m.group(3), "&vx_c") if m.group(2) else re.sub(r"\b%s\b" % m.group(3), "&vx_c", m.group(4).strip()))
EX = UM.EX + [(r"equation\.replace\(' ', \"\"\)", "vx_despace(equation)"), (r"let equation = vx_despace\(equation\);([\s\S]*)$", lambda m: "let vx_q = vx_despace(equation);" + re.sub(r"\bequation\b", "vx_q", m.group(1))), (r"(\w+)\.contains\(\"->\"\)", r"vx_has_arrow(&\1)"), (r"(\w+)\.split\(\"->\"\)\.collect\(\)", r"vx_cut_arrow(&\1)"),
  (r"(\w+)\.split\(','\)\.map\(\|s\| s\.chars\(\)\.collect\(\)\)\.collect\(\)", r"vx_cut_comma(\1)"), (r"(\w+)\.chars\(\)\.collect\(\)", r"vx_chars(\1)"),
  (r"for \((\w+), \((\w+), (\w+)\)\) in (\w+)\.iter\(\)\.zip\((\w+)\.iter\(\)\)\.enumerate\(\) \{", r"for \1 in 0..vx_min(\4.len(), \5.len()) { let \2 = &\4[\1]; let \3 = &\5[\1];"),
  (r"if let Some\(&(\w+)\) = (\w+)\.get\(&(\w+)\) \{", r"if let Some(vx_r) = \2.get(&\3) { let \1 = *vx_r;"),
  (r"HashMap<char, usize>", "CharMap"), (r"HashSet<char>", "CharSet"), (r"HashMap::new\(\)", "CharMap::new()"), (r"HashSet::new\(\)", "CharSet::new()"),
  (r"(\w+)\.keys\(\)\.(?:cloned|copied)\(\)\.collect\(\)", r"\1.vx_keys()"), (r"(\w+)\.sort(?:_unstable)?\(\);", r"vx_sort(&mut \1);"), (r"\*(\w+)\.entry\((\w+)\)\.or_insert\(0\) \+= 1;", r"\1.vx_bump(\2);"),
  (r"(\w+)\.get\(&(\w+)\)\.copied\(\)\.unwrap_or\(0\)", r"(match \1.get(&\2) { Some(vx_r) => *vx_r, None => 0usize })"),
  (r"(\w+)\s*\.iter\(\)\s*\.filter\(\|(&&)?(\w+)\|\s*((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)\s*\.(?:cloned|copied)\(\)\s*\.collect\(\)", loop_filter),
  (r"((?:self\.)?\w+)\s*\.iter\(\)\s*\.map\(\|(\w+)\| ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)\s*\.(collect|product)\(\)", loop_map)]
def C(name, ens, req="", **k): return Contract(EI, "ParsedEinsum", name, ensures=ens, requires=req, extra=EX, **k)
VIS = "forall|a: int, b: int| #[trigger] spot(s, a, b) && %s ==> m@.contains_key(s[a][b]) && m@[s[a][b]] == input_shapes@[a].dims@[b]"
# which positions the size table has seen: everything before (i, j)
BEFORE = "(a < {i} || (a == {i} && b < {j}))"
SZ = "(forall|a: int, b: int| #[trigger] spot(s, a, b) && {v} ==> index_sizes@.contains_key(s[a][b]) && index_sizes@[s[a][b]] == input_shapes@[a].dims@[b]), (forall|c: char| #[trigger] index_sizes@.contains_key(c) ==> exists|a: int, b: int| #[trigger] spot(s, a, b) && {v} && s[a][b] == c && index_sizes@[c] == input_shapes@[a].dims@[b])"
def sz(i, j): return SZ.replace("{v}", BEFORE).replace("{i}", i).replace("{j}", j)
BASE = "eq0 == equation@, s == views(input_subscripts@), s == ins(eq0), s.len() == input_shapes@.len()"
CNT = "forall|c: char| #[trigger] tally(index_counts@, c) == %s"
LOOPS = [
  dict(match=r"for i in 0\.\.", inv=BASE + ", forall|k: int| 0 <= k < i ==> (#[trigger] s[k]).len() == input_shapes@[k].dims@.len()", head="assert(s[i as int] == input_subscripts@[i as int]@);"),
  dict(match="zip", before="proof { assert(ranked(s, input_shapes@)); } ", inv=BASE + ", ranked(s, input_shapes@), vx_s1@ == input_subscripts@, vx_t1@ == input_shapes@, " + sz("vx_i1", "0"), head="assert(subs@ == s[vx_i1 as int]); assert(*shape == input_shapes@[vx_i1 as int]);", after=" proof { assert(consistent(s, input_shapes@)); }"),
  dict(match="enumerate", inv=BASE + ", ranked(s, input_shapes@), vx_i1 < s.len(), subs@ == s[vx_i1 as int], *shape == input_shapes@[vx_i1 as int], vx_s2@ == subs@, " + sz("vx_i1", "vx_i2"),
     head="let ghost vx_m = index_sizes@; proof { assert(spot(s, vx_i1 as int, vx_i2 as int)); } ",
     tail=" proof { assert forall|c: char| #[trigger] index_sizes@.contains_key(c) implies exists|a: int, b: int| #[trigger] spot(s, a, b) && (a < vx_i1 || (a == vx_i1 && b < vx_i2 + 1)) && s[a][b] == c && index_sizes@[c] == input_shapes@[a].dims@[b] by { "
          "if vx_m.contains_key(c) && c != s[vx_i1 as int][vx_i2 as int] { let (a, b) = choose|a: int, b: int| #[trigger] spot(s, a, b) && (a < vx_i1 || (a == vx_i1 && b < vx_i2)) && s[a][b] == c && vx_m[c] == input_shapes@[a].dims@[b]; assert(spot(s, a, b)); } else { assert(spot(s, vx_i1 as int, vx_i2 as int)); } } }"),
  dict(match=r"&input_subscripts", inv=BASE + ", vx_s3@ == input_subscripts@, " + CNT % "count(s, c, vx_i3 as int)", head="assert(subs@ == s[vx_i3 as int]);"),
  dict(match=r"in subs", head="let ghost vx_m = index_counts@; ", tail=" proof { assert forall|d: char| #[trigger] tally(index_counts@, d) == seen4(s, d, vx_i3 as int, vx_i4 + 1) by { assert(tally(vx_m, d) == seen4(s, d, vx_i3 as int, vx_i4 as int)); } }", after=" proof { assert forall|d: char| #[trigger] tally(index_counts@, d) == count(s, d, vx_i3 + 1) by { assert(tally(index_counts@, d) == seen4(s, d, vx_i3 as int, subs@.len() as int)); } }", inv=BASE + ", vx_i3 < s.len(), subs@ == s[vx_i3 as int], vx_s4@ == subs@, " + CNT % "seen4(s, c, vx_i3 as int, vx_i4 as int)", before=""),
  dict(match="while", inv="vx_i <= all_indices@.len(), " + BASE + ", (" + CNT % "count(s, c, s.len() as int)" + "), vx_a@ == kept(all_indices@.take(vx_i as int), |c: char| count(s, c, s.len() as int) == 1)", dec="all_indices.len() - vx_i",
     before="proof { assert(all_indices@.take(0) =~= Seq::empty()); } ", head="proof { lemma_kept(all_indices@, |c: char| count(s, c, s.len() as int) == 1, vx_i as int); assert(tally(index_counts@, all_indices@[vx_i as int]) == count(s, all_indices@[vx_i as int], s.len() as int)); } ", after=" proof { assert(all_indices@.take(all_indices@.len() as int) =~= all_indices@); }"),
  dict(match=r"output_subscripts", inv="vx_s6@ == output_subscripts@, " + BASE + ", sides(eq0).len() == 2 ==> output_subscripts@ == sides(eq0)[1], sides(eq0).len() != 2 ==> output_subscripts@.no_duplicates() && wfo(output_subscripts@, all_indices@), alphabet(all_indices@, s), (forall|c: char| #[trigger] index_sizes@.contains_key(c) <==> occurs(s, c)), (forall|k: int| 0 <= k < vx_i6 ==> occurs(s, #[trigger] output_subscripts@[k])), (forall|k: int, l: int| 0 <= k < l < vx_i6 ==> output_subscripts@[k] != output_subscripts@[l]), forall|c: char| #[trigger] output_set@.contains(c) <==> exists|k: int| 0 <= k < vx_i6 && #[trigger] output_subscripts@[k] == c",
     head="let ghost vx_o = output_set@; ",
     tail=" proof { assert forall|c: char| #[trigger] output_set@.contains(c) <==> exists|k: int| 0 <= k < vx_i6 + 1 && #[trigger] output_subscripts@[k] == c by { if c == output_subscripts@[vx_i6 as int] { } else { assert(output_set@.contains(c) == vx_o.contains(c)); if exists|k: int| 0 <= k < vx_i6 + 1 && #[trigger] output_subscripts@[k] == c { let k = choose|k: int| 0 <= k < vx_i6 + 1 && #[trigger] output_subscripts@[k] == c; assert(k < vx_i6); } } } }"),
  dict(match="while", inv="vx_i <= all_indices@.len(), (forall|c: char| #[trigger] output_set@.contains(c) <==> output_subscripts@.contains(c)), vx_a@ == kept(all_indices@.take(vx_i as int), |c: char| !output_subscripts@.contains(c))", dec="all_indices.len() - vx_i",
     before="proof { assert(all_indices@.take(0) =~= Seq::empty()); } ", head="proof { lemma_kept(all_indices@, |c: char| !output_subscripts@.contains(c), vx_i as int); } ", after=" proof { assert(all_indices@.take(all_indices@.len() as int) =~= all_indices@); }"),
]
SPEC += r'''
pub open spec fn wfo(o: Seq<char>, all: Seq<char>) -> bool { forall|i: int| 0 <= i < o.len() ==> all.contains(#[trigger] o[i]) }
pub open spec fn tally(m: Map<char, int>, c: char) -> int { if m.contains_key(c) { m[c] } else { 0 } }
/// occurrences of c before position (i, j)
pub open spec fn seen4(s: Seq<Seq<char>>, c: char, i: int, j: int) -> int { count(s, c, i) + count1(s[i], c, j) }
'''
def run_ids(seq, src): return dict(match="while", dec="vx_x.len() - vx_i", inv="wf(*self), vx_x@ == %s, wf_in(*self, %s), vx_i <= vx_x@.len(), vx_a@ == ids(*self, %s).take(vx_i as int)" % (src, src, src), head="proof { assert(self.all_indices@.contains(%s[vx_i as int])); } " % src, tail=" proof { assert(ids(*self, %s).take(vx_i as int) =~= ids(*self, %s).take(vx_i as int - 1).push(ids(*self, %s)[vx_i as int - 1])); }" % (src, src, src), after=" proof { assert(ids(*self, %s).take(vx_i as int) =~= ids(*self, %s)); }" % (src, src), before="proof { assert(ids(*self, %s).take(0) =~= Seq::empty()); } " % src)
def run_ext(src): return dict(match="while", dec="vx_x.len() - vx_i", inv="wf(*self), vx_x@ == %s, wf_in(*self, %s), vx_i <= vx_x@.len(), vx_a@ == extents(*self, %s).take(vx_i as int)" % (src, src, src), head="proof { assert(self.all_indices@.contains(%s[vx_i as int])); } " % src, tail=" proof { assert(extents(*self, %s).take(vx_i as int) =~= extents(*self, %s).take(vx_i as int - 1).push(extents(*self, %s)[vx_i as int - 1])); }" % (src, src, src), after=" proof { assert(extents(*self, %s).take(vx_i as int) =~= extents(*self, %s)); }" % (src, src), before="proof { assert(extents(*self, %s).take(0) =~= Seq::empty()); } " % src)
def run_pr(src): return dict(match="while", dec="vx_x.len() - vx_i", inv="wf(*self), vx_x@ == %s, wf_in(*self, %s), vx_i <= vx_x@.len(), run_fits(extents(*self, %s)), vx_a == run_prod(extents(*self, %s), vx_i as int)" % (src, src, src, src), head="proof { assert(self.all_indices@.contains(%s[vx_i as int])); assert(run_prod(extents(*self, %s), vx_i + 1) <= usize::MAX); } " % (src, src))
OUT, CON, ALL, INP = "self.output_subscripts@", "self.contraction_indices@", "self.all_indices@", "self.input_subscripts@[input_idx as int]@"
FNS = [
  C("parse", "r is Ok <==> accepted(equation@, input_shapes@), r is Ok ==> denotes(r->Ok_0, ins(equation@), input_shapes@, if sides(equation@).len() == 2 { sides(equation@)[1] } else { kept(r->Ok_0.all_indices@, |c: char| count(ins(equation@), c, ins(equation@).len() as int) == 1) }), r is Ok ==> wf(r->Ok_0)",
    loops=LOOPS, pre="let ghost eq0 = equation@; let ghost mut s = Seq::<Seq<char>>::empty(); proof { lemma_cut_len(despaced(eq0), arrow()); } ",
    before=[(r"if input_subscripts\.len\(\) != input_shapes\.len\(\)", "proof { s = views(input_subscripts@); assert(s =~= ins(eq0)); }"),
            (r"if subs\.len\(\)", "proof { if subs@.len() != shape.dims@.len() { assert(s[i as int].len() != input_shapes@[i as int].dims@.len()); assert(!ranked(s, input_shapes@)); } }"),
            (r"if existing_size\b", "proof { if existing_size != dim_size { let cc = c; let (a, b) = choose|a: int, b: int| #[trigger] spot(s, a, b) && (a < vx_i1 || (a == vx_i1 && b < vx_i2)) && s[a][b] == cc && index_sizes@[cc] == input_shapes@[a].dims@[b]; assert(spot(s, a, b) && spot(s, vx_i1 as int, vx_i2 as int)); assert(!consistent(s, input_shapes@)); } }"),
            (r"let mut index_counts", "proof { assert forall|c: char| #[trigger] index_sizes@.contains_key(c) <==> occurs(s, c) by { if occurs(s, c) { let (a, b) = choose|a: int, b: int| #[trigger] spot(s, a, b) && s[a][b] == c; assert(spot(s, a, b)); } } assert(alphabet(all_indices@, s)); assert(sizes_of(index_sizes@, s, input_shapes@)); }"),
            (r"let mut output_set", "proof { if sides(eq0).len() != 2 { let f = |c: char| count(s, c, s.len() as int) == 1; lemma_kept_from(all_indices@, f); lemma_ascending(all_indices@); lemma_kept_sorted0(all_indices@, f); lemma_ascending(output_subscripts@); } }"),
            (r"if !index_sizes\.contains_key", "proof { if !index_sizes@.contains_key(c) { assert(!occurs(s, c)); assert(output_subscripts@[vx_i6 as int] == c); if sides(eq0).len() != 2 { assert(all_indices@.contains(c)); } assert(!accepted(eq0, input_shapes@)); } }"),
            (r"if !output_set\.insert", "proof { if output_set@.contains(c) { let k = choose|k: int| 0 <= k < vx_i6 && #[trigger] output_subscripts@[k] == c; assert(output_subscripts@[k] == output_subscripts@[vx_i6 as int]); assert(!output_subscripts@.no_duplicates()); assert(!accepted(eq0, input_shapes@)); } }"),
            (r"let contraction_indices", "proof { assert forall|c: char| #[trigger] output_set@.contains(c) <==> output_subscripts@.contains(c) by { if output_subscripts@.contains(c) { let k = choose|k: int| 0 <= k < output_subscripts@.len() && output_subscripts@[k] == c; assert(output_subscripts@[k] == c); } } }"),
            (r"Ok\(Self", "proof { let p = ParsedEinsum { input_subscripts, output_subscripts, contraction_indices, all_indices, index_sizes }; assert(denotes(p, s, input_shapes@, output_subscripts@)); lemma_parsed_wf(p, s, input_shapes@, output_subscripts@); assert(accepted(eq0, input_shapes@)); }"),
    ]),
  C("compute_output_shape", "r.dims@ == extents(*self, %s)" % OUT, "wf(*self)", loops=[run_ext(OUT)]),
  C("num_output_elements", "r == run_prod(extents(*self, %s), %s.len() as int)" % (OUT, OUT), "wf(*self), run_fits(extents(*self, %s))" % OUT, loops=[run_pr(OUT)]),
  C("num_contraction_elements", "r == run_prod(extents(*self, %s), %s.len() as int)" % (CON, CON), "wf(*self), run_fits(extents(*self, %s))" % CON, loops=[run_pr(CON)]),
  C("get_dim_to_index_map", "r@ == ids(*self, %s)" % INP, "wf(*self), input_idx < self.input_subscripts@.len()", loops=[run_ids("", INP)]),
  C("get_output_index_ids", "r@ == ids(*self, %s)" % OUT, "wf(*self)", loops=[run_ids("", OUT)]),
  C("get_contraction_index_ids", "r@ == ids(*self, %s)" % CON, "wf(*self)", loops=[run_ids("", CON)]),
  C("get_index_sizes_vec", "r@ == extents(*self, %s)" % ALL, "wf(*self)", loops=[dict(run_ext(ALL), head="proof { assert(self.all_indices@.contains(self.all_indices@[vx_i as int])); } ", inv=run_ext(ALL)["inv"].replace("wf_in(*self, %s), " % ALL, ""))]),
]
SPEC += r'''
pub proof fn lemma_cut_len(s: Seq<char>, sep: Seq<char>) ensures cut(s, sep).len() >= 1, cut(s, sep).len() == 1 ==> cut(s, sep)[0] == s decreases s.len() { let i = first(s, sep, 0); if !(sep.len() == 0 || i < 0 || i >= s.len() || !found(s, sep, i)) { lemma_cut_len(s.skip(i + sep.len()), sep); } }
pub proof fn lemma_kept_sorted0(s: Seq<char>, p: spec_fn(char) -> bool) requires ascending(s) ensures ascending(kept(s, p)) decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i] as u32) < (#[trigger] t[j] as u32) by { assert((s[i] as u32) < (s[j] as u32)); } lemma_kept_sorted0(t, p); lemma_kept_from(t, p); let k = kept(s, p); let q = kept(t, p);
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies (#[trigger] k[i] as u32) < (#[trigger] k[j] as u32) by { assert(k[i] == q[i]); if j < q.len() { assert(k[j] == q[j]); } else { assert(k[j] == s.last()); assert(t.contains(q[i])); let m = choose|m: int| 0 <= m < t.len() && t[m] == q[i]; assert((s[m] as u32) < (s[s.len() - 1] as u32)); } } } }
'''
END_ = re.sub(r"proof fn lemma_kept_sorted\(.*?\n    if .*?\n.*?\n", "", END_, flags=re.S).replace("lemma_kept_sorted(", "lemma_kept_sorted0(")
rec = UM.rec
META = Contract(OM, None, "einsum_metadata", requires="wf(*parsed), parsed.input_subscripts@.len() == input_layouts@.len(), fits(output_layout.shape.dims@)",
  ensures="r@ == " + rec("sz(*output_layout)", "input_layouts@.len() as usize", "parsed.all_indices@.len() as usize", "parsed.contraction_indices@.len() as usize", "nd(*output_layout)", "+output_layout.shape.dims@", "+sections(*parsed, input_layouts@, input_layouts@.len() as int)", "+ids(*parsed, parsed.contraction_indices@)", "+extents(*parsed, parsed.all_indices@)", "+ids(*parsed, parsed.output_subscripts@)"),
  extra=EX + [(r"vx_extend\(&mut metadata, (dim_to_index|parsed\.get_\w+\([^()]*\))\);", r"vx_extend(&mut metadata, \1.as_slice());")],
  before=[(r"vx_extend\(&mut metadata, output_layout", "proof { assert(metadata@ =~= Seq::<usize>::empty().push(num_output_els).push(num_inputs).push(num_total_indices).push(num_contraction_indices).push(output_ndim)); }")],
  loops=[dict(match="enumerate", before="let ghost g0 = metadata@; proof { assert(g0 + Seq::<usize>::empty() =~= g0); } ", inv="wf(*parsed), vx_s0@ == input_layouts@, parsed.input_subscripts@.len() == input_layouts@.len(), metadata@ == g0 + sections(*parsed, input_layouts@, vx_i0 as int)",
    tail=" proof { assert(metadata@ =~= g0 + sections(*parsed, input_layouts@, vx_i0 + 1)); }")])
pick = lambda cs, *ns: [c for c in cs if c.name in ns]
UNIT = Unit("einsum", [("struct", SH, "Shape"), ("struct", LA, "Layout"), ("struct", EI, "ParsedEinsum"), ("raw", UM.SPEC), ("raw", SPEC),
  ("impl", "Shape", SH, pick(UL.SHAPE_FNS, "dims", "ndim", "size", "new") + [Contract(SH, "From<&[usize]> for Shape", "from", rename="vx_from_slice", ensures="r.dims@ == dims@"), Contract(SH, "From<&Vec<usize>> for Shape", "from", ensures="r.dims@ == dims@", extra=[(r"Self::from\(", "Self::vx_from_slice(")])]), ("impl", "Layout", LA, UM.LAYOUT),
  ("impl", "ParsedEinsum", EI, FNS), ("impl", None, OM, [META]), ("raw", END_)])
def run(prop, u): return unit_result(UNIT.run(), u.get("fns"))
if __name__ == "__main__": report(UNIT)
