//! Calling the C kernels directly, on buffers fenced by inaccessible pages.
use crate::{cx::*, util::*};
pub const DT: [(&str, usize); 15] = [("bool", 1), ("f8e4m3", 1), ("f8e5m2", 1), ("bf16", 2), ("f16", 2), ("f32", 4), ("f64", 8), ("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("i8", 1), ("i16", 2), ("i32", 4), ("i64", 8)];
pub fn size_of(d: &str) -> usize { DT.iter().find(|x| x.0 == d).unwrap().1 }
pub fn is_float(d: &str) -> bool { d.starts_with('f') || d.starts_with('b') && d != "bool" }
pub fn is_int(d: &str) -> bool { d.starts_with('i') || d.starts_with('u') }
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn munmap(a: *mut u8, n: usize) -> i32; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
/// n bytes ending (or, with `low`, starting) exactly at an inaccessible page; the slack on the other side holds a canary
pub struct Fenced { base: *mut u8, total: usize, pub p: *mut u8, pub n: usize }
const PG: usize = 4096;
const CANARY: u8 = 0xA5;
impl Fenced {
    pub fn new(n: usize, low: bool) -> Self {
        let inner = (n + PG - 1) / PG * PG + PG; let total = inner + 2 * PG;
        unsafe {
            let base = mmap(std::ptr::null_mut(), total, 3, 0x22, -1, 0);
            assert!(base as isize != -1, "mmap");
            std::ptr::write_bytes(base.add(PG), CANARY, inner);
            mprotect(base, PG, 0); mprotect(base.add(PG + inner), PG, 0);
            let p = if low { base.add(PG) } else { base.add(PG + inner - n) };
            Fenced { base, total, p, n }
        }
    }
    pub fn from(v: &[u8], low: bool) -> Self { let f = Self::new(v.len(), low); unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), f.p, v.len()); } f }
    pub fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.n) } }
    pub fn c(&self) -> *const core::ffi::c_void { self.p as _ }
    pub fn m(&self) -> *mut core::ffi::c_void { self.p as _ }
    /// nothing around the buffer was written
    pub fn intact(&self, what: &str) -> Result<(), String> {
        unsafe {
            let lo = self.base.add(PG); let hi = self.base.add(self.total - PG); let mut q = lo;
            while q < hi { if (q < self.p || q >= self.p.add(self.n)) && *q != CANARY { return Err(format!("{}: byte {} outside the buffer was written", what, q.offset_from(self.p))); } q = q.add(1); }
        }
        Ok(())
    }
}
impl Drop for Fenced { fn drop(&mut self) { unsafe { munmap(self.base, self.total); } } }
#[derive(Clone, Debug)]
pub struct L { pub d: Vec<usize>, pub s: Vec<usize>, pub o: usize }
impl L {
    pub fn n(&self) -> usize { self.d.iter().product() }
    /// how many elements the buffer needs
    pub fn extent(&self) -> usize { if self.n() == 0 { self.o } else { self.o + self.d.iter().zip(&self.s).map(|(d, s)| (d - 1) * s).sum::<usize>() + 1 } }
    pub fn at(&self, c: &[usize]) -> usize { addr(c, &self.s, self.o) }
    pub fn meta(&self) -> Vec<usize> { let mut v = vec![self.n(), self.d.len()]; v.extend(&self.d); v.extend(&self.s); v.push(self.o); v }
    pub fn plain(d: &[usize]) -> L { L { d: d.to_vec(), s: row_major(d), o: 0 } }
}
/// a layout of the given extents: row-major, offset, permuted, stepped, broadcast (stride 0), or a mixture
pub fn lay(cx: &mut Cx, d: &[usize]) -> L {
    let r = d.len(); let mut l = L::plain(d);
    match cx.rng.below(7) {
        0 => {},
        1 => l.o = cx.rng.below(9),
        2 | 3 => { // storage order is a permutation of the axes, possibly with gaps
            let mut p: Vec<usize> = (0..r).collect(); cx.rng.shuffle(&mut p);
            let gap = cx.rng.flip(); let mut k = 1; for &i in p.iter().rev() { if gap { k *= 1 + cx.rng.below(2); } l.s[i] = k; k *= d[i].max(1); }
            if cx.rng.flip() { l.o = cx.rng.below(9); }
        },
        4 => { for s in l.s.iter_mut() { if cx.rng.below(3) == 0 { *s = 0; } } l.o = cx.rng.below(3) },
        5 => { for s in l.s.iter_mut() { *s = cx.rng.below(7); } l.o = cx.rng.below(9) },
        _ => { for s in l.s.iter_mut() { *s *= 2; } l.o = cx.rng.below(2) },
    }
    l
}
/// random element patterns; bool gets 0/1, floats mostly moderate values and sometimes special ones
pub fn fill(cx: &mut Cx, dt: &str, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n * size_of(dt));
    let special = cx.rng.below(3) == 0;
    for _ in 0..n {
        let k = cx.rng.range(-9, 9) as f64 * if cx.rng.flip() { 0.25 } else { 1.0 };
        match dt {
            "bool" => v.push(cx.rng.flip() as u8),
            "f32" => { let x = if special && cx.rng.below(4) == 0 { f32::from_bits(cx.rng.next() as u32) } else { k as f32 }; v.extend(x.to_ne_bytes()) },
            "f64" => { let x = if special && cx.rng.below(4) == 0 { f64::from_bits(cx.rng.next()) } else { k }; v.extend(x.to_ne_bytes()) },
            "f16" | "bf16" | "f8e4m3" | "f8e5m2" => {
                if special && cx.rng.below(4) == 0 { let b = cx.rng.next().to_ne_bytes(); v.extend(&b[..size_of(dt)]); }
                else { match dt { "f16" => v.extend(half::f16::from_f64(k).to_bits().to_ne_bytes()), "bf16" => v.extend(half::bf16::from_f64(k).to_bits().to_ne_bytes()), "f8e4m3" => v.push(float8::F8E4M3::from_f32(k as f32).to_bits()), _ => v.push(float8::F8E5M2::from_f32(k as f32).to_bits()) } }
            },
            _ => { let b = if special { cx.rng.next() } else { cx.rng.range(if dt.starts_with('u') { 0 } else { -9 }, 20) as u64 }.to_ne_bytes(); v.extend(&b[..size_of(dt)]); },
        }
    }
    v
}
/// the bytes of element i
pub fn el(b: &[u8], i: usize, w: usize) -> &[u8] { &b[i * w..i * w + w] }
pub fn to_f64(dt: &str, b: &[u8]) -> f64 {
    match dt {
        "bool" | "u8" => b[0] as f64, "i8" => b[0] as i8 as f64,
        "u16" => u16::from_ne_bytes(b.try_into().unwrap()) as f64, "i16" => i16::from_ne_bytes(b.try_into().unwrap()) as f64,
        "u32" => u32::from_ne_bytes(b.try_into().unwrap()) as f64, "i32" => i32::from_ne_bytes(b.try_into().unwrap()) as f64,
        "u64" => u64::from_ne_bytes(b.try_into().unwrap()) as f64, "i64" => i64::from_ne_bytes(b.try_into().unwrap()) as f64,
        "f32" => f32::from_ne_bytes(b.try_into().unwrap()) as f64, "f64" => f64::from_ne_bytes(b.try_into().unwrap()),
        "f16" => half::f16::from_bits(u16::from_ne_bytes(b.try_into().unwrap())).to_f64(), "bf16" => half::bf16::from_bits(u16::from_ne_bytes(b.try_into().unwrap())).to_f64(),
        "f8e4m3" => float8::F8E4M3::from_bits(b[0]).to_f32() as f64, "f8e5m2" => float8::F8E5M2::from_bits(b[0]).to_f32() as f64,
        _ => unreachable!(),
    }
}
pub fn to_i128(dt: &str, b: &[u8]) -> i128 {
    let mut w = [0u8; 16]; w[..b.len()].copy_from_slice(b);
    let x = u128::from_le_bytes(w); let bits = b.len() * 8;
    if dt.starts_with('i') && x >> (bits - 1) == 1 { x as i128 - (1i128 << bits) } else { x as i128 }
}
/// equal bit patterns, any NaN for a NaN
pub fn same(dt: &str, a: &[u8], b: &[u8]) -> bool { a == b || (is_float(dt) && to_f64(dt, a).is_nan() && to_f64(dt, b).is_nan()) }
/// names live for the whole run
pub fn leak(s: String) -> &'static str {
    use std::{cell::RefCell, collections::HashMap};
    thread_local! { static T: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()); }
    T.with(|t| { let mut t = t.borrow_mut(); if let Some(x) = t.get(&s) { return *x; } let l: &'static str = Box::leak(s.clone().into_boxed_str()); t.insert(s, l); l })
}
/// run a kernel on fenced copies of its operands; operands must stay unchanged and nothing around a buffer may be written
pub fn guarded(ins: &[&[u8]], outs: &[usize], low: bool, call: impl FnOnce(&[*const core::ffi::c_void], &[*mut core::ffi::c_void])) -> Result<Vec<Vec<u8>>, String> {
    let fi: Vec<Fenced> = ins.iter().map(|b| Fenced::from(b, low)).collect();
    let fo: Vec<Fenced> = outs.iter().map(|&n| Fenced::new(n, low)).collect();
    call(&fi.iter().map(|f| f.c()).collect::<Vec<_>>(), &fo.iter().map(|f| f.m()).collect::<Vec<_>>());
    for (k, f) in fi.iter().enumerate() { f.intact("operand")?; if f.bytes() != ins[k] { return Err(format!("operand {} was written", k)); } }
    for f in &fo { f.intact("output")?; }
    Ok(fo.iter().map(|f| f.bytes().to_vec()).collect())
}
/// every output element has exactly the wanted bytes
pub fn placed(w: usize, got: &[u8], want: &[Vec<u8>]) -> Result<(), String> {
    if got.len() != w * want.len() { return Err(format!("{} bytes for {} elements", got.len(), want.len())); }
    for (i, x) in want.iter().enumerate() { let g = el(got, i, w); if g != &x[..] { return Err(format!("output element {} of {} is {:?}, should be {:?}", i, want.len(), g, x)); } }
    Ok(())
}
/// extents of the given rank, now and then with a zero
pub fn dims0(cx: &mut Cx, r: usize, m: usize) -> Vec<usize> { (0..r).map(|_| if cx.rng.below(20) == 0 { 0 } else { 1 + cx.rng.below(m) }).collect() }
pub fn any_dt(cx: &mut Cx) -> &'static str { cx.rng.pick(&DT).0 }
/// the element of a small integer
pub fn of(dt: &str, v: i64) -> Vec<u8> {
    let f = v as f32;
    match dt { "f32" => f.to_ne_bytes().to_vec(), "f64" => (v as f64).to_ne_bytes().to_vec(), "f16" => half::f16::from_f32(f).to_bits().to_ne_bytes().to_vec(), "bf16" => half::bf16::from_f32(f).to_bits().to_ne_bytes().to_vec(),
        "f8e4m3" => vec![float8::F8E4M3::from_f32(f).to_bits()], "f8e5m2" => vec![float8::F8E5M2::from_f32(f).to_bits()], _ => v.to_ne_bytes()[..size_of(dt)].to_vec() }
}
