//! Executable contracts: each case evaluates a contract of the real code on one input.
use std::collections::HashSet;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.next() % ((hi - lo + 1) as u64)) as i64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn flip(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}

#[derive(Clone)]
pub struct Fail { pub contract: String, pub input: String, pub msg: String }

pub struct Cx {
    pub rng: Rng,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub per: std::collections::BTreeMap<String, u64>,
    pub only: Option<String>,
    deadline: Instant,
}

// What is being evaluated, for the crash handler (fixed buffer: the handler must not allocate).
pub static mut CUR: [u8; 4096] = [0; 4096];
pub static mut CUR_LEN: usize = 0;
extern "C" {
    fn signal(sig: i32, h: extern "C" fn(i32)) -> usize;
    fn alarm(s: u32) -> u32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
extern "C" fn on_signal(sig: i32) {
    unsafe {
        let name: &[u8] = match sig { 11 => b"SIGSEGV", 7 => b"SIGBUS", 6 => b"SIGABRT", 8 => b"SIGFPE", 14 => b"HANG", _ => b"SIGNAL" };
        let w = |s: &[u8]| { write(1, s.as_ptr(), s.len()); };
        w(b"\nCRASH "); w(name); w(b" "); let p = std::ptr::addr_of!(CUR) as *const u8;
        write(1, p, CUR_LEN); w(b"\n");
        _exit(3)
    }
}
pub fn install_handlers() { unsafe { for s in [11, 7, 6, 8, 14] { signal(s, on_signal); } } std::panic::set_hook(Box::new(|i| if !IN_CASE.with(|c| c.get()) { eprintln!("harness: {}", i) })); }
thread_local! { static IN_CASE: std::cell::Cell<bool> = std::cell::Cell::new(false); }

fn set_current(c: &str, input: &str) {
    unsafe {
        let mut n = 0;
        let p = std::ptr::addr_of_mut!(CUR) as *mut u8;
        for b in c.bytes().chain(b" | ".iter().copied()).chain(input.bytes()) { if n >= 4096 { break; } *p.add(n) = if b == b'\n' { b' ' } else { b }; n += 1; }
        CUR_LEN = n;
        alarm(90);
    }
}

impl Cx {
    pub fn new(seed: u64, thorough: bool, budget: f64, only: Option<String>) -> Self {
        Cx { rng: Rng::new(seed), thorough, evals: 0, distinct: HashSet::new(), samples: vec![], fails: vec![], per: Default::default(), only, deadline: Instant::now() + Duration::from_secs_f64(budget) }
    }
    /// false once the time budget is used up (random phases stop there; exhaustive phases ignore it)
    pub fn more(&self) -> bool { Instant::now() < self.deadline && self.fails.len() < 40 }
    pub fn more_until(&self, frac_end: Instant) -> bool { Instant::now() < frac_end && self.more() }
    /// split the remaining budget over `n` phases
    pub fn slice(&self, n: u32) -> Instant { let now = Instant::now(); now + self.deadline.saturating_duration_since(now) / n.max(1) }
    /// evaluate one contract instance
    pub fn case<I: Debug>(&mut self, contract: &str, input: I, f: impl FnOnce() -> Result<(), String>) {
        if let Some(o) = &self.only { if !contract.contains(o.as_str()) { return; } }
        let inp = format!("{:?}", input);
        let inp = if inp.len() > 3000 { format!("{}... ({} chars)", &inp[..3000], inp.len()) } else { inp };
        set_current(contract, &inp);
        self.evals += 1;
        *self.per.entry(contract.to_string()).or_insert(0) += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        contract.hash(&mut h); inp.hash(&mut h);
        self.distinct.insert(h.finish());
        if self.samples.len() < 24 && (self.per[contract] == 2 || self.evals % 4999 == 1) { self.samples.push(format!("{} {}", contract, inp.chars().take(200).collect::<String>())); }
        IN_CASE.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CASE.with(|c| c.set(false));
        let r = match r {
            Ok(r) => r,
            Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        };
        if let Err(msg) = r {
            if self.fails.iter().filter(|x| x.contract == contract).count() < 3 {
                self.fails.push(Fail { contract: contract.to_string(), input: inp, msg: msg.chars().take(2000).collect() });
            }
        }
    }
}

pub fn eq<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{}: got {:?}, contract requires {:?}", what, got, want)) }
}
pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> Result<(), String> { if c { Ok(()) } else { Err(msg()) } }

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
