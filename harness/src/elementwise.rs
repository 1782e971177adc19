//! The element-wise kernels, callable by name.
use crate::kern::*;
use hodu_cpu_kernels as k;
use core::ffi::c_void;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { Binary, Bitwise, Unary, Scalar, BitNot, Shift, Cast, Contiguous }
#[derive(Clone, Debug)]
pub struct Op { pub kind: Kind, pub op: &'static str, pub dt: &'static str, pub out: &'static str }
pub const BIN: [&str; 17] = ["add", "sub", "mul", "div", "rem", "pow", "maximum", "minimum", "logical_and", "logical_or", "logical_xor", "eq", "ne", "lt", "le", "gt", "ge"];
pub const UN_ALL: [&str; 7] = ["abs", "sign", "softsign", "square", "sqrt", "recip", "logical_not"];
pub const UN_SIGNED: [&str; 2] = ["neg", "relu"];
pub const UN_FLOAT: [&str; 34] = ["sigmoid", "hardsigmoid", "gelu", "softplus", "silu", "hardsilu", "mish", "selu", "celu", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "exp10", "ln", "log2", "log10", "ceil", "floor", "round", "erf", "isnan", "isinf", "isfinite"];
pub const SC: [&str; 14] = ["add_scalar", "sub_scalar", "mul_scalar", "div_scalar", "rem_scalar", "pow_scalar", "maximum_scalar", "minimum_scalar", "eq_scalar", "ne_scalar", "lt_scalar", "le_scalar", "gt_scalar", "ge_scalar"];
pub const BITS: [&str; 5] = ["shl", "shr", "bitwise_and", "bitwise_or", "bitwise_xor"];
pub fn all() -> Vec<Op> {
    let mut v = vec![];
    let truth = |o: &str| o.starts_with("logical") || ["eq", "ne", "lt", "le", "gt", "ge", "isnan", "isinf", "isfinite"].contains(&o.trim_end_matches("_scalar"));
    let mut push = |kind, op: &'static str, dt: &'static str| v.push(Op { kind, op, dt, out: if truth(op) { "bool" } else { dt } });
    for (dt, _) in DT {
        for op in BIN { push(Kind::Binary, op, dt); }
        for op in UN_ALL { push(Kind::Unary, op, dt); }
        for op in SC { push(Kind::Scalar, op, dt); }
        if !dt.starts_with('u') { for op in UN_SIGNED { push(Kind::Unary, op, dt); } }
        if is_float(dt) { for op in UN_FLOAT { push(Kind::Unary, op, dt); } for op in ["leaky_relu", "elu", "prelu"] { push(Kind::Scalar, op, dt); } }
        if is_int(dt) { for op in BITS { push(Kind::Bitwise, op, dt); } push(Kind::BitNot, "bitwise_not", dt); push(Kind::Shift, "shl_scalar", dt); push(Kind::Shift, "shr_scalar", dt); }
        push(Kind::Contiguous, "contiguous", dt);
    }
    for (a, _) in DT { for (b, _) in DT { v.push(Op { kind: Kind::Cast, op: "cast", dt: a, out: b }); } }
    v
}
impl Op {
    pub fn binary(&self) -> bool { matches!(self.kind, Kind::Binary | Kind::Bitwise) }
    pub fn name(&self) -> &'static str { leak(if self.kind == Kind::Cast { format!("hodu_cpu_cast_{}_to_{}", self.dt, self.out) } else { format!("hodu_cpu_{}_{}", self.op, self.dt) }) }
    /// `b`: second operand, or the scalar's bytes (for shifts: a u32)
    pub fn call(&self, a: *const c_void, b: *const c_void, out: *mut c_void, meta: &[usize]) {
        let n = k::Kernel(self.name());
        match self.kind {
            Kind::Binary => k::call_ops_binary(n, a, b, out, meta),
            Kind::Bitwise => k::call_ops_binary_bitwise(n, a, b, out, meta),
            Kind::Unary => k::call_ops_unary(n, a, out, meta),
            Kind::BitNot => k::call_ops_unary_bitwise(n, a, out, meta),
            Kind::Contiguous => k::call_ops_contiguous(n, a, out, meta),
            Kind::Cast => k::call_ops_cast(k::CastKernel(self.name()), a, out, meta),
            Kind::Shift => k::call_ops_scalar_shift(n, a, out, meta, unsafe { *(b as *const u32) }),
            Kind::Scalar => unsafe { match size_of(self.dt) { 1 => k::call_ops_unary_scalar(n, a, out, meta, *(b as *const u8)), 2 => k::call_ops_unary_scalar(n, a, out, meta, (b as *const u16).read_unaligned()), 4 => k::call_ops_unary_scalar(n, a, out, meta, (b as *const u32).read_unaligned()), _ => k::call_ops_unary_scalar(n, a, out, meta, (b as *const u64).read_unaligned()) } },
        }.unwrap()
    }
    /// the operation on one element
    pub fn one(&self, a: &[u8], b: &[u8]) -> Vec<u8> {
        assert!(a.len() <= 8 && b.len() <= 8); let mut x = [0u64; 4]; let mut y = [0u64; 4]; let mut o = [0u64; 4];
        unsafe { std::ptr::copy_nonoverlapping(a.as_ptr(), x.as_mut_ptr() as *mut u8, a.len()); std::ptr::copy_nonoverlapping(b.as_ptr(), y.as_mut_ptr() as *mut u8, b.len()); }
        let meta: &[usize] = if self.binary() { &[1, 1, 1, 1, 1, 1, 0, 0] } else { &[1, 1, 1, 1, 0] };
        self.call(x.as_ptr() as _, y.as_ptr() as _, o.as_mut_ptr() as _, meta);
        unsafe { std::slice::from_raw_parts(o.as_ptr() as *const u8, size_of(self.out)).to_vec() }
    }
    pub fn meta(&self, a: &L, b: &L) -> Vec<usize> {
        if self.binary() { let mut v = vec![a.n(), a.d.len()]; v.extend(&a.d); v.extend(&b.d); v.extend(&a.s); v.extend(&b.s); v.extend([a.o, b.o]); v } else { a.meta() }
    }
}
/// what a float operation means, on the widened operands; None: no reference
pub fn meaning(op: &str, x: f64, y: f64) -> Option<f64> {
    let b = |v: bool| v as u8 as f64;
    Some(match op.trim_end_matches("_scalar") {
        "add" => x + y, "sub" => x - y, "mul" => x * y, "div" => x / y, "pow" => x.powf(y), "rem" => if y == 0.0 || !x.is_finite() || y.is_nan() { f64::NAN } else { x % y }, "leaky_relu" | "prelu" => if x > 0.0 { x } else { y * x }, "elu" => if x > 0.0 { x } else { y * (x.exp() - 1.0) },
        "maximum" => if x.is_nan() || y.is_nan() { return None } else { x.max(y) }, "minimum" => if x.is_nan() || y.is_nan() { return None } else { x.min(y) },
        "logical_and" => b(x != 0.0 && y != 0.0), "logical_or" => b(x != 0.0 || y != 0.0), "logical_xor" => b((x != 0.0) != (y != 0.0)), "logical_not" => b(x == 0.0),
        "eq" => b(x == y), "ne" => b(x != y), "lt" => b(x < y), "le" => b(x <= y), "gt" => b(x > y), "ge" => b(x >= y),
        "abs" => x.abs(), "sign" => if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else if x == 0.0 { 0.0 } else { return None }, "softsign" => x / (1.0 + x.abs()), "square" => x * x, "sqrt" => x.sqrt(), "recip" => 1.0 / x,
        "neg" => -x, "relu" => if x.is_nan() { return None } else { x.max(0.0) },
        "sigmoid" => 1.0 / (1.0 + (-x).exp()), "hardsigmoid" => (x / 6.0 + 0.5).clamp(0.0, 1.0), "gelu" => 0.5 * x * (1.0 + (0.7978845608 * (x + 0.044715 * x * x * x)).tanh()),
        "softplus" => if x > 30.0 { x } else { (1.0 + x.exp()).ln() }, "silu" => x / (1.0 + (-x).exp()), "hardsilu" => x * (x / 6.0 + 0.5).clamp(0.0, 1.0),
        "mish" => x * (if x > 30.0 { x } else { (1.0 + x.exp()).ln() }).tanh(), "selu" => 1.0507009873554805 * if x > 0.0 { x } else { 1.6732632423543772 * (x.exp() - 1.0) }, "celu" => if x > 0.0 { x } else { x.exp() - 1.0 },
        "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "asinh" => x.asinh(), "acosh" => x.acosh(), "atanh" => x.atanh(),
        "exp" => x.exp(), "exp2" => x.exp2(), "exp10" => 10f64.powf(x), "ln" => x.ln(), "log2" => x.log2(), "log10" => x.log10(),
        "ceil" => x.ceil(), "floor" => x.floor(), "round" => if (x - x.trunc()).abs() == 0.5 { return None } else { x.round() },
        "isnan" => b(x.is_nan()), "isinf" => b(x.is_infinite()), "isfinite" => b(x.is_finite()),
        _ => return None,
    })
}
/// relative precision of a type
pub fn eps(dt: &str) -> f64 { match dt { "f64" => 1e-9, "f32" => 1e-5, "f16" => 2e-3, "bf16" => 1e-2, "f8e4m3" => 0.07, "f8e5m2" => 0.14, _ => 0.0 } }
pub fn largest(dt: &str) -> f64 { match dt { "f64" => 1e300, "f32" => 3e38, "f16" => 65000.0, "bf16" => 3e38, "f8e4m3" => 440.0, "f8e5m2" => 57000.0, _ => 0.0 } }
pub fn tiny(dt: &str) -> f64 { match dt { "f64" => 1e-300, "f32" => 1e-37, "f16" => 1e-4, "bf16" => 1e-37, "f8e4m3" => 0.016, "f8e5m2" => 1e-4, _ => 0.0 } }
