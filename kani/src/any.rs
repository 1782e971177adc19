use hodu_core::{scalar::Scalar, types::DType};
pub const DTS: [DType; 15] = [DType::BOOL, DType::F8E4M3, DType::F8E5M2, DType::BF16, DType::F16, DType::F32, DType::F64, DType::U8, DType::U16, DType::U32, DType::U64, DType::I8, DType::I16, DType::I32, DType::I64];
/// (size, class) of an element type; class 0 truth value, 1 float, 2 unsigned, 3 signed
pub fn doc(d: DType) -> (usize, u8) { match d { DType::BOOL => (1, 0), DType::F8E4M3 | DType::F8E5M2 => (1, 1), DType::BF16 | DType::F16 => (2, 1), DType::F32 => (4, 1), DType::F64 => (8, 1), DType::U8 => (1, 2), DType::U16 => (2, 2), DType::U32 => (4, 2), DType::U64 => (8, 2), DType::I8 => (1, 3), DType::I16 => (2, 3), DType::I32 => (4, 3), DType::I64 => (8, 3) } }
// half picks f16c instructions at run time: its documented-equivalent const conversions stand for them
pub fn h_from32(x: f32) -> half::f16 { half::f16::from_f32_const(x) } pub fn h_from64(x: f64) -> half::f16 { half::f16::from_f64_const(x) } pub fn h_to32(x: half::f16) -> f32 { x.to_f32_const() } pub fn h_to64(x: half::f16) -> f64 { x.to_f64_const() }
pub fn dtype() -> DType { let i: usize = kani::any(); kani::assume(i < 15); DTS[i] }
pub fn int_scalar(d: DType) -> (Scalar, i128) { match d {
    DType::BOOL => { let x: bool = kani::any(); (Scalar::BOOL(x), x as i128) }
    DType::U8 => { let x: u8 = kani::any(); (Scalar::U8(x), x as i128) } DType::U16 => { let x: u16 = kani::any(); (Scalar::U16(x), x as i128) }
    DType::U32 => { let x: u32 = kani::any(); (Scalar::U32(x), x as i128) } DType::U64 => { let x: u64 = kani::any(); (Scalar::U64(x), x as i128) }
    DType::I8 => { let x: i8 = kani::any(); (Scalar::I8(x), x as i128) } DType::I16 => { let x: i16 = kani::any(); (Scalar::I16(x), x as i128) }
    DType::I32 => { let x: i32 = kani::any(); (Scalar::I32(x), x as i128) } _ => { let x: i64 = kani::any(); (Scalar::I64(x), x as i128) } } }
