include!("prelude.rs");
pub fn w_mul_refs<T>(a: &T, b: &T) -> T where for<'a> &'a T: Mul<&'a T, Output = T> { a.mul_refs(b) }
pub fn w_div_refs<T>(a: &T, b: &T) -> T where for<'a> &'a T: Div<&'a T, Output = T> { a.div_refs(b) }
pub fn w_conj_i8(x: i8) -> i8 { Conj::conj(x) }
pub fn w_conj_i16(x: i16) -> i16 { Conj::conj(x) }
pub fn w_conj_i32(x: i32) -> i32 { Conj::conj(x) }
pub fn w_conj_i64(x: i64) -> i64 { Conj::conj(x) }
pub fn w_conj_i128(x: i128) -> i128 { Conj::conj(x) }
pub fn w_conj_u8(x: u8) -> u8 { Conj::conj(x) }
pub fn w_conj_u16(x: u16) -> u16 { Conj::conj(x) }
pub fn w_conj_u32(x: u32) -> u32 { Conj::conj(x) }
pub fn w_conj_u64(x: u64) -> u64 { Conj::conj(x) }
pub fn w_conj_u128(x: u128) -> u128 { Conj::conj(x) }
pub fn w_conj_f32(x: f32) -> f32 { Conj::conj(x) }
pub fn w_conj_f64(x: f64) -> f64 { Conj::conj(x) }
pub fn w_mul_refs_i8(x: i8, y: i8) -> i8 { MulRefs::mul_refs(&x, &y) }
pub fn w_mul_refs_i64(x: i64, y: i64) -> i64 { MulRefs::mul_refs(&x, &y) }
pub fn w_mul_refs_f32(x: f32, y: f32) -> f32 { MulRefs::mul_refs(&x, &y) }
pub fn w_div_refs_f32(x: f32, y: f32) -> f32 { DivRefs::div_refs(&x, &y) }
pub fn w_mul_refs_f64(x: f64, y: f64) -> f64 { MulRefs::mul_refs(&x, &y) }
pub fn w_div_refs_f64(x: f64, y: f64) -> f64 { DivRefs::div_refs(&x, &y) }
pub fn w_mul_refs_u16(x: u16, y: u16) -> u16 { MulRefs::mul_refs(&x, &y) }
