include!("prelude.rs");
pub fn w_mul<T: Ring>(a: Complex<T>, b: Complex<T>) -> Complex<T> { a * b }
pub fn w_mul_ref<T: Ring>(a: &Complex<T>, b: &Complex<T>) -> Complex<T> { a * b }
pub fn w_mul_refs<T: Ring>(a: &Complex<T>, b: &Complex<T>) -> Complex<T> { a.mul_refs(b) }
pub fn w_mul_assign<T: Ring>(a: &mut Complex<T>, b: Complex<T>) { *a *= b }
pub fn w_scale<T: MulRefs>(a: Complex<T>, s: T) -> Complex<T> { a * s }
