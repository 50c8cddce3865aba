include!("prelude.rs");
pub fn w_ln<T>(z: Complex<T>) -> Complex<T>
where for<'a> T: AddAssign<&'a T> + Atan2 + Clone + Div<Output = T> + Ln + MulRefs + One { Ln::ln(z) }
