include!("prelude.rs");
pub fn w_sqr_norm<T>(a: &Complex<T>) -> T where for<'a> T: AddAssign<&'a T> + MulRefs { a.sqr_norm() }
pub fn w_abs<T>(a: Complex<T>) -> T where for<'a> T: AddAssign<&'a T> + MulRefs + Sqrt { a.abs() }
pub fn w_abs_ref<T>(a: &Complex<T>) -> T where for<'a> T: AddAssign<&'a T> + MulRefs + Sqrt { Abs::abs(a) }
pub fn w_arg<T: Atan2>(a: Complex<T>) -> T { a.arg() }
