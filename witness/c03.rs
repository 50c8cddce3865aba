include!("prelude.rs");
pub fn w_div<T: Field>(a: Complex<T>, b: Complex<T>) -> Complex<T> { a / b }
pub fn w_div_ref<T: Field>(a: &Complex<T>, b: &Complex<T>) -> Complex<T> { a / b }
pub fn w_div_refs<T: Field>(a: &Complex<T>, b: &Complex<T>) -> Complex<T> { a.div_refs(b) }
pub fn w_sdiv<T>(a: Complex<T>, s: T) -> Complex<T> where for<'a> T: Div<T, Output = T> + Div<&'a T, Output = T> { a / s }
pub fn w_sdiv_by_ref<'a, T>(a: Complex<T>, s: &'a T) -> Complex<T> where for<'b> T: Div<&'b T, Output = T> { a / s }
pub fn w_sdiv_refs<'a, T>(a: &Complex<T>, s: &'a T) -> Complex<T> where for<'c, 'd> &'c T: Div<&'d T, Output = T> { a / s }
