include!("prelude.rs");
pub fn w_new<T>(re: T, im: T) -> Complex<T> { Complex::new(re, im) }
pub fn w_add<U, T: Add<U>>(a: Complex<T>, b: Complex<U>) -> Complex<T::Output> { a + b }
pub fn w_sub<U, T: Sub<U>>(a: Complex<T>, b: Complex<U>) -> Complex<T::Output> { a - b }
pub fn w_neg<T: Neg<Output = T>>(a: Complex<T>) -> Complex<T> { -a }
pub fn w_conj<T: Neg<Output = T>>(a: Complex<T>) -> Complex<T> { a.conj() }
pub fn w_add_assign<U, T: AddAssign<U>>(a: &mut Complex<T>, b: Complex<U>) { *a += b }
pub fn w_sub_assign<U, T: SubAssign<U>>(a: &mut Complex<T>, b: Complex<U>) { *a -= b }
pub fn w_add_assign_ref<T>(a: &mut Complex<T>, b: &Complex<T>) where for<'a> T: AddAssign<&'a T> { *a += b }
pub fn w_sub_assign_ref<T>(a: &mut Complex<T>, b: &Complex<T>) where for<'a> T: SubAssign<&'a T> { *a -= b }
