include!("prelude.rs");
pub fn w_dot<T, const N: usize>(a: SVector<T, N>, b: SVector<T, N>) -> T where for<'a> T: MulRefs + AddAssign<&'a T> + Zero { a * b }
pub fn w_dot_ref<T, const N: usize>(a: SVector<T, N>, b: &SVector<T, N>) -> T where for<'a> T: MulRefs + AddAssign<&'a T> + Zero { a * b }
