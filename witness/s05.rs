include!("prelude.rs");
pub fn w_mul<T, const L: usize, const M: usize, const N: usize>(a: SMatrix<T, L, M>, b: SMatrix<T, M, N>) -> SMatrix<T, L, N> where for<'b> T: AddAssign<&'b T> + MulRefs + Zero { a * b }
pub fn w_mul_ref<T, const L: usize, const M: usize, const N: usize>(a: &SMatrix<T, L, M>, b: &SMatrix<T, M, N>) -> SMatrix<T, L, N> where for<'b> T: AddAssign<&'b T> + MulRefs + Zero { a * b }
pub fn w_mul_assign<T: Ring, const L: usize, const N: usize>(a: &mut SMatrix<T, L, N>, b: SMatrix<T, N, N>) { *a *= b }
pub fn w_mul_assign_ref<T: Ring, const L: usize, const N: usize>(a: &mut SMatrix<T, L, N>, b: &SMatrix<T, N, N>) { *a *= b }
pub fn w_matvec<T, const L: usize, const M: usize>(a: &SMatrix<T, L, M>, v: &SVector<T, M>) -> SVector<T, L> where for<'b> T: MulRefs + AddAssign<&'b T> + Zero { a * v }
pub fn w_mul_refs<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { a.mul_refs(b) }
