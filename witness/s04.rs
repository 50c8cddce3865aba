include!("prelude.rs");
pub fn w_from<T, const R: usize, const C: usize>(a: [[T; C]; R]) -> SMatrix<T, R, C> { SMatrix::from(a) }
pub fn w_add<T, const R: usize, const C: usize>(a: SMatrix<T, R, C>, b: SMatrix<T, R, C>) -> SMatrix<T, R, C> where for<'a> T: AddAssign<&'a T> { a + b }
pub fn w_add_ref<T, const R: usize, const C: usize>(a: SMatrix<T, R, C>, b: &SMatrix<T, R, C>) -> SMatrix<T, R, C> where for<'a> T: AddAssign<&'a T> { a + b }
pub fn w_add_assign<T, const R: usize, const C: usize>(a: &mut SMatrix<T, R, C>, b: SMatrix<T, R, C>) where for<'a> T: AddAssign<&'a T> { *a += b }
pub fn w_add_assign_ref<T, const R: usize, const C: usize>(a: &mut SMatrix<T, R, C>, b: &SMatrix<T, R, C>) where for<'a> T: AddAssign<&'a T> { *a += b }
pub fn w_sub<T, const R: usize, const C: usize>(a: SMatrix<T, R, C>, b: SMatrix<T, R, C>) -> SMatrix<T, R, C> where for<'a> T: SubAssign<&'a T> { a - b }
pub fn w_sub_ref<T, const R: usize, const C: usize>(a: SMatrix<T, R, C>, b: &SMatrix<T, R, C>) -> SMatrix<T, R, C> where for<'a> T: SubAssign<&'a T> { a - b }
pub fn w_sub_assign<T, const R: usize, const C: usize>(a: &mut SMatrix<T, R, C>, b: SMatrix<T, R, C>) where for<'a> T: SubAssign<&'a T> { *a -= b }
pub fn w_sub_assign_ref<T, const R: usize, const C: usize>(a: &mut SMatrix<T, R, C>, b: &SMatrix<T, R, C>) where for<'a> T: SubAssign<&'a T> { *a -= b }
pub fn w_neg<T: Neg<Output = T>, const R: usize, const C: usize>(a: SMatrix<T, R, C>) -> SMatrix<T, R, C> { -a }
pub fn w_conj<T: Conj, const R: usize, const C: usize>(a: SMatrix<T, R, C>) -> SMatrix<T, R, C> { a.conj() }
