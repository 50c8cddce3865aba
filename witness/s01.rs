include!("prelude.rs");
pub fn w_add<T, const N: usize>(a: SVector<T, N>, b: SVector<T, N>) -> SVector<T, N> where for<'a> T: AddAssign<&'a T> { a + b }
pub fn w_add_ref<T, const N: usize>(a: SVector<T, N>, b: &SVector<T, N>) -> SVector<T, N> where for<'a> T: AddAssign<&'a T> { a + b }
pub fn w_add_assign<T, const N: usize>(a: &mut SVector<T, N>, b: SVector<T, N>) where for<'a> T: AddAssign<&'a T> { *a += b }
pub fn w_add_assign_ref<T, const N: usize>(a: &mut SVector<T, N>, b: &SVector<T, N>) where for<'a> T: AddAssign<&'a T> { *a += b }
pub fn w_sub<T, const N: usize>(a: SVector<T, N>, b: SVector<T, N>) -> SVector<T, N> where for<'a> T: SubAssign<&'a T> { a - b }
pub fn w_sub_ref<T, const N: usize>(a: SVector<T, N>, b: &SVector<T, N>) -> SVector<T, N> where for<'a> T: SubAssign<&'a T> { a - b }
pub fn w_sub_assign<T, const N: usize>(a: &mut SVector<T, N>, b: SVector<T, N>) where for<'a> T: SubAssign<&'a T> { *a -= b }
pub fn w_sub_assign_ref<T, const N: usize>(a: &mut SVector<T, N>, b: &SVector<T, N>) where for<'a> T: SubAssign<&'a T> { *a -= b }
pub fn w_scale<T: MulRefs, const N: usize>(a: SVector<T, N>, s: T) -> SVector<T, N> { a * s }
pub fn w_scale_ref<T: MulRefs, const N: usize>(a: SVector<T, N>, s: &T) -> SVector<T, N> { a * s }
pub fn w_scale_assign<T: MulRefs, const N: usize>(a: &mut SVector<T, N>, s: T) { *a *= s }
pub fn w_scale_assign_ref<T: MulRefs, const N: usize>(a: &mut SVector<T, N>, s: &T) { *a *= s }
