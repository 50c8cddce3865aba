include!("prelude.rs");
pub fn ok_v_add_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SVector<T, J>, b: SVector<T, J>) { let _ = a + b; }
pub fn no_v_add_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SVector<T, J>, b: SVector<T, K>) { let _ = a + b; }
pub fn no_v_add_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 1>) { let _ = a + b; }
pub fn no_v_add_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 2>) { let _ = a + b; }
pub fn no_v_add_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 3>) { let _ = a + b; }
pub fn no_v_add_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 0>) { let _ = a + b; }
pub fn no_v_add_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 2>) { let _ = a + b; }
pub fn no_v_add_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 3>) { let _ = a + b; }
pub fn no_v_add_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 0>) { let _ = a + b; }
pub fn no_v_add_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 1>) { let _ = a + b; }
pub fn no_v_add_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 3>) { let _ = a + b; }
pub fn no_v_add_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 0>) { let _ = a + b; }
pub fn no_v_add_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 1>) { let _ = a + b; }
pub fn no_v_add_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 2>) { let _ = a + b; }
pub fn no_v_add_far(a: SVector<f64, 3>, b: SVector<f64, 7>) { let _ = a + b; }
pub fn ok_v_add_ref_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SVector<T, J>, b: &SVector<T, J>) { let _ = a + b; }
pub fn no_v_add_ref_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SVector<T, J>, b: &SVector<T, K>) { let _ = a + b; }
pub fn no_v_add_ref_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: &SVector<T, 1>) { let _ = a + b; }
pub fn no_v_add_ref_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: &SVector<T, 2>) { let _ = a + b; }
pub fn no_v_add_ref_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: &SVector<T, 3>) { let _ = a + b; }
pub fn no_v_add_ref_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: &SVector<T, 0>) { let _ = a + b; }
pub fn no_v_add_ref_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: &SVector<T, 2>) { let _ = a + b; }
pub fn no_v_add_ref_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: &SVector<T, 3>) { let _ = a + b; }
pub fn no_v_add_ref_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: &SVector<T, 0>) { let _ = a + b; }
pub fn no_v_add_ref_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: &SVector<T, 1>) { let _ = a + b; }
pub fn no_v_add_ref_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: &SVector<T, 3>) { let _ = a + b; }
pub fn no_v_add_ref_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: &SVector<T, 0>) { let _ = a + b; }
pub fn no_v_add_ref_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: &SVector<T, 1>) { let _ = a + b; }
pub fn no_v_add_ref_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: &SVector<T, 2>) { let _ = a + b; }
pub fn no_v_add_ref_far(a: SVector<f64, 3>, b: &SVector<f64, 7>) { let _ = a + b; }
pub fn ok_v_add_assign_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &mut SVector<T, J>, b: SVector<T, J>) { *a += b; }
pub fn no_v_add_assign_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SVector<T, J>, b: SVector<T, K>) { *a += b; }
pub fn no_v_add_assign_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: SVector<T, 1>) { *a += b; }
pub fn no_v_add_assign_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: SVector<T, 2>) { *a += b; }
pub fn no_v_add_assign_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: SVector<T, 3>) { *a += b; }
pub fn no_v_add_assign_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: SVector<T, 0>) { *a += b; }
pub fn no_v_add_assign_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: SVector<T, 2>) { *a += b; }
pub fn no_v_add_assign_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: SVector<T, 3>) { *a += b; }
pub fn no_v_add_assign_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: SVector<T, 0>) { *a += b; }
pub fn no_v_add_assign_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: SVector<T, 1>) { *a += b; }
pub fn no_v_add_assign_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: SVector<T, 3>) { *a += b; }
pub fn no_v_add_assign_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: SVector<T, 0>) { *a += b; }
pub fn no_v_add_assign_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: SVector<T, 1>) { *a += b; }
pub fn no_v_add_assign_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: SVector<T, 2>) { *a += b; }
pub fn no_v_add_assign_far(a: &mut SVector<f64, 3>, b: SVector<f64, 7>) { *a += b; }
pub fn ok_v_add_assign_ref_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &mut SVector<T, J>, b: &SVector<T, J>) { *a += b; }
pub fn no_v_add_assign_ref_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SVector<T, J>, b: &SVector<T, K>) { *a += b; }
pub fn no_v_add_assign_ref_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: &SVector<T, 1>) { *a += b; }
pub fn no_v_add_assign_ref_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: &SVector<T, 2>) { *a += b; }
pub fn no_v_add_assign_ref_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: &SVector<T, 3>) { *a += b; }
pub fn no_v_add_assign_ref_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: &SVector<T, 0>) { *a += b; }
pub fn no_v_add_assign_ref_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: &SVector<T, 2>) { *a += b; }
pub fn no_v_add_assign_ref_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: &SVector<T, 3>) { *a += b; }
pub fn no_v_add_assign_ref_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: &SVector<T, 0>) { *a += b; }
pub fn no_v_add_assign_ref_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: &SVector<T, 1>) { *a += b; }
pub fn no_v_add_assign_ref_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: &SVector<T, 3>) { *a += b; }
pub fn no_v_add_assign_ref_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: &SVector<T, 0>) { *a += b; }
pub fn no_v_add_assign_ref_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: &SVector<T, 1>) { *a += b; }
pub fn no_v_add_assign_ref_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: &SVector<T, 2>) { *a += b; }
pub fn no_v_add_assign_ref_far(a: &mut SVector<f64, 3>, b: &SVector<f64, 7>) { *a += b; }
pub fn ok_m_add_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, J, J>) { let _ = a + b; }
pub fn no_m_add_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, J, K>) { let _ = a + b; }
pub fn no_m_add_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, J>) { let _ = a + b; }
pub fn no_m_add_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, K>) { let _ = a + b; }
pub fn no_m_add_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, L>) { let _ = a + b; }
pub fn no_m_add_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, J>) { let _ = a + b; }
pub fn ok_m_add_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, K>) { let _ = a + b; }
pub fn no_m_add_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, L>) { let _ = a + b; }
pub fn no_m_add_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, J>) { let _ = a + b; }
pub fn no_m_add_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, K>) { let _ = a + b; }
pub fn no_m_add_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, L>) { let _ = a + b; }
pub fn no_m_add_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, J>) { let _ = a + b; }
pub fn no_m_add_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, K>) { let _ = a + b; }
pub fn no_m_add_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, L>) { let _ = a + b; }
pub fn no_m_add_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, M>) { let _ = a + b; }
pub fn no_m_add_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 1, 2>) { let _ = a + b; }
pub fn no_m_add_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 2, 1>) { let _ = a + b; }
pub fn no_m_add_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 2, 2>) { let _ = a + b; }
pub fn no_m_add_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 1, 1>) { let _ = a + b; }
pub fn no_m_add_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 2, 1>) { let _ = a + b; }
pub fn no_m_add_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 2, 2>) { let _ = a + b; }
pub fn no_m_add_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 1, 1>) { let _ = a + b; }
pub fn no_m_add_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 1, 2>) { let _ = a + b; }
pub fn no_m_add_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 2, 2>) { let _ = a + b; }
pub fn no_m_add_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 1, 1>) { let _ = a + b; }
pub fn no_m_add_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 1, 2>) { let _ = a + b; }
pub fn no_m_add_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 2, 1>) { let _ = a + b; }
pub fn no_m_add_far(a: SMatrix<f64, 3, 7>, b: SMatrix<f64, 11, 15>) { let _ = a + b; }
pub fn ok_m_add_ref_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SMatrix<T, J, J>, b: &SMatrix<T, J, J>) { let _ = a + b; }
pub fn no_m_add_ref_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: &SMatrix<T, J, K>) { let _ = a + b; }
pub fn no_m_add_ref_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: &SMatrix<T, K, J>) { let _ = a + b; }
pub fn no_m_add_ref_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: &SMatrix<T, K, K>) { let _ = a + b; }
pub fn no_m_add_ref_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, J>, b: &SMatrix<T, K, L>) { let _ = a + b; }
pub fn no_m_add_ref_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, J, J>) { let _ = a + b; }
pub fn ok_m_add_ref_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, J, K>) { let _ = a + b; }
pub fn no_m_add_ref_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, J, L>) { let _ = a + b; }
pub fn no_m_add_ref_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, K, J>) { let _ = a + b; }
pub fn no_m_add_ref_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, K, K>) { let _ = a + b; }
pub fn no_m_add_ref_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, K, L>) { let _ = a + b; }
pub fn no_m_add_ref_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, L, J>) { let _ = a + b; }
pub fn no_m_add_ref_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, L, K>) { let _ = a + b; }
pub fn no_m_add_ref_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, L, L>) { let _ = a + b; }
pub fn no_m_add_ref_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, L, M>) { let _ = a + b; }
pub fn no_m_add_ref_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 2>) { let _ = a + b; }
pub fn no_m_add_ref_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 1>) { let _ = a + b; }
pub fn no_m_add_ref_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 2>) { let _ = a + b; }
pub fn no_m_add_ref_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: &SMatrix<T, 1, 1>) { let _ = a + b; }
pub fn no_m_add_ref_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 1>) { let _ = a + b; }
pub fn no_m_add_ref_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 2>) { let _ = a + b; }
pub fn no_m_add_ref_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 1>) { let _ = a + b; }
pub fn no_m_add_ref_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 2>) { let _ = a + b; }
pub fn no_m_add_ref_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: &SMatrix<T, 2, 2>) { let _ = a + b; }
pub fn no_m_add_ref_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 1>) { let _ = a + b; }
pub fn no_m_add_ref_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 2>) { let _ = a + b; }
pub fn no_m_add_ref_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 1>) { let _ = a + b; }
pub fn no_m_add_ref_far(a: SMatrix<f64, 3, 7>, b: &SMatrix<f64, 11, 15>) { let _ = a + b; }
pub fn ok_m_add_assign_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, J, J>) { *a += b; }
pub fn no_m_add_assign_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, J, K>) { *a += b; }
pub fn no_m_add_assign_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, K, J>) { *a += b; }
pub fn no_m_add_assign_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, K, K>) { *a += b; }
pub fn no_m_add_assign_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, K, L>) { *a += b; }
pub fn no_m_add_assign_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, J, J>) { *a += b; }
pub fn ok_m_add_assign_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, J, K>) { *a += b; }
pub fn no_m_add_assign_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, J, L>) { *a += b; }
pub fn no_m_add_assign_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, K, J>) { *a += b; }
pub fn no_m_add_assign_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, K, K>) { *a += b; }
pub fn no_m_add_assign_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, K, L>) { *a += b; }
pub fn no_m_add_assign_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, J>) { *a += b; }
pub fn no_m_add_assign_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, K>) { *a += b; }
pub fn no_m_add_assign_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, L>) { *a += b; }
pub fn no_m_add_assign_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, M>) { *a += b; }
pub fn no_m_add_assign_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: SMatrix<T, 1, 2>) { *a += b; }
pub fn no_m_add_assign_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: SMatrix<T, 2, 1>) { *a += b; }
pub fn no_m_add_assign_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: SMatrix<T, 2, 2>) { *a += b; }
pub fn no_m_add_assign_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: SMatrix<T, 1, 1>) { *a += b; }
pub fn no_m_add_assign_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: SMatrix<T, 2, 1>) { *a += b; }
pub fn no_m_add_assign_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: SMatrix<T, 2, 2>) { *a += b; }
pub fn no_m_add_assign_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: SMatrix<T, 1, 1>) { *a += b; }
pub fn no_m_add_assign_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: SMatrix<T, 1, 2>) { *a += b; }
pub fn no_m_add_assign_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: SMatrix<T, 2, 2>) { *a += b; }
pub fn no_m_add_assign_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: SMatrix<T, 1, 1>) { *a += b; }
pub fn no_m_add_assign_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: SMatrix<T, 1, 2>) { *a += b; }
pub fn no_m_add_assign_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: SMatrix<T, 2, 1>) { *a += b; }
pub fn no_m_add_assign_far(a: &mut SMatrix<f64, 3, 7>, b: SMatrix<f64, 11, 15>) { *a += b; }
pub fn ok_m_add_assign_ref_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, J, J>) { *a += b; }
pub fn no_m_add_assign_ref_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, J, K>) { *a += b; }
pub fn no_m_add_assign_ref_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, K, J>) { *a += b; }
pub fn no_m_add_assign_ref_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, K, K>) { *a += b; }
pub fn no_m_add_assign_ref_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, K, L>) { *a += b; }
pub fn no_m_add_assign_ref_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, J, J>) { *a += b; }
pub fn ok_m_add_assign_ref_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, J, K>) { *a += b; }
pub fn no_m_add_assign_ref_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, J, L>) { *a += b; }
pub fn no_m_add_assign_ref_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, K, J>) { *a += b; }
pub fn no_m_add_assign_ref_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, K, K>) { *a += b; }
pub fn no_m_add_assign_ref_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, K, L>) { *a += b; }
pub fn no_m_add_assign_ref_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, J>) { *a += b; }
pub fn no_m_add_assign_ref_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, K>) { *a += b; }
pub fn no_m_add_assign_ref_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, L>) { *a += b; }
pub fn no_m_add_assign_ref_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, M>) { *a += b; }
pub fn no_m_add_assign_ref_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 2>) { *a += b; }
pub fn no_m_add_assign_ref_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 1>) { *a += b; }
pub fn no_m_add_assign_ref_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 2>) { *a += b; }
pub fn no_m_add_assign_ref_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: &SMatrix<T, 1, 1>) { *a += b; }
pub fn no_m_add_assign_ref_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 1>) { *a += b; }
pub fn no_m_add_assign_ref_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 2>) { *a += b; }
pub fn no_m_add_assign_ref_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 1>) { *a += b; }
pub fn no_m_add_assign_ref_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 2>) { *a += b; }
pub fn no_m_add_assign_ref_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: &SMatrix<T, 2, 2>) { *a += b; }
pub fn no_m_add_assign_ref_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 1>) { *a += b; }
pub fn no_m_add_assign_ref_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 2>) { *a += b; }
pub fn no_m_add_assign_ref_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 1>) { *a += b; }
pub fn no_m_add_assign_ref_far(a: &mut SMatrix<f64, 3, 7>, b: &SMatrix<f64, 11, 15>) { *a += b; }
pub fn ok_v_sub_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SVector<T, J>, b: SVector<T, J>) { let _ = a - b; }
pub fn no_v_sub_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SVector<T, J>, b: SVector<T, K>) { let _ = a - b; }
pub fn no_v_sub_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 1>) { let _ = a - b; }
pub fn no_v_sub_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 2>) { let _ = a - b; }
pub fn no_v_sub_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 3>) { let _ = a - b; }
pub fn no_v_sub_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 0>) { let _ = a - b; }
pub fn no_v_sub_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 2>) { let _ = a - b; }
pub fn no_v_sub_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 3>) { let _ = a - b; }
pub fn no_v_sub_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 0>) { let _ = a - b; }
pub fn no_v_sub_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 1>) { let _ = a - b; }
pub fn no_v_sub_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 3>) { let _ = a - b; }
pub fn no_v_sub_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 0>) { let _ = a - b; }
pub fn no_v_sub_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 1>) { let _ = a - b; }
pub fn no_v_sub_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 2>) { let _ = a - b; }
pub fn no_v_sub_far(a: SVector<f64, 3>, b: SVector<f64, 7>) { let _ = a - b; }
pub fn ok_v_sub_ref_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SVector<T, J>, b: &SVector<T, J>) { let _ = a - b; }
pub fn no_v_sub_ref_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SVector<T, J>, b: &SVector<T, K>) { let _ = a - b; }
pub fn no_v_sub_ref_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: &SVector<T, 1>) { let _ = a - b; }
pub fn no_v_sub_ref_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: &SVector<T, 2>) { let _ = a - b; }
pub fn no_v_sub_ref_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: &SVector<T, 3>) { let _ = a - b; }
pub fn no_v_sub_ref_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: &SVector<T, 0>) { let _ = a - b; }
pub fn no_v_sub_ref_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: &SVector<T, 2>) { let _ = a - b; }
pub fn no_v_sub_ref_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: &SVector<T, 3>) { let _ = a - b; }
pub fn no_v_sub_ref_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: &SVector<T, 0>) { let _ = a - b; }
pub fn no_v_sub_ref_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: &SVector<T, 1>) { let _ = a - b; }
pub fn no_v_sub_ref_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: &SVector<T, 3>) { let _ = a - b; }
pub fn no_v_sub_ref_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: &SVector<T, 0>) { let _ = a - b; }
pub fn no_v_sub_ref_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: &SVector<T, 1>) { let _ = a - b; }
pub fn no_v_sub_ref_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: &SVector<T, 2>) { let _ = a - b; }
pub fn no_v_sub_ref_far(a: SVector<f64, 3>, b: &SVector<f64, 7>) { let _ = a - b; }
pub fn ok_v_sub_assign_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &mut SVector<T, J>, b: SVector<T, J>) { *a -= b; }
pub fn no_v_sub_assign_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SVector<T, J>, b: SVector<T, K>) { *a -= b; }
pub fn no_v_sub_assign_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: SVector<T, 1>) { *a -= b; }
pub fn no_v_sub_assign_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: SVector<T, 2>) { *a -= b; }
pub fn no_v_sub_assign_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: SVector<T, 3>) { *a -= b; }
pub fn no_v_sub_assign_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: SVector<T, 0>) { *a -= b; }
pub fn no_v_sub_assign_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: SVector<T, 2>) { *a -= b; }
pub fn no_v_sub_assign_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: SVector<T, 3>) { *a -= b; }
pub fn no_v_sub_assign_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: SVector<T, 0>) { *a -= b; }
pub fn no_v_sub_assign_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: SVector<T, 1>) { *a -= b; }
pub fn no_v_sub_assign_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: SVector<T, 3>) { *a -= b; }
pub fn no_v_sub_assign_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: SVector<T, 0>) { *a -= b; }
pub fn no_v_sub_assign_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: SVector<T, 1>) { *a -= b; }
pub fn no_v_sub_assign_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: SVector<T, 2>) { *a -= b; }
pub fn no_v_sub_assign_far(a: &mut SVector<f64, 3>, b: SVector<f64, 7>) { *a -= b; }
pub fn ok_v_sub_assign_ref_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &mut SVector<T, J>, b: &SVector<T, J>) { *a -= b; }
pub fn no_v_sub_assign_ref_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SVector<T, J>, b: &SVector<T, K>) { *a -= b; }
pub fn no_v_sub_assign_ref_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: &SVector<T, 1>) { *a -= b; }
pub fn no_v_sub_assign_ref_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: &SVector<T, 2>) { *a -= b; }
pub fn no_v_sub_assign_ref_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 0>, b: &SVector<T, 3>) { *a -= b; }
pub fn no_v_sub_assign_ref_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: &SVector<T, 0>) { *a -= b; }
pub fn no_v_sub_assign_ref_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: &SVector<T, 2>) { *a -= b; }
pub fn no_v_sub_assign_ref_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 1>, b: &SVector<T, 3>) { *a -= b; }
pub fn no_v_sub_assign_ref_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: &SVector<T, 0>) { *a -= b; }
pub fn no_v_sub_assign_ref_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: &SVector<T, 1>) { *a -= b; }
pub fn no_v_sub_assign_ref_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 2>, b: &SVector<T, 3>) { *a -= b; }
pub fn no_v_sub_assign_ref_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: &SVector<T, 0>) { *a -= b; }
pub fn no_v_sub_assign_ref_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: &SVector<T, 1>) { *a -= b; }
pub fn no_v_sub_assign_ref_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SVector<T, 3>, b: &SVector<T, 2>) { *a -= b; }
pub fn no_v_sub_assign_ref_far(a: &mut SVector<f64, 3>, b: &SVector<f64, 7>) { *a -= b; }
pub fn ok_m_sub_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, J, J>) { let _ = a - b; }
pub fn no_m_sub_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, J, K>) { let _ = a - b; }
pub fn no_m_sub_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, J>) { let _ = a - b; }
pub fn no_m_sub_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, K>) { let _ = a - b; }
pub fn no_m_sub_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, L>) { let _ = a - b; }
pub fn no_m_sub_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, J>) { let _ = a - b; }
pub fn ok_m_sub_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, K>) { let _ = a - b; }
pub fn no_m_sub_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, L>) { let _ = a - b; }
pub fn no_m_sub_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, J>) { let _ = a - b; }
pub fn no_m_sub_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, K>) { let _ = a - b; }
pub fn no_m_sub_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, L>) { let _ = a - b; }
pub fn no_m_sub_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, J>) { let _ = a - b; }
pub fn no_m_sub_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, K>) { let _ = a - b; }
pub fn no_m_sub_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, L>) { let _ = a - b; }
pub fn no_m_sub_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, M>) { let _ = a - b; }
pub fn no_m_sub_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 1, 2>) { let _ = a - b; }
pub fn no_m_sub_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 2, 1>) { let _ = a - b; }
pub fn no_m_sub_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 2, 2>) { let _ = a - b; }
pub fn no_m_sub_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 1, 1>) { let _ = a - b; }
pub fn no_m_sub_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 2, 1>) { let _ = a - b; }
pub fn no_m_sub_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 2, 2>) { let _ = a - b; }
pub fn no_m_sub_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 1, 1>) { let _ = a - b; }
pub fn no_m_sub_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 1, 2>) { let _ = a - b; }
pub fn no_m_sub_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 2, 2>) { let _ = a - b; }
pub fn no_m_sub_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 1, 1>) { let _ = a - b; }
pub fn no_m_sub_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 1, 2>) { let _ = a - b; }
pub fn no_m_sub_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 2, 1>) { let _ = a - b; }
pub fn no_m_sub_far(a: SMatrix<f64, 3, 7>, b: SMatrix<f64, 11, 15>) { let _ = a - b; }
pub fn ok_m_sub_ref_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SMatrix<T, J, J>, b: &SMatrix<T, J, J>) { let _ = a - b; }
pub fn no_m_sub_ref_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: &SMatrix<T, J, K>) { let _ = a - b; }
pub fn no_m_sub_ref_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: &SMatrix<T, K, J>) { let _ = a - b; }
pub fn no_m_sub_ref_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: &SMatrix<T, K, K>) { let _ = a - b; }
pub fn no_m_sub_ref_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, J>, b: &SMatrix<T, K, L>) { let _ = a - b; }
pub fn no_m_sub_ref_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, J, J>) { let _ = a - b; }
pub fn ok_m_sub_ref_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, J, K>) { let _ = a - b; }
pub fn no_m_sub_ref_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, J, L>) { let _ = a - b; }
pub fn no_m_sub_ref_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, K, J>) { let _ = a - b; }
pub fn no_m_sub_ref_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, K, K>) { let _ = a - b; }
pub fn no_m_sub_ref_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, K, L>) { let _ = a - b; }
pub fn no_m_sub_ref_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, L, J>) { let _ = a - b; }
pub fn no_m_sub_ref_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, L, K>) { let _ = a - b; }
pub fn no_m_sub_ref_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, L, L>) { let _ = a - b; }
pub fn no_m_sub_ref_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: SMatrix<T, J, K>, b: &SMatrix<T, L, M>) { let _ = a - b; }
pub fn no_m_sub_ref_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 2>) { let _ = a - b; }
pub fn no_m_sub_ref_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 1>) { let _ = a - b; }
pub fn no_m_sub_ref_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 2>) { let _ = a - b; }
pub fn no_m_sub_ref_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: &SMatrix<T, 1, 1>) { let _ = a - b; }
pub fn no_m_sub_ref_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 1>) { let _ = a - b; }
pub fn no_m_sub_ref_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 2>) { let _ = a - b; }
pub fn no_m_sub_ref_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 1>) { let _ = a - b; }
pub fn no_m_sub_ref_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 2>) { let _ = a - b; }
pub fn no_m_sub_ref_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: &SMatrix<T, 2, 2>) { let _ = a - b; }
pub fn no_m_sub_ref_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 1>) { let _ = a - b; }
pub fn no_m_sub_ref_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 2>) { let _ = a - b; }
pub fn no_m_sub_ref_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 1>) { let _ = a - b; }
pub fn no_m_sub_ref_far(a: SMatrix<f64, 3, 7>, b: &SMatrix<f64, 11, 15>) { let _ = a - b; }
pub fn ok_m_sub_assign_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, J, J>) { *a -= b; }
pub fn no_m_sub_assign_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, J, K>) { *a -= b; }
pub fn no_m_sub_assign_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, K, J>) { *a -= b; }
pub fn no_m_sub_assign_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, K, K>) { *a -= b; }
pub fn no_m_sub_assign_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, K, L>) { *a -= b; }
pub fn no_m_sub_assign_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, J, J>) { *a -= b; }
pub fn ok_m_sub_assign_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, J, K>) { *a -= b; }
pub fn no_m_sub_assign_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, J, L>) { *a -= b; }
pub fn no_m_sub_assign_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, K, J>) { *a -= b; }
pub fn no_m_sub_assign_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, K, K>) { *a -= b; }
pub fn no_m_sub_assign_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, K, L>) { *a -= b; }
pub fn no_m_sub_assign_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, J>) { *a -= b; }
pub fn no_m_sub_assign_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, K>) { *a -= b; }
pub fn no_m_sub_assign_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, L>) { *a -= b; }
pub fn no_m_sub_assign_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, M>) { *a -= b; }
pub fn no_m_sub_assign_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: SMatrix<T, 1, 2>) { *a -= b; }
pub fn no_m_sub_assign_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: SMatrix<T, 2, 1>) { *a -= b; }
pub fn no_m_sub_assign_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: SMatrix<T, 2, 2>) { *a -= b; }
pub fn no_m_sub_assign_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: SMatrix<T, 1, 1>) { *a -= b; }
pub fn no_m_sub_assign_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: SMatrix<T, 2, 1>) { *a -= b; }
pub fn no_m_sub_assign_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: SMatrix<T, 2, 2>) { *a -= b; }
pub fn no_m_sub_assign_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: SMatrix<T, 1, 1>) { *a -= b; }
pub fn no_m_sub_assign_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: SMatrix<T, 1, 2>) { *a -= b; }
pub fn no_m_sub_assign_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: SMatrix<T, 2, 2>) { *a -= b; }
pub fn no_m_sub_assign_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: SMatrix<T, 1, 1>) { *a -= b; }
pub fn no_m_sub_assign_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: SMatrix<T, 1, 2>) { *a -= b; }
pub fn no_m_sub_assign_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: SMatrix<T, 2, 1>) { *a -= b; }
pub fn no_m_sub_assign_far(a: &mut SMatrix<f64, 3, 7>, b: SMatrix<f64, 11, 15>) { *a -= b; }
pub fn ok_m_sub_assign_ref_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, J, J>) { *a -= b; }
pub fn no_m_sub_assign_ref_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, J, K>) { *a -= b; }
pub fn no_m_sub_assign_ref_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, K, J>) { *a -= b; }
pub fn no_m_sub_assign_ref_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, K, K>) { *a -= b; }
pub fn no_m_sub_assign_ref_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, K, L>) { *a -= b; }
pub fn no_m_sub_assign_ref_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, J, J>) { *a -= b; }
pub fn ok_m_sub_assign_ref_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, J, K>) { *a -= b; }
pub fn no_m_sub_assign_ref_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, J, L>) { *a -= b; }
pub fn no_m_sub_assign_ref_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, K, J>) { *a -= b; }
pub fn no_m_sub_assign_ref_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, K, K>) { *a -= b; }
pub fn no_m_sub_assign_ref_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, K, L>) { *a -= b; }
pub fn no_m_sub_assign_ref_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, J>) { *a -= b; }
pub fn no_m_sub_assign_ref_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, K>) { *a -= b; }
pub fn no_m_sub_assign_ref_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, L>) { *a -= b; }
pub fn no_m_sub_assign_ref_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, M>) { *a -= b; }
pub fn no_m_sub_assign_ref_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 2>) { *a -= b; }
pub fn no_m_sub_assign_ref_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 1>) { *a -= b; }
pub fn no_m_sub_assign_ref_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 2>) { *a -= b; }
pub fn no_m_sub_assign_ref_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: &SMatrix<T, 1, 1>) { *a -= b; }
pub fn no_m_sub_assign_ref_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 1>) { *a -= b; }
pub fn no_m_sub_assign_ref_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 2>) { *a -= b; }
pub fn no_m_sub_assign_ref_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 1>) { *a -= b; }
pub fn no_m_sub_assign_ref_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 2>) { *a -= b; }
pub fn no_m_sub_assign_ref_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: &SMatrix<T, 2, 2>) { *a -= b; }
pub fn no_m_sub_assign_ref_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 1>) { *a -= b; }
pub fn no_m_sub_assign_ref_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 2>) { *a -= b; }
pub fn no_m_sub_assign_ref_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 1>) { *a -= b; }
pub fn no_m_sub_assign_ref_far(a: &mut SMatrix<f64, 3, 7>, b: &SMatrix<f64, 11, 15>) { *a -= b; }
pub fn ok_v_dot_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SVector<T, J>, b: SVector<T, J>) { let _ = a * b; }
pub fn no_v_dot_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SVector<T, J>, b: SVector<T, K>) { let _ = a * b; }
pub fn no_v_dot_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 1>) { let _ = a * b; }
pub fn no_v_dot_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 2>) { let _ = a * b; }
pub fn no_v_dot_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 3>) { let _ = a * b; }
pub fn no_v_dot_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 0>) { let _ = a * b; }
pub fn no_v_dot_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 2>) { let _ = a * b; }
pub fn no_v_dot_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 3>) { let _ = a * b; }
pub fn no_v_dot_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 0>) { let _ = a * b; }
pub fn no_v_dot_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 1>) { let _ = a * b; }
pub fn no_v_dot_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 3>) { let _ = a * b; }
pub fn no_v_dot_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 0>) { let _ = a * b; }
pub fn no_v_dot_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 1>) { let _ = a * b; }
pub fn no_v_dot_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 2>) { let _ = a * b; }
pub fn no_v_dot_far(a: SVector<f64, 3>, b: SVector<f64, 7>) { let _ = a * b; }
pub fn ok_v_dot_ref_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SVector<T, J>, b: &SVector<T, J>) { let _ = a * b; }
pub fn no_v_dot_ref_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SVector<T, J>, b: &SVector<T, K>) { let _ = a * b; }
pub fn no_v_dot_ref_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: &SVector<T, 1>) { let _ = a * b; }
pub fn no_v_dot_ref_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: &SVector<T, 2>) { let _ = a * b; }
pub fn no_v_dot_ref_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: &SVector<T, 3>) { let _ = a * b; }
pub fn no_v_dot_ref_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: &SVector<T, 0>) { let _ = a * b; }
pub fn no_v_dot_ref_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: &SVector<T, 2>) { let _ = a * b; }
pub fn no_v_dot_ref_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: &SVector<T, 3>) { let _ = a * b; }
pub fn no_v_dot_ref_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: &SVector<T, 0>) { let _ = a * b; }
pub fn no_v_dot_ref_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: &SVector<T, 1>) { let _ = a * b; }
pub fn no_v_dot_ref_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: &SVector<T, 3>) { let _ = a * b; }
pub fn no_v_dot_ref_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: &SVector<T, 0>) { let _ = a * b; }
pub fn no_v_dot_ref_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: &SVector<T, 1>) { let _ = a * b; }
pub fn no_v_dot_ref_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: &SVector<T, 2>) { let _ = a * b; }
pub fn no_v_dot_ref_far(a: SVector<f64, 3>, b: &SVector<f64, 7>) { let _ = a * b; }
pub fn ok_v_eq_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SVector<T, J>, b: SVector<T, J>) { let _ = a == b; }
pub fn no_v_eq_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SVector<T, J>, b: SVector<T, K>) { let _ = a == b; }
pub fn no_v_eq_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 1>) { let _ = a == b; }
pub fn no_v_eq_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 2>) { let _ = a == b; }
pub fn no_v_eq_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 0>, b: SVector<T, 3>) { let _ = a == b; }
pub fn no_v_eq_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 0>) { let _ = a == b; }
pub fn no_v_eq_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 2>) { let _ = a == b; }
pub fn no_v_eq_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 1>, b: SVector<T, 3>) { let _ = a == b; }
pub fn no_v_eq_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 0>) { let _ = a == b; }
pub fn no_v_eq_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 1>) { let _ = a == b; }
pub fn no_v_eq_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 2>, b: SVector<T, 3>) { let _ = a == b; }
pub fn no_v_eq_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 0>) { let _ = a == b; }
pub fn no_v_eq_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 1>) { let _ = a == b; }
pub fn no_v_eq_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SVector<T, 3>, b: SVector<T, 2>) { let _ = a == b; }
pub fn no_v_eq_far(a: SVector<f64, 3>, b: SVector<f64, 7>) { let _ = a == b; }
pub fn ok_v_from_JJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: [T; J]) -> SVector<T, J> { SVector::from(a) }
pub fn no_v_from_JK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: [T; J]) -> SVector<T, K> { SVector::from(a) }
pub fn no_v_from_0_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 0]) -> SVector<T, 1> { SVector::from(a) }
pub fn no_v_from_0_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 0]) -> SVector<T, 2> { SVector::from(a) }
pub fn no_v_from_0_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 0]) -> SVector<T, 3> { SVector::from(a) }
pub fn no_v_from_1_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 1]) -> SVector<T, 0> { SVector::from(a) }
pub fn no_v_from_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 1]) -> SVector<T, 2> { SVector::from(a) }
pub fn no_v_from_1_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 1]) -> SVector<T, 3> { SVector::from(a) }
pub fn no_v_from_2_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 2]) -> SVector<T, 0> { SVector::from(a) }
pub fn no_v_from_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 2]) -> SVector<T, 1> { SVector::from(a) }
pub fn no_v_from_2_3<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 2]) -> SVector<T, 3> { SVector::from(a) }
pub fn no_v_from_3_0<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 3]) -> SVector<T, 0> { SVector::from(a) }
pub fn no_v_from_3_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 3]) -> SVector<T, 1> { SVector::from(a) }
pub fn no_v_from_3_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [T; 3]) -> SVector<T, 2> { SVector::from(a) }
pub fn no_v_from_far(a: [f64; 3]) -> SVector<f64, 7> { SVector::from(a) }
pub fn ok_m_mul_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, J, J>) { let _ = a * b; }
pub fn ok_m_mul_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, J, K>) { let _ = a * b; }
pub fn no_m_mul_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, J>) { let _ = a * b; }
pub fn no_m_mul_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, K>) { let _ = a * b; }
pub fn no_m_mul_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, L>) { let _ = a * b; }
pub fn no_m_mul_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, J>) { let _ = a * b; }
pub fn no_m_mul_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, K>) { let _ = a * b; }
pub fn no_m_mul_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, L>) { let _ = a * b; }
pub fn ok_m_mul_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, J>) { let _ = a * b; }
pub fn ok_m_mul_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, K>) { let _ = a * b; }
pub fn ok_m_mul_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, L>) { let _ = a * b; }
pub fn no_m_mul_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, J>) { let _ = a * b; }
pub fn no_m_mul_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, K>) { let _ = a * b; }
pub fn no_m_mul_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, L>) { let _ = a * b; }
pub fn no_m_mul_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, M>) { let _ = a * b; }
pub fn no_m_mul_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 2, 1>) { let _ = a * b; }
pub fn no_m_mul_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 2, 2>) { let _ = a * b; }
pub fn no_m_mul_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 1, 1>) { let _ = a * b; }
pub fn no_m_mul_1_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 1, 2>) { let _ = a * b; }
pub fn no_m_mul_2_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 2, 1>) { let _ = a * b; }
pub fn no_m_mul_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 2, 2>) { let _ = a * b; }
pub fn no_m_mul_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 1, 1>) { let _ = a * b; }
pub fn no_m_mul_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 1, 2>) { let _ = a * b; }
pub fn no_m_mul_far(a: SMatrix<f64, 3, 7>, b: SMatrix<f64, 11, 15>) { let _ = a * b; }
pub fn ok_m_mul_ref_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, J>) { let _ = a * b; }
pub fn ok_m_mul_ref_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) { let _ = a * b; }
pub fn no_m_mul_ref_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, K, J>) { let _ = a * b; }
pub fn no_m_mul_ref_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, K, K>) { let _ = a * b; }
pub fn no_m_mul_ref_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, K, L>) { let _ = a * b; }
pub fn no_m_mul_ref_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, J, J>) { let _ = a * b; }
pub fn no_m_mul_ref_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, J, K>) { let _ = a * b; }
pub fn no_m_mul_ref_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, J, L>) { let _ = a * b; }
pub fn ok_m_mul_ref_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) { let _ = a * b; }
pub fn ok_m_mul_ref_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) { let _ = a * b; }
pub fn ok_m_mul_ref_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) { let _ = a * b; }
pub fn no_m_mul_ref_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, L, J>) { let _ = a * b; }
pub fn no_m_mul_ref_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, L, K>) { let _ = a * b; }
pub fn no_m_mul_ref_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, L, L>) { let _ = a * b; }
pub fn no_m_mul_ref_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, L, M>) { let _ = a * b; }
pub fn no_m_mul_ref_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 1>) { let _ = a * b; }
pub fn no_m_mul_ref_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 2>) { let _ = a * b; }
pub fn no_m_mul_ref_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 2>, b: &SMatrix<T, 1, 1>) { let _ = a * b; }
pub fn no_m_mul_ref_1_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 2>, b: &SMatrix<T, 1, 2>) { let _ = a * b; }
pub fn no_m_mul_ref_2_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 1>, b: &SMatrix<T, 2, 1>) { let _ = a * b; }
pub fn no_m_mul_ref_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 1>, b: &SMatrix<T, 2, 2>) { let _ = a * b; }
pub fn no_m_mul_ref_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 1>) { let _ = a * b; }
pub fn no_m_mul_ref_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 2>) { let _ = a * b; }
pub fn no_m_mul_ref_far(a: &SMatrix<f64, 3, 7>, b: &SMatrix<f64, 11, 15>) { let _ = a * b; }
pub fn ok_mv_mul_JJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &SMatrix<T, J, J>, b: &SVector<T, J>) { let _ = a * b; }
pub fn no_mv_mul_JJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SVector<T, K>) { let _ = a * b; }
pub fn no_mv_mul_JKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SVector<T, J>) { let _ = a * b; }
pub fn ok_mv_mul_JKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SVector<T, K>) { let _ = a * b; }
pub fn no_mv_mul_JKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SVector<T, L>) { let _ = a * b; }
pub fn no_mv_mul_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 1>, b: &SVector<T, 2>) { let _ = a * b; }
pub fn no_mv_mul_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 2>, b: &SVector<T, 1>) { let _ = a * b; }
pub fn no_mv_mul_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 1>, b: &SVector<T, 2>) { let _ = a * b; }
pub fn no_mv_mul_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 2>, b: &SVector<T, 1>) { let _ = a * b; }
pub fn no_mv_mul_far(a: &SMatrix<f64, 3, 7>, b: &SVector<f64, 11>) { let _ = a * b; }
pub fn ok_m_mul_assign_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, J, J>) { *a *= b; }
pub fn no_m_mul_assign_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, J, K>) { *a *= b; }
pub fn no_m_mul_assign_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, K, J>) { *a *= b; }
pub fn no_m_mul_assign_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, K, K>) { *a *= b; }
pub fn no_m_mul_assign_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, J>, b: SMatrix<T, K, L>) { *a *= b; }
pub fn no_m_mul_assign_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, J, J>) { *a *= b; }
pub fn no_m_mul_assign_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, J, K>) { *a *= b; }
pub fn no_m_mul_assign_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, J, L>) { *a *= b; }
pub fn no_m_mul_assign_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, K, J>) { *a *= b; }
pub fn ok_m_mul_assign_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, K, K>) { *a *= b; }
pub fn no_m_mul_assign_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, K, L>) { *a *= b; }
pub fn no_m_mul_assign_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, J>) { *a *= b; }
pub fn no_m_mul_assign_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, K>) { *a *= b; }
pub fn no_m_mul_assign_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, L>) { *a *= b; }
pub fn no_m_mul_assign_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &mut SMatrix<T, J, K>, b: SMatrix<T, L, M>) { *a *= b; }
pub fn no_m_mul_assign_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: SMatrix<T, 1, 2>) { *a *= b; }
pub fn no_m_mul_assign_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: SMatrix<T, 2, 1>) { *a *= b; }
pub fn no_m_mul_assign_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: SMatrix<T, 2, 2>) { *a *= b; }
pub fn no_m_mul_assign_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: SMatrix<T, 1, 1>) { *a *= b; }
pub fn no_m_mul_assign_1_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: SMatrix<T, 1, 2>) { *a *= b; }
pub fn no_m_mul_assign_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: SMatrix<T, 2, 1>) { *a *= b; }
pub fn no_m_mul_assign_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: SMatrix<T, 1, 2>) { *a *= b; }
pub fn no_m_mul_assign_2_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: SMatrix<T, 2, 1>) { *a *= b; }
pub fn no_m_mul_assign_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: SMatrix<T, 2, 2>) { *a *= b; }
pub fn no_m_mul_assign_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: SMatrix<T, 1, 1>) { *a *= b; }
pub fn no_m_mul_assign_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: SMatrix<T, 1, 2>) { *a *= b; }
pub fn no_m_mul_assign_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: SMatrix<T, 2, 1>) { *a *= b; }
pub fn no_m_mul_assign_far(a: &mut SMatrix<f64, 3, 7>, b: SMatrix<f64, 11, 15>) { *a *= b; }
pub fn ok_m_mul_assign_ref_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, J, J>) { *a *= b; }
pub fn no_m_mul_assign_ref_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, J, K>) { *a *= b; }
pub fn no_m_mul_assign_ref_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, K, J>) { *a *= b; }
pub fn no_m_mul_assign_ref_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, K, K>) { *a *= b; }
pub fn no_m_mul_assign_ref_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, J>, b: &SMatrix<T, K, L>) { *a *= b; }
pub fn no_m_mul_assign_ref_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, J, J>) { *a *= b; }
pub fn no_m_mul_assign_ref_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, J, K>) { *a *= b; }
pub fn no_m_mul_assign_ref_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, J, L>) { *a *= b; }
pub fn no_m_mul_assign_ref_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, K, J>) { *a *= b; }
pub fn ok_m_mul_assign_ref_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, K, K>) { *a *= b; }
pub fn no_m_mul_assign_ref_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, K, L>) { *a *= b; }
pub fn no_m_mul_assign_ref_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, J>) { *a *= b; }
pub fn no_m_mul_assign_ref_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, K>) { *a *= b; }
pub fn no_m_mul_assign_ref_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, L>) { *a *= b; }
pub fn no_m_mul_assign_ref_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &mut SMatrix<T, J, K>, b: &SMatrix<T, L, M>) { *a *= b; }
pub fn no_m_mul_assign_ref_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 2>) { *a *= b; }
pub fn no_m_mul_assign_ref_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 1>) { *a *= b; }
pub fn no_m_mul_assign_ref_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 1>, b: &SMatrix<T, 2, 2>) { *a *= b; }
pub fn no_m_mul_assign_ref_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: &SMatrix<T, 1, 1>) { *a *= b; }
pub fn no_m_mul_assign_ref_1_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: &SMatrix<T, 1, 2>) { *a *= b; }
pub fn no_m_mul_assign_ref_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 1>) { *a *= b; }
pub fn no_m_mul_assign_ref_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 2>) { *a *= b; }
pub fn no_m_mul_assign_ref_2_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: &SMatrix<T, 2, 1>) { *a *= b; }
pub fn no_m_mul_assign_ref_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 1>, b: &SMatrix<T, 2, 2>) { *a *= b; }
pub fn no_m_mul_assign_ref_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 1>) { *a *= b; }
pub fn no_m_mul_assign_ref_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: &SMatrix<T, 1, 2>) { *a *= b; }
pub fn no_m_mul_assign_ref_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &mut SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 1>) { *a *= b; }
pub fn no_m_mul_assign_ref_far(a: &mut SMatrix<f64, 3, 7>, b: &SMatrix<f64, 11, 15>) { *a *= b; }
pub fn ok_mm_shape_JJJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, J>) -> SMatrix<T, J, J> { a * b }
pub fn no_mm_shape_JJJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, J>) -> SMatrix<T, J, K> { a * b }
pub fn no_mm_shape_JJJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, J>) -> SMatrix<T, K, J> { a * b }
pub fn no_mm_shape_JJJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, J>) -> SMatrix<T, K, K> { a * b }
pub fn no_mm_shape_JJJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, J>) -> SMatrix<T, K, L> { a * b }
pub fn no_mm_shape_JJKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) -> SMatrix<T, J, J> { a * b }
pub fn ok_mm_shape_JJKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) -> SMatrix<T, J, K> { a * b }
pub fn no_mm_shape_JJKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) -> SMatrix<T, J, L> { a * b }
pub fn no_mm_shape_JJKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) -> SMatrix<T, K, J> { a * b }
pub fn no_mm_shape_JJKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) -> SMatrix<T, K, K> { a * b }
pub fn no_mm_shape_JJKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) -> SMatrix<T, K, L> { a * b }
pub fn no_mm_shape_JJKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) -> SMatrix<T, L, J> { a * b }
pub fn no_mm_shape_JJKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) -> SMatrix<T, L, K> { a * b }
pub fn no_mm_shape_JJKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) -> SMatrix<T, L, L> { a * b }
pub fn no_mm_shape_JJKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, J>, b: &SMatrix<T, J, K>) -> SMatrix<T, L, M> { a * b }
pub fn ok_mm_shape_JKJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) -> SMatrix<T, J, J> { a * b }
pub fn no_mm_shape_JKJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) -> SMatrix<T, J, K> { a * b }
pub fn no_mm_shape_JKJJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) -> SMatrix<T, J, L> { a * b }
pub fn no_mm_shape_JKJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) -> SMatrix<T, K, J> { a * b }
pub fn no_mm_shape_JKJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) -> SMatrix<T, K, K> { a * b }
pub fn no_mm_shape_JKJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) -> SMatrix<T, K, L> { a * b }
pub fn no_mm_shape_JKJLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) -> SMatrix<T, L, J> { a * b }
pub fn no_mm_shape_JKJLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) -> SMatrix<T, L, K> { a * b }
pub fn no_mm_shape_JKJLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) -> SMatrix<T, L, L> { a * b }
pub fn no_mm_shape_JKJLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, J>) -> SMatrix<T, L, M> { a * b }
pub fn no_mm_shape_JKKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) -> SMatrix<T, J, J> { a * b }
pub fn ok_mm_shape_JKKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) -> SMatrix<T, J, K> { a * b }
pub fn no_mm_shape_JKKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) -> SMatrix<T, J, L> { a * b }
pub fn no_mm_shape_JKKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) -> SMatrix<T, K, J> { a * b }
pub fn no_mm_shape_JKKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) -> SMatrix<T, K, K> { a * b }
pub fn no_mm_shape_JKKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) -> SMatrix<T, K, L> { a * b }
pub fn no_mm_shape_JKKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) -> SMatrix<T, L, J> { a * b }
pub fn no_mm_shape_JKKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) -> SMatrix<T, L, K> { a * b }
pub fn no_mm_shape_JKKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) -> SMatrix<T, L, L> { a * b }
pub fn no_mm_shape_JKKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, K>) -> SMatrix<T, L, M> { a * b }
pub fn no_mm_shape_JKLJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, J, J> { a * b }
pub fn no_mm_shape_JKLJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, J, K> { a * b }
pub fn ok_mm_shape_JKLJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, J, L> { a * b }
pub fn no_mm_shape_JKLJM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, J, M> { a * b }
pub fn no_mm_shape_JKLKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, K, J> { a * b }
pub fn no_mm_shape_JKLKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, K, K> { a * b }
pub fn no_mm_shape_JKLKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, K, L> { a * b }
pub fn no_mm_shape_JKLKM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, K, M> { a * b }
pub fn no_mm_shape_JKLLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, L, J> { a * b }
pub fn no_mm_shape_JKLLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, L, K> { a * b }
pub fn no_mm_shape_JKLLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, L, L> { a * b }
pub fn no_mm_shape_JKLLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, L, M> { a * b }
pub fn no_mm_shape_JKLMJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, M, J> { a * b }
pub fn no_mm_shape_JKLMK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, M, K> { a * b }
pub fn no_mm_shape_JKLML<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, M, L> { a * b }
pub fn no_mm_shape_JKLMM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, M, M> { a * b }
pub fn no_mm_shape_JKLMN<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize, const N: usize>(a: &SMatrix<T, J, K>, b: &SMatrix<T, K, L>) -> SMatrix<T, M, N> { a * b }
pub fn no_mm_shape_1_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 1>) -> SMatrix<T, 1, 2> { a * b }
pub fn no_mm_shape_1_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 1>) -> SMatrix<T, 2, 1> { a * b }
pub fn no_mm_shape_1_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 1>) -> SMatrix<T, 2, 2> { a * b }
pub fn no_mm_shape_1_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 2>) -> SMatrix<T, 1, 1> { a * b }
pub fn no_mm_shape_1_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 2>) -> SMatrix<T, 2, 1> { a * b }
pub fn no_mm_shape_1_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 1>, b: &SMatrix<T, 1, 2>) -> SMatrix<T, 2, 2> { a * b }
pub fn no_mm_shape_1_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 1>) -> SMatrix<T, 1, 2> { a * b }
pub fn no_mm_shape_1_2_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 1>) -> SMatrix<T, 2, 1> { a * b }
pub fn no_mm_shape_1_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 1>) -> SMatrix<T, 2, 2> { a * b }
pub fn no_mm_shape_1_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 2>) -> SMatrix<T, 1, 1> { a * b }
pub fn no_mm_shape_1_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 2>) -> SMatrix<T, 2, 1> { a * b }
pub fn no_mm_shape_1_2_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 2>, b: &SMatrix<T, 2, 2>) -> SMatrix<T, 2, 2> { a * b }
pub fn no_mm_shape_2_1_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 1>) -> SMatrix<T, 1, 1> { a * b }
pub fn no_mm_shape_2_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 1>) -> SMatrix<T, 1, 2> { a * b }
pub fn no_mm_shape_2_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 1>) -> SMatrix<T, 2, 2> { a * b }
pub fn no_mm_shape_2_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 2>) -> SMatrix<T, 1, 1> { a * b }
pub fn no_mm_shape_2_1_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 2>) -> SMatrix<T, 1, 2> { a * b }
pub fn no_mm_shape_2_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 1>, b: &SMatrix<T, 1, 2>) -> SMatrix<T, 2, 1> { a * b }
pub fn no_mm_shape_2_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 1>) -> SMatrix<T, 1, 1> { a * b }
pub fn no_mm_shape_2_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 1>) -> SMatrix<T, 1, 2> { a * b }
pub fn no_mm_shape_2_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 1>) -> SMatrix<T, 2, 2> { a * b }
pub fn no_mm_shape_2_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 2>) -> SMatrix<T, 1, 1> { a * b }
pub fn no_mm_shape_2_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 2>) -> SMatrix<T, 1, 2> { a * b }
pub fn no_mm_shape_2_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 2>, b: &SMatrix<T, 2, 2>) -> SMatrix<T, 2, 1> { a * b }
pub fn no_mm_shape_far(a: &SMatrix<f64, 3, 7>, b: &SMatrix<f64, 7, 11>) -> SMatrix<f64, 15, 19> { a * b }
pub fn ok_mv_shape_JJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: &SMatrix<T, J, J>, b: &SVector<T, J>) -> SVector<T, J> { a * b }
pub fn no_mv_shape_JJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, J>, b: &SVector<T, J>) -> SVector<T, K> { a * b }
pub fn ok_mv_shape_JKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SVector<T, K>) -> SVector<T, J> { a * b }
pub fn no_mv_shape_JKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: &SMatrix<T, J, K>, b: &SVector<T, K>) -> SVector<T, K> { a * b }
pub fn no_mv_shape_JKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: &SMatrix<T, J, K>, b: &SVector<T, K>) -> SVector<T, L> { a * b }
pub fn no_mv_shape_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 1>, b: &SVector<T, 1>) -> SVector<T, 2> { a * b }
pub fn no_mv_shape_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 1, 2>, b: &SVector<T, 2>) -> SVector<T, 2> { a * b }
pub fn no_mv_shape_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 1>, b: &SVector<T, 1>) -> SVector<T, 1> { a * b }
pub fn no_mv_shape_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: &SMatrix<T, 2, 2>, b: &SVector<T, 2>) -> SVector<T, 1> { a * b }
pub fn no_mv_shape_far(a: &SMatrix<f64, 3, 7>, b: &SVector<f64, 7>) -> SVector<f64, 11> { a * b }
pub fn ok_m_from_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: [[T; J]; J]) -> SMatrix<T, J, J> { SMatrix::from(a) }
pub fn no_m_from_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: [[T; J]; J]) -> SMatrix<T, J, K> { SMatrix::from(a) }
pub fn no_m_from_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: [[T; J]; J]) -> SMatrix<T, K, J> { SMatrix::from(a) }
pub fn no_m_from_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: [[T; J]; J]) -> SMatrix<T, K, K> { SMatrix::from(a) }
pub fn no_m_from_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: [[T; J]; J]) -> SMatrix<T, K, L> { SMatrix::from(a) }
pub fn no_m_from_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: [[T; K]; J]) -> SMatrix<T, J, J> { SMatrix::from(a) }
pub fn ok_m_from_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: [[T; K]; J]) -> SMatrix<T, J, K> { SMatrix::from(a) }
pub fn no_m_from_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: [[T; K]; J]) -> SMatrix<T, J, L> { SMatrix::from(a) }
pub fn no_m_from_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: [[T; K]; J]) -> SMatrix<T, K, J> { SMatrix::from(a) }
pub fn no_m_from_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: [[T; K]; J]) -> SMatrix<T, K, K> { SMatrix::from(a) }
pub fn no_m_from_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: [[T; K]; J]) -> SMatrix<T, K, L> { SMatrix::from(a) }
pub fn no_m_from_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: [[T; K]; J]) -> SMatrix<T, L, J> { SMatrix::from(a) }
pub fn no_m_from_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: [[T; K]; J]) -> SMatrix<T, L, K> { SMatrix::from(a) }
pub fn no_m_from_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: [[T; K]; J]) -> SMatrix<T, L, L> { SMatrix::from(a) }
pub fn no_m_from_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: [[T; K]; J]) -> SMatrix<T, L, M> { SMatrix::from(a) }
pub fn no_m_from_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 1]; 1]) -> SMatrix<T, 1, 2> { SMatrix::from(a) }
pub fn no_m_from_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 1]; 1]) -> SMatrix<T, 2, 1> { SMatrix::from(a) }
pub fn no_m_from_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 1]; 1]) -> SMatrix<T, 2, 2> { SMatrix::from(a) }
pub fn no_m_from_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 2]; 1]) -> SMatrix<T, 1, 1> { SMatrix::from(a) }
pub fn no_m_from_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 2]; 1]) -> SMatrix<T, 2, 1> { SMatrix::from(a) }
pub fn no_m_from_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 2]; 1]) -> SMatrix<T, 2, 2> { SMatrix::from(a) }
pub fn no_m_from_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 1]; 2]) -> SMatrix<T, 1, 1> { SMatrix::from(a) }
pub fn no_m_from_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 1]; 2]) -> SMatrix<T, 1, 2> { SMatrix::from(a) }
pub fn no_m_from_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 1]; 2]) -> SMatrix<T, 2, 2> { SMatrix::from(a) }
pub fn no_m_from_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 2]; 2]) -> SMatrix<T, 1, 1> { SMatrix::from(a) }
pub fn no_m_from_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 2]; 2]) -> SMatrix<T, 1, 2> { SMatrix::from(a) }
pub fn no_m_from_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: [[T; 2]; 2]) -> SMatrix<T, 2, 1> { SMatrix::from(a) }
pub fn no_m_from_far(a: [[f64; 7]; 3]) -> SMatrix<f64, 11, 15> { SMatrix::from(a) }
pub fn ok_m_neg_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SMatrix<T, J, J>) -> SMatrix<T, J, J> { -a }
pub fn no_m_neg_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>) -> SMatrix<T, J, K> { -a }
pub fn no_m_neg_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>) -> SMatrix<T, K, J> { -a }
pub fn no_m_neg_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>) -> SMatrix<T, K, K> { -a }
pub fn no_m_neg_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, J>) -> SMatrix<T, K, L> { -a }
pub fn no_m_neg_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, J, J> { -a }
pub fn ok_m_neg_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, J, K> { -a }
pub fn no_m_neg_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, J, L> { -a }
pub fn no_m_neg_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, K, J> { -a }
pub fn no_m_neg_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, K, K> { -a }
pub fn no_m_neg_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, K, L> { -a }
pub fn no_m_neg_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, L, J> { -a }
pub fn no_m_neg_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, L, K> { -a }
pub fn no_m_neg_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, L, L> { -a }
pub fn no_m_neg_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, L, M> { -a }
pub fn no_m_neg_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>) -> SMatrix<T, 1, 2> { -a }
pub fn no_m_neg_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>) -> SMatrix<T, 2, 1> { -a }
pub fn no_m_neg_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>) -> SMatrix<T, 2, 2> { -a }
pub fn no_m_neg_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>) -> SMatrix<T, 1, 1> { -a }
pub fn no_m_neg_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>) -> SMatrix<T, 2, 1> { -a }
pub fn no_m_neg_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>) -> SMatrix<T, 2, 2> { -a }
pub fn no_m_neg_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>) -> SMatrix<T, 1, 1> { -a }
pub fn no_m_neg_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>) -> SMatrix<T, 1, 2> { -a }
pub fn no_m_neg_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>) -> SMatrix<T, 2, 2> { -a }
pub fn no_m_neg_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>) -> SMatrix<T, 1, 1> { -a }
pub fn no_m_neg_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>) -> SMatrix<T, 1, 2> { -a }
pub fn no_m_neg_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>) -> SMatrix<T, 2, 1> { -a }
pub fn no_m_neg_far(a: SMatrix<f64, 3, 7>) -> SMatrix<f64, 11, 15> { -a }
pub fn ok_m_conj_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SMatrix<T, J, J>) -> SMatrix<T, J, J> { a.conj() }
pub fn no_m_conj_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>) -> SMatrix<T, J, K> { a.conj() }
pub fn no_m_conj_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>) -> SMatrix<T, K, J> { a.conj() }
pub fn no_m_conj_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>) -> SMatrix<T, K, K> { a.conj() }
pub fn no_m_conj_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, J>) -> SMatrix<T, K, L> { a.conj() }
pub fn no_m_conj_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, J, J> { a.conj() }
pub fn ok_m_conj_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, J, K> { a.conj() }
pub fn no_m_conj_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, J, L> { a.conj() }
pub fn no_m_conj_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, K, J> { a.conj() }
pub fn no_m_conj_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, K, K> { a.conj() }
pub fn no_m_conj_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, K, L> { a.conj() }
pub fn no_m_conj_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, L, J> { a.conj() }
pub fn no_m_conj_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, L, K> { a.conj() }
pub fn no_m_conj_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, L, L> { a.conj() }
pub fn no_m_conj_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: SMatrix<T, J, K>) -> SMatrix<T, L, M> { a.conj() }
pub fn no_m_conj_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>) -> SMatrix<T, 1, 2> { a.conj() }
pub fn no_m_conj_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>) -> SMatrix<T, 2, 1> { a.conj() }
pub fn no_m_conj_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>) -> SMatrix<T, 2, 2> { a.conj() }
pub fn no_m_conj_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>) -> SMatrix<T, 1, 1> { a.conj() }
pub fn no_m_conj_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>) -> SMatrix<T, 2, 1> { a.conj() }
pub fn no_m_conj_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>) -> SMatrix<T, 2, 2> { a.conj() }
pub fn no_m_conj_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>) -> SMatrix<T, 1, 1> { a.conj() }
pub fn no_m_conj_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>) -> SMatrix<T, 1, 2> { a.conj() }
pub fn no_m_conj_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>) -> SMatrix<T, 2, 2> { a.conj() }
pub fn no_m_conj_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>) -> SMatrix<T, 1, 1> { a.conj() }
pub fn no_m_conj_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>) -> SMatrix<T, 1, 2> { a.conj() }
pub fn no_m_conj_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>) -> SMatrix<T, 2, 1> { a.conj() }
pub fn no_m_conj_far(a: SMatrix<f64, 3, 7>) -> SMatrix<f64, 11, 15> { a.conj() }
pub fn ok_m_eq_JJJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, J, J>) { let _ = a == b; }
pub fn no_m_eq_JJJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, J, K>) { let _ = a == b; }
pub fn no_m_eq_JJKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, J>) { let _ = a == b; }
pub fn no_m_eq_JJKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, K>) { let _ = a == b; }
pub fn no_m_eq_JJKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, J>, b: SMatrix<T, K, L>) { let _ = a == b; }
pub fn no_m_eq_JKJJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, J>) { let _ = a == b; }
pub fn ok_m_eq_JKJK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, K>) { let _ = a == b; }
pub fn no_m_eq_JKJL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, J, L>) { let _ = a == b; }
pub fn no_m_eq_JKKJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, J>) { let _ = a == b; }
pub fn no_m_eq_JKKK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, K>) { let _ = a == b; }
pub fn no_m_eq_JKKL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, K, L>) { let _ = a == b; }
pub fn no_m_eq_JKLJ<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, J>) { let _ = a == b; }
pub fn no_m_eq_JKLK<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, K>) { let _ = a == b; }
pub fn no_m_eq_JKLL<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, L>) { let _ = a == b; }
pub fn no_m_eq_JKLM<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>, const J: usize, const K: usize, const L: usize, const M: usize>(a: SMatrix<T, J, K>, b: SMatrix<T, L, M>) { let _ = a == b; }
pub fn no_m_eq_1_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 1, 2>) { let _ = a == b; }
pub fn no_m_eq_1_1_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 2, 1>) { let _ = a == b; }
pub fn no_m_eq_1_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 1>, b: SMatrix<T, 2, 2>) { let _ = a == b; }
pub fn no_m_eq_1_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 1, 1>) { let _ = a == b; }
pub fn no_m_eq_1_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 2, 1>) { let _ = a == b; }
pub fn no_m_eq_1_2_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 1, 2>, b: SMatrix<T, 2, 2>) { let _ = a == b; }
pub fn no_m_eq_2_1_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 1, 1>) { let _ = a == b; }
pub fn no_m_eq_2_1_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 1, 2>) { let _ = a == b; }
pub fn no_m_eq_2_1_2_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 1>, b: SMatrix<T, 2, 2>) { let _ = a == b; }
pub fn no_m_eq_2_2_1_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 1, 1>) { let _ = a == b; }
pub fn no_m_eq_2_2_1_2<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 1, 2>) { let _ = a == b; }
pub fn no_m_eq_2_2_2_1<T: Field + Conj + for<'b> AddAssign<&'b T> + for<'b> SubAssign<&'b T> + for<'b> MulAssign<&'b T>>(a: SMatrix<T, 2, 2>, b: SMatrix<T, 2, 1>) { let _ = a == b; }
pub fn no_m_eq_far(a: SMatrix<f64, 3, 7>, b: SMatrix<f64, 11, 15>) { let _ = a == b; }
