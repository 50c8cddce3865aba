include!("prelude.rs");
pub fn w_v_add_assign<T: AddAssign<R::Entry> + Clone, R: VectorExpr>(l: &mut DVector<T>, r: R) { *l += r }
pub fn w_v_add_assign_d<T: AddAssign<T> + Clone>(l: &mut DVector<T>, r: &DVector<T>) { *l += r }
pub fn w_v_sub_assign<T: SubAssign<R::Entry> + Clone, R: VectorExpr>(l: &mut DVector<T>, r: R) { *l -= r }
pub fn w_v_sub_assign_d<T: SubAssign<T> + Clone>(l: &mut DVector<T>, r: &DVector<T>) { *l -= r }
pub fn w_m_add_assign<T: AddAssign<R::Entry> + Clone, R: MatrixExpr>(l: &mut DMatrix<T>, r: R) { *l += r }
pub fn w_m_add_assign_d<T: AddAssign<T> + Clone>(l: &mut DMatrix<T>, r: &DMatrix<T>) { *l += r }
pub fn w_m_sub_assign<T: SubAssign<R::Entry> + Clone, R: MatrixExpr>(l: &mut DMatrix<T>, r: R) { *l -= r }
pub fn w_m_sub_assign_d<T: SubAssign<T> + Clone>(l: &mut DMatrix<T>, r: &DMatrix<T>) { *l -= r }
