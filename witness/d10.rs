include!("prelude.rs");

pub fn w_v_index_mut<T>(v: &mut DVector<T>, i: usize, x: T) { v[i] = x }
pub fn w_m_index_mut<T>(m: &mut DMatrix<T>, r: usize, c: usize, x: T) { m[[r, c]] = x }
pub fn w_v_add_assign<T: AddAssign<R::Entry> + Clone, R: VectorExpr>(l: &mut DVector<T>, r: R) { *l += r }
pub fn w_v_sub_assign<T: SubAssign<R::Entry> + Clone, R: VectorExpr>(l: &mut DVector<T>, r: R) { *l -= r }
pub fn w_m_add_assign<T: AddAssign<R::Entry> + Clone, R: MatrixExpr>(l: &mut DMatrix<T>, r: R) { *l += r }
pub fn w_m_sub_assign<T: SubAssign<R::Entry> + Clone, R: MatrixExpr>(l: &mut DMatrix<T>, r: R) { *l -= r }
pub fn w_m_eval<E: MatrixExpr>(e: E) -> DMatrix<E::Entry> { Om(e).eval() }
pub fn w_dm_eval<T: Clone>(m: DMatrix<T>) -> DMatrix<T> { m.eval() }
pub fn w_dmr_eval<T: Clone>(m: &DMatrix<T>) -> DMatrix<T> { MatrixExpr::eval(m) }
pub fn w_dm_clone<T: Clone>(m: &DMatrix<T>) -> DMatrix<T> { m.clone() }
pub fn w_dv_clone<T: Clone>(m: &DVector<T>) -> DVector<T> { m.clone() }
pub fn w_array_eval<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R]) -> DMatrix<T> { m.eval() }
