include!("prelude.rs");
// how a dynamic matrix is stored: the roles of its fields and the order of its entries
pub fn w_eval<T: Clone, A: MatrixExpr<Entry = T>>(a: A) -> DMatrix<T> { Om(a).eval() }
pub fn w_array<T: Clone, const R: usize, const C: usize>(a: [[T; C]; R]) -> DMatrix<T> { a.eval() }
pub fn w_rows<T: Clone>(m: DMatrix<T>) -> usize { m.num_rows() }
pub fn w_cols<T: Clone>(m: DMatrix<T>) -> usize { m.num_cols() }
pub fn w_rows_ref<T: Clone>(m: &DMatrix<T>) -> usize { m.num_rows() }
pub fn w_cols_ref<T: Clone>(m: &DMatrix<T>) -> usize { m.num_cols() }
pub fn w_entry<T: Clone>(m: DMatrix<T>, i: usize, j: usize) -> T { m.entry(i, j) }
pub fn w_entry_ref<T: Clone>(m: &DMatrix<T>, i: usize, j: usize) -> T { m.entry(i, j) }
pub fn w_index<T: Clone>(m: &DMatrix<T>, i: usize, j: usize) -> &T { &m[[i, j]] }
pub fn w_index_mut<T: Clone>(m: &mut DMatrix<T>, i: usize, j: usize) -> &mut T { &mut m[[i, j]] }
