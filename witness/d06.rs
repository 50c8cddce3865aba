include!("prelude.rs");

pub fn w_v_eval<E: VectorExpr>(e: E) -> DVector<E::Entry> { Ov(e).eval() }
pub fn w_v_eval_len<E: VectorExpr>(e: E) -> usize where E::Entry: Clone { Ov(e).eval().len() }
pub fn w_v_eval_entry<E: VectorExpr>(e: E, i: usize) -> E::Entry where E::Entry: Clone { Ov(e).eval().entry(i) }
pub fn w_v_wrap_eval_entry<E: VectorExpr>(e: E, i: usize) -> E::Entry where E::Entry: Clone { Ov(e).wrap().eval().entry(i) }
pub fn w_v_fn_eval_entry<T: Clone, F: Fn(usize) -> T>(n: usize, f: F, i: usize) -> T { make_vector_expr(n, f).eval().entry(i) }
pub fn w_v_fn_eval_len<T: Clone, F: Fn(usize) -> T>(n: usize, f: F) -> usize { make_vector_expr(n, f).eval().len() }
pub fn w_dv_eval<T: Clone>(v: DVector<T>) -> DVector<T> { v.eval() }
pub fn w_dvr_eval<T: Clone>(v: &DVector<T>) -> DVector<T> { VectorExpr::eval(v) }
pub fn w_slice_eval<T: Clone>(v: &[T]) -> DVector<T> { v.eval() }
pub fn w_array_slice_eval<T: Clone, const N: usize>(v: [T; N]) -> DVector<T> { v.eval() }
pub fn w_v_sum_eval<T: Clone + Add<Output = T>>(a: &DVector<T>, b: &DVector<T>) -> DVector<T> { (a + b).eval() }
pub fn w_m_eval<E: MatrixExpr>(e: E) -> DMatrix<E::Entry> { Om(e).eval() }
pub fn w_m_eval_rows<E: MatrixExpr>(e: E) -> usize where E::Entry: Clone { Om(e).eval().num_rows() }
pub fn w_m_eval_cols<E: MatrixExpr>(e: E) -> usize where E::Entry: Clone { Om(e).eval().num_cols() }
pub fn w_m_eval_entry<E: MatrixExpr>(e: E, r: usize, c: usize) -> E::Entry where E::Entry: Clone { Om(e).eval().entry(r, c) }
pub fn w_m_eval_index<E: MatrixExpr>(e: E, r: usize, c: usize) -> E::Entry where E::Entry: Clone { Om(e).eval()[[r, c]].clone() }
pub fn w_m_wrap_eval_entry<E: MatrixExpr>(e: E, r: usize, c: usize) -> E::Entry where E::Entry: Clone { Om(e).wrap().eval().entry(r, c) }
pub fn w_m_fn_eval_entry<T: Clone, F: Fn(usize, usize) -> T>(m: usize, n: usize, f: F, r: usize, c: usize) -> T { make_matrix_expr(m, n, f).eval().entry(r, c) }
pub fn w_dm_eval<T: Clone>(m: DMatrix<T>) -> DMatrix<T> { m.eval() }
pub fn w_dmr_eval<T: Clone>(m: &DMatrix<T>) -> DMatrix<T> { MatrixExpr::eval(m) }
pub fn w_array_eval<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R]) -> DMatrix<T> { m.eval() }
pub fn w_array_eval_entry<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R], r: usize, c: usize) -> T { m.eval().entry(r, c) }
pub fn w_m_t_eval_entry<T: Clone>(m: &DMatrix<T>, r: usize, c: usize) -> T { m.t().eval().entry(r, c) }
pub fn w_m_write_read<T: Clone>(m: &DMatrix<T>, r: usize, c: usize, v: T) -> T { let mut a = MatrixExpr::eval(m); a[[r, c]] = v; a.entry(r, c) }
