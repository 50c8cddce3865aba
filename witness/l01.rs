include!("prelude.rs");
pub fn w_v_sum<T: Add<Output = T> + Clone, A: VectorExpr<Entry = T>, B: VectorExpr<Entry = T>>(a: A, b: B) -> DVector<T> { (Ov(a).wrap() + Ov(b)).eval() }
pub fn w_v_difference<T: Sub<Output = T> + Clone, A: VectorExpr<Entry = T>, B: VectorExpr<Entry = T>>(a: A, b: B) -> DVector<T> { (Ov(a).wrap() - Ov(b)).eval() }
pub fn w_v_product<T: Mul<Output = T> + Clone, A: VectorExpr<Entry = T>, B: VectorExpr<Entry = T>>(a: A, b: B) -> DVector<T> { Ov(a).wrap().mul_elemwise(Ov(b)).eval() }
pub fn w_v_quotient<T: Div<Output = T> + Clone, A: VectorExpr<Entry = T>, B: VectorExpr<Entry = T>>(a: A, b: B) -> DVector<T> { Ov(a).wrap().div_elemwise(Ov(b)).eval() }
pub fn w_v_zip<S: Clone, T: Clone, A: VectorExpr<Entry = S>, B: VectorExpr<Entry = T>>(a: A, b: B) -> DVector<(S, T)> { Ov(a).wrap().zip(Ov(b)).eval() }
pub fn w_v_map<S, T: Clone, A: VectorExpr<Entry = S>, F: Fn(S) -> T>(a: A, f: F) -> DVector<T> { Ov(a).wrap().map(f).eval() }
pub fn w_v_conj<T: Conj + Clone, A: VectorExpr<Entry = T>>(a: A) -> DVector<T> { Ov(a).wrap().conj().eval() }
pub fn w_v_fn<T: Clone, F: Fn(usize) -> T>(n: usize, f: F) -> DVector<T> { make_vector_expr(n, f).eval() }
pub fn w_v_diag<T: Clone + Zero, A: VectorExpr<Entry = T>>(a: A) -> DMatrix<T> { Ov(a).wrap().diag().eval() }
pub fn w_m_sum<T: Add<Output = T> + Clone, A: MatrixExpr<Entry = T>, B: MatrixExpr<Entry = T>>(a: A, b: B) -> DMatrix<T> { (Om(a).wrap() + Om(b)).eval() }
pub fn w_m_difference<T: Sub<Output = T> + Clone, A: MatrixExpr<Entry = T>, B: MatrixExpr<Entry = T>>(a: A, b: B) -> DMatrix<T> { (Om(a).wrap() - Om(b)).eval() }
pub fn w_m_product<T: Mul<Output = T> + Clone, A: MatrixExpr<Entry = T>, B: MatrixExpr<Entry = T>>(a: A, b: B) -> DMatrix<T> { Om(a).wrap().mul_elemwise(Om(b)).eval() }
pub fn w_m_quotient<T: Div<Output = T> + Clone, A: MatrixExpr<Entry = T>, B: MatrixExpr<Entry = T>>(a: A, b: B) -> DMatrix<T> { Om(a).wrap().div_elemwise(Om(b)).eval() }
pub fn w_m_zip<S: Clone, T: Clone, A: MatrixExpr<Entry = S>, B: MatrixExpr<Entry = T>>(a: A, b: B) -> DMatrix<(S, T)> { Om(a).wrap().zip(Om(b)).eval() }
pub fn w_m_map<S, T: Clone, A: MatrixExpr<Entry = S>, F: Fn(S) -> T>(a: A, f: F) -> DMatrix<T> { Om(a).wrap().map(f).eval() }
pub fn w_m_fn<T: Clone, F: Fn(usize, usize) -> T>(m: usize, n: usize, f: F) -> DMatrix<T> { make_matrix_expr(m, n, f).eval() }
pub fn w_m_t<T: Clone, A: MatrixExpr<Entry = T>>(a: A) -> DMatrix<T> { Om(a).wrap().t().eval() }
pub fn w_m_h<T: Clone + Conj, A: MatrixExpr<Entry = T>>(a: A) -> DMatrix<T> { Om(a).wrap().h().eval() }
pub fn w_m_diag<T: Clone, A: MatrixExpr<Entry = T>>(a: A) -> DVector<T> { Om(a).wrap().diag().eval() }
pub fn w_v_add_assign<T: AddAssign<U> + Clone, U, R: VectorExpr<Entry = U>>(l: &mut DVector<T>, r: R) { *l += Ov(r) }
pub fn w_v_sub_assign<T: SubAssign<U> + Clone, U, R: VectorExpr<Entry = U>>(l: &mut DVector<T>, r: R) { *l -= Ov(r) }
pub fn w_m_add_assign<T: AddAssign<U> + Clone, U, R: MatrixExpr<Entry = U>>(l: &mut DMatrix<T>, r: R) { *l += Om(r) }
pub fn w_m_sub_assign<T: SubAssign<U> + Clone, U, R: MatrixExpr<Entry = U>>(l: &mut DMatrix<T>, r: R) { *l -= Om(r) }
pub fn w_v_nest<T: Add<Output = T> + Sub<Output = T> + Clone, A: VectorExpr<Entry = T>, B: VectorExpr<Entry = T>, F: Fn(T) -> T, G: Fn(usize) -> T>(n: usize, a: A, b: B, f: F, g: G) -> DVector<T> { ((Ov(a).wrap() + Ov(b)).map(f) - make_vector_expr(n, g)).eval() }
pub fn w_m_nest<T: Add<Output = T> + Mul<Output = T> + Clone, A: MatrixExpr<Entry = T>, B: MatrixExpr<Entry = T>, F: Fn(T) -> T, G: Fn(usize, usize) -> T>(m: usize, n: usize, a: A, b: B, f: F, g: G) -> DMatrix<T> { ((Om(a).wrap() + Om(b)).t().map(f).mul_elemwise(make_matrix_expr(m, n, g))).eval() }
