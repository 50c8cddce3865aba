include!("prelude.rs");
pub fn w_vw_add<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) where L::Entry: Add<R::Entry> { let _e = lhs + rhs; }
pub fn w_vw_add_entry<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R, i: usize) -> <L::Entry as Add<R::Entry>>::Output where L::Entry: Add<R::Entry> { (lhs + rhs).entry(i) }
pub fn w_vd_add<T: Clone + Add<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R)  { let _e = lhs + rhs; }
pub fn w_vd_add_entry<T: Clone + Add<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R, i: usize) -> <T as Add<R::Entry>>::Output  { (lhs + rhs).entry(i) }
pub fn w_vw_sub<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) where L::Entry: Sub<R::Entry> { let _e = lhs - rhs; }
pub fn w_vw_sub_entry<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R, i: usize) -> <L::Entry as Sub<R::Entry>>::Output where L::Entry: Sub<R::Entry> { (lhs - rhs).entry(i) }
pub fn w_vd_sub<T: Clone + Sub<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R)  { let _e = lhs - rhs; }
pub fn w_vd_sub_entry<T: Clone + Sub<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R, i: usize) -> <T as Sub<R::Entry>>::Output  { (lhs - rhs).entry(i) }
pub fn w_vw_mul_elemwise<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) where L::Entry: Mul<R::Entry> { let _e = lhs.mul_elemwise(rhs); }
pub fn w_vw_mul_elemwise_entry<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R, i: usize) -> <L::Entry as Mul<R::Entry>>::Output where L::Entry: Mul<R::Entry> { (lhs.mul_elemwise(rhs)).entry(i) }
pub fn w_vd_mul_elemwise<T: Clone + Mul<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R)  { let _e = lhs.mul_elemwise(rhs); }
pub fn w_vd_mul_elemwise_entry<T: Clone + Mul<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R, i: usize) -> <T as Mul<R::Entry>>::Output  { (lhs.mul_elemwise(rhs)).entry(i) }
pub fn w_vw_div_elemwise<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) where L::Entry: Div<R::Entry> { let _e = lhs.div_elemwise(rhs); }
pub fn w_vw_div_elemwise_entry<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R, i: usize) -> <L::Entry as Div<R::Entry>>::Output where L::Entry: Div<R::Entry> { (lhs.div_elemwise(rhs)).entry(i) }
pub fn w_vd_div_elemwise<T: Clone + Div<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R)  { let _e = lhs.div_elemwise(rhs); }
pub fn w_vd_div_elemwise_entry<T: Clone + Div<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R, i: usize) -> <T as Div<R::Entry>>::Output  { (lhs.div_elemwise(rhs)).entry(i) }
pub fn w_vw_zip<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R)  { let _e = lhs.zip(rhs); }
pub fn w_vw_zip_entry<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R, i: usize) -> (L::Entry, R::Entry)  { (lhs.zip(rhs)).entry(i) }
pub fn w_v_add_assign<T: AddAssign<R::Entry> + Clone, R: VectorExpr>(l: &mut DVector<T>, r: R) { *l += r }
pub fn w_v_sub_assign<T: SubAssign<R::Entry> + Clone, R: VectorExpr>(l: &mut DVector<T>, r: R) { *l -= r }
pub fn w_mw_add<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) where L::Entry: Add<R::Entry> { let _e = lhs + rhs; }
pub fn w_mw_add_entry<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R, r: usize, c: usize) -> <L::Entry as Add<R::Entry>>::Output where L::Entry: Add<R::Entry> { (lhs + rhs).entry(r, c) }
pub fn w_md_add<T: Clone + Add<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R)  { let _e = lhs + rhs; }
pub fn w_md_add_entry<T: Clone + Add<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R, r: usize, c: usize) -> <T as Add<R::Entry>>::Output  { (lhs + rhs).entry(r, c) }
pub fn w_mw_sub<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) where L::Entry: Sub<R::Entry> { let _e = lhs - rhs; }
pub fn w_mw_sub_entry<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R, r: usize, c: usize) -> <L::Entry as Sub<R::Entry>>::Output where L::Entry: Sub<R::Entry> { (lhs - rhs).entry(r, c) }
pub fn w_md_sub<T: Clone + Sub<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R)  { let _e = lhs - rhs; }
pub fn w_md_sub_entry<T: Clone + Sub<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R, r: usize, c: usize) -> <T as Sub<R::Entry>>::Output  { (lhs - rhs).entry(r, c) }
pub fn w_mw_mul_elemwise<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) where L::Entry: Mul<R::Entry> { let _e = lhs.mul_elemwise(rhs); }
pub fn w_mw_mul_elemwise_entry<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R, r: usize, c: usize) -> <L::Entry as Mul<R::Entry>>::Output where L::Entry: Mul<R::Entry> { (lhs.mul_elemwise(rhs)).entry(r, c) }
pub fn w_md_mul_elemwise<T: Clone + Mul<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R)  { let _e = lhs.mul_elemwise(rhs); }
pub fn w_md_mul_elemwise_entry<T: Clone + Mul<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R, r: usize, c: usize) -> <T as Mul<R::Entry>>::Output  { (lhs.mul_elemwise(rhs)).entry(r, c) }
pub fn w_mw_div_elemwise<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) where L::Entry: Div<R::Entry> { let _e = lhs.div_elemwise(rhs); }
pub fn w_mw_div_elemwise_entry<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R, r: usize, c: usize) -> <L::Entry as Div<R::Entry>>::Output where L::Entry: Div<R::Entry> { (lhs.div_elemwise(rhs)).entry(r, c) }
pub fn w_md_div_elemwise<T: Clone + Div<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R)  { let _e = lhs.div_elemwise(rhs); }
pub fn w_md_div_elemwise_entry<T: Clone + Div<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R, r: usize, c: usize) -> <T as Div<R::Entry>>::Output  { (lhs.div_elemwise(rhs)).entry(r, c) }
pub fn w_mw_zip<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R)  { let _e = lhs.zip(rhs); }
pub fn w_mw_zip_entry<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R, r: usize, c: usize) -> (L::Entry, R::Entry)  { (lhs.zip(rhs)).entry(r, c) }
pub fn w_m_add_assign<T: AddAssign<R::Entry> + Clone, R: MatrixExpr>(l: &mut DMatrix<T>, r: R) { *l += r }
pub fn w_m_sub_assign<T: SubAssign<R::Entry> + Clone, R: MatrixExpr>(l: &mut DMatrix<T>, r: R) { *l -= r }
pub fn w_dot<T: Add<Output = T> + Clone + Conj + Mul<Output = T> + Zero>(l: DVector<T>, r: DVector<T>) -> T { l * r }
pub fn w_dot_ref<T: Add<Output = T> + Clone + Conj + Mul<Output = T> + Zero>(l: &DVector<T>, r: &DVector<T>) -> T { l * r }
pub fn w_matmul<T: Mul<T> + Clone>(l: &DMatrix<T>, r: &DMatrix<T>) where <T as Mul<T>>::Output: AddAssign { let _e = l * r; }
pub fn w_matmul_entry<T: Mul<T> + Clone>(l: &DMatrix<T>, r: &DMatrix<T>, i: usize, j: usize) -> <T as Mul<T>>::Output where <T as Mul<T>>::Output: AddAssign { (l * r).entry(i, j) }
