include!("prelude.rs");
pub fn w_vw_add<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R, i: usize) -> <L::Entry as Add<R::Entry>>::Output where L::Entry: Add<R::Entry> { (lhs + rhs).entry(i) }
pub fn w_vw_add_len<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) -> usize where L::Entry: Add<R::Entry> { (lhs + rhs).len() }
pub fn w_vw_add_is_empty<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) -> bool where L::Entry: Add<R::Entry> { (lhs + rhs).is_empty() }
pub fn w_vd_add<T: Clone + Add<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R, i: usize) -> <T as Add<R::Entry>>::Output  { (lhs + rhs).entry(i) }
pub fn w_vd_add_len<T: Clone + Add<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R) -> usize  { (lhs + rhs).len() }
pub fn w_vd_add_is_empty<T: Clone + Add<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R) -> bool  { (lhs + rhs).is_empty() }
pub fn w_vw_sub<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R, i: usize) -> <L::Entry as Sub<R::Entry>>::Output where L::Entry: Sub<R::Entry> { (lhs - rhs).entry(i) }
pub fn w_vw_sub_len<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) -> usize where L::Entry: Sub<R::Entry> { (lhs - rhs).len() }
pub fn w_vw_sub_is_empty<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) -> bool where L::Entry: Sub<R::Entry> { (lhs - rhs).is_empty() }
pub fn w_vd_sub<T: Clone + Sub<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R, i: usize) -> <T as Sub<R::Entry>>::Output  { (lhs - rhs).entry(i) }
pub fn w_vd_sub_len<T: Clone + Sub<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R) -> usize  { (lhs - rhs).len() }
pub fn w_vd_sub_is_empty<T: Clone + Sub<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R) -> bool  { (lhs - rhs).is_empty() }
pub fn w_vw_mul_elemwise<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R, i: usize) -> <L::Entry as Mul<R::Entry>>::Output where L::Entry: Mul<R::Entry> { (lhs.mul_elemwise(rhs)).entry(i) }
pub fn w_vw_mul_elemwise_len<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) -> usize where L::Entry: Mul<R::Entry> { (lhs.mul_elemwise(rhs)).len() }
pub fn w_vw_mul_elemwise_is_empty<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) -> bool where L::Entry: Mul<R::Entry> { (lhs.mul_elemwise(rhs)).is_empty() }
pub fn w_vd_mul_elemwise<T: Clone + Mul<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R, i: usize) -> <T as Mul<R::Entry>>::Output  { (lhs.mul_elemwise(rhs)).entry(i) }
pub fn w_vd_mul_elemwise_len<T: Clone + Mul<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R) -> usize  { (lhs.mul_elemwise(rhs)).len() }
pub fn w_vd_mul_elemwise_is_empty<T: Clone + Mul<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R) -> bool  { (lhs.mul_elemwise(rhs)).is_empty() }
pub fn w_vw_div_elemwise<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R, i: usize) -> <L::Entry as Div<R::Entry>>::Output where L::Entry: Div<R::Entry> { (lhs.div_elemwise(rhs)).entry(i) }
pub fn w_vw_div_elemwise_len<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) -> usize where L::Entry: Div<R::Entry> { (lhs.div_elemwise(rhs)).len() }
pub fn w_vw_div_elemwise_is_empty<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) -> bool where L::Entry: Div<R::Entry> { (lhs.div_elemwise(rhs)).is_empty() }
pub fn w_vd_div_elemwise<T: Clone + Div<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R, i: usize) -> <T as Div<R::Entry>>::Output  { (lhs.div_elemwise(rhs)).entry(i) }
pub fn w_vd_div_elemwise_len<T: Clone + Div<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R) -> usize  { (lhs.div_elemwise(rhs)).len() }
pub fn w_vd_div_elemwise_is_empty<T: Clone + Div<R::Entry>, R: VectorExpr>(lhs: &DVector<T>, rhs: R) -> bool  { (lhs.div_elemwise(rhs)).is_empty() }
pub fn w_vw_zip<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R, i: usize) -> (L::Entry, R::Entry)  { (lhs.zip(rhs)).entry(i) }
pub fn w_vw_zip_len<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) -> usize  { (lhs.zip(rhs)).len() }
pub fn w_vw_zip_is_empty<L: VectorExpr, R: VectorExpr>(lhs: VectorExprWrapper<L>, rhs: R) -> bool  { (lhs.zip(rhs)).is_empty() }
pub fn w_vmap<L: VectorExpr, U, F: Fn(L::Entry) -> U>(l: VectorExprWrapper<L>, f: F, i: usize) -> U { l.map(f).entry(i) }
pub fn w_vmap_len<L: VectorExpr, U, F: Fn(L::Entry) -> U>(l: VectorExprWrapper<L>, f: F) -> usize  { (l.map(f)).len() }
pub fn w_vmap_is_empty<L: VectorExpr, U, F: Fn(L::Entry) -> U>(l: VectorExprWrapper<L>, f: F) -> bool  { (l.map(f)).is_empty() }
pub fn w_vwrap<L: VectorExpr>(l: L, i: usize) -> L::Entry { l.wrap().entry(i) }
pub fn w_vwrap_len<L: VectorExpr>(l: L) -> usize  { (l.wrap()).len() }
pub fn w_vwrap_is_empty<L: VectorExpr>(l: L) -> bool  { (l.wrap()).is_empty() }
pub fn w_vwrapwrap<L: VectorExpr>(l: VectorExprWrapper<L>, i: usize) -> L::Entry { l.wrap().entry(i) }
pub fn w_vwrapwrap_len<L: VectorExpr>(l: VectorExprWrapper<L>) -> usize  { (l.wrap()).len() }
pub fn w_vwrapwrap_is_empty<L: VectorExpr>(l: VectorExprWrapper<L>) -> bool  { (l.wrap()).is_empty() }
pub fn w_vnest<T: Clone + Add<Output = T> + Sub<Output = T>, L: VectorExpr<Entry = T>>(a: VectorExprWrapper<L>, b: &DVector<T>, d: &DVector<T>, i: usize) -> T { ((a + b) - d).entry(i) }
pub fn w_mw_add<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R, r: usize, c: usize) -> <L::Entry as Add<R::Entry>>::Output where L::Entry: Add<R::Entry> { (lhs + rhs).entry(r, c) }
pub fn w_mw_add_rows<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) -> usize where L::Entry: Add<R::Entry> { (lhs + rhs).num_rows() }
pub fn w_mw_add_cols<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) -> usize where L::Entry: Add<R::Entry> { (lhs + rhs).num_cols() }
pub fn w_md_add<T: Clone + Add<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R, r: usize, c: usize) -> <T as Add<R::Entry>>::Output  { (lhs + rhs).entry(r, c) }
pub fn w_md_add_rows<T: Clone + Add<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R) -> usize  { (lhs + rhs).num_rows() }
pub fn w_md_add_cols<T: Clone + Add<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R) -> usize  { (lhs + rhs).num_cols() }
pub fn w_mw_sub<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R, r: usize, c: usize) -> <L::Entry as Sub<R::Entry>>::Output where L::Entry: Sub<R::Entry> { (lhs - rhs).entry(r, c) }
pub fn w_mw_sub_rows<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) -> usize where L::Entry: Sub<R::Entry> { (lhs - rhs).num_rows() }
pub fn w_mw_sub_cols<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) -> usize where L::Entry: Sub<R::Entry> { (lhs - rhs).num_cols() }
pub fn w_md_sub<T: Clone + Sub<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R, r: usize, c: usize) -> <T as Sub<R::Entry>>::Output  { (lhs - rhs).entry(r, c) }
pub fn w_md_sub_rows<T: Clone + Sub<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R) -> usize  { (lhs - rhs).num_rows() }
pub fn w_md_sub_cols<T: Clone + Sub<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R) -> usize  { (lhs - rhs).num_cols() }
pub fn w_mw_mul_elemwise<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R, r: usize, c: usize) -> <L::Entry as Mul<R::Entry>>::Output where L::Entry: Mul<R::Entry> { (lhs.mul_elemwise(rhs)).entry(r, c) }
pub fn w_mw_mul_elemwise_rows<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) -> usize where L::Entry: Mul<R::Entry> { (lhs.mul_elemwise(rhs)).num_rows() }
pub fn w_mw_mul_elemwise_cols<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) -> usize where L::Entry: Mul<R::Entry> { (lhs.mul_elemwise(rhs)).num_cols() }
pub fn w_md_mul_elemwise<T: Clone + Mul<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R, r: usize, c: usize) -> <T as Mul<R::Entry>>::Output  { (lhs.mul_elemwise(rhs)).entry(r, c) }
pub fn w_md_mul_elemwise_rows<T: Clone + Mul<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R) -> usize  { (lhs.mul_elemwise(rhs)).num_rows() }
pub fn w_md_mul_elemwise_cols<T: Clone + Mul<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R) -> usize  { (lhs.mul_elemwise(rhs)).num_cols() }
pub fn w_mw_div_elemwise<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R, r: usize, c: usize) -> <L::Entry as Div<R::Entry>>::Output where L::Entry: Div<R::Entry> { (lhs.div_elemwise(rhs)).entry(r, c) }
pub fn w_mw_div_elemwise_rows<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) -> usize where L::Entry: Div<R::Entry> { (lhs.div_elemwise(rhs)).num_rows() }
pub fn w_mw_div_elemwise_cols<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) -> usize where L::Entry: Div<R::Entry> { (lhs.div_elemwise(rhs)).num_cols() }
pub fn w_md_div_elemwise<T: Clone + Div<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R, r: usize, c: usize) -> <T as Div<R::Entry>>::Output  { (lhs.div_elemwise(rhs)).entry(r, c) }
pub fn w_md_div_elemwise_rows<T: Clone + Div<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R) -> usize  { (lhs.div_elemwise(rhs)).num_rows() }
pub fn w_md_div_elemwise_cols<T: Clone + Div<R::Entry>, R: MatrixExpr>(lhs: &DMatrix<T>, rhs: R) -> usize  { (lhs.div_elemwise(rhs)).num_cols() }
pub fn w_mw_zip<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R, r: usize, c: usize) -> (L::Entry, R::Entry)  { (lhs.zip(rhs)).entry(r, c) }
pub fn w_mw_zip_rows<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) -> usize  { (lhs.zip(rhs)).num_rows() }
pub fn w_mw_zip_cols<L: MatrixExpr, R: MatrixExpr>(lhs: MatrixExprWrapper<L>, rhs: R) -> usize  { (lhs.zip(rhs)).num_cols() }
pub fn w_mmap<L: MatrixExpr, U, F: Fn(L::Entry) -> U>(l: MatrixExprWrapper<L>, f: F, r: usize, c: usize) -> U { l.map(f).entry(r, c) }
pub fn w_mmap_rows<L: MatrixExpr, U, F: Fn(L::Entry) -> U>(l: MatrixExprWrapper<L>, f: F) -> usize  { (l.map(f)).num_rows() }
pub fn w_mmap_cols<L: MatrixExpr, U, F: Fn(L::Entry) -> U>(l: MatrixExprWrapper<L>, f: F) -> usize  { (l.map(f)).num_cols() }
pub fn w_mwrap<L: MatrixExpr>(l: L, r: usize, c: usize) -> L::Entry { l.wrap().entry(r, c) }
pub fn w_mwrap_rows<L: MatrixExpr>(l: L) -> usize  { (l.wrap()).num_rows() }
pub fn w_mwrap_cols<L: MatrixExpr>(l: L) -> usize  { (l.wrap()).num_cols() }
pub fn w_mwrapwrap<L: MatrixExpr>(l: MatrixExprWrapper<L>, r: usize, c: usize) -> L::Entry { l.wrap().entry(r, c) }
pub fn w_mwrapwrap_rows<L: MatrixExpr>(l: MatrixExprWrapper<L>) -> usize  { (l.wrap()).num_rows() }
pub fn w_mwrapwrap_cols<L: MatrixExpr>(l: MatrixExprWrapper<L>) -> usize  { (l.wrap()).num_cols() }
pub fn w_mnest<T: Clone + Add<Output = T> + Sub<Output = T>, L: MatrixExpr<Entry = T>>(a: MatrixExprWrapper<L>, b: &DMatrix<T>, d: &DMatrix<T>, r: usize, c: usize) -> T { ((a + b) - d).entry(r, c) }
pub fn w_vconj<L: VectorExpr>(l: VectorExprWrapper<L>, i: usize) -> L::Entry where L::Entry: Conj { l.conj().entry(i) }
pub fn w_vconj_len<L: VectorExpr>(l: VectorExprWrapper<L>) -> usize where L::Entry: Conj { (l.conj()).len() }
pub fn w_vconj_is_empty<L: VectorExpr>(l: VectorExprWrapper<L>) -> bool where L::Entry: Conj { (l.conj()).is_empty() }
pub fn w_vdconj<T: Clone + Conj>(l: &DVector<T>, i: usize) -> T { l.conj().entry(i) }
pub fn w_vdconj_len<T: Clone + Conj>(l: &DVector<T>) -> usize  { (l.conj()).len() }
pub fn w_vdconj_is_empty<T: Clone + Conj>(l: &DVector<T>) -> bool  { (l.conj()).is_empty() }

pub fn w_dv_entry<T: Clone>(v: DVector<T>, i: usize) -> T { v.entry(i) }
pub fn w_dv_len<T: Clone>(v: DVector<T>) -> usize { v.len() }
pub fn w_dvr_entry<T: Clone>(v: &DVector<T>, i: usize) -> T { VectorExpr::entry(&v, i) }
pub fn w_dvr_len<T: Clone>(v: &DVector<T>) -> usize { VectorExpr::len(&v) }
pub fn w_sl_entry<T: Clone>(v: &[T], i: usize) -> T { VectorExpr::entry(&v, i) }
pub fn w_sl_len<T: Clone>(v: &[T]) -> usize { VectorExpr::len(&v) }
pub fn w_dm_entry<T: Clone>(m: DMatrix<T>, r: usize, c: usize) -> T { m.entry(r, c) }
pub fn w_dm_rows<T: Clone>(m: DMatrix<T>) -> usize { m.num_rows() }
pub fn w_dm_cols<T: Clone>(m: DMatrix<T>) -> usize { m.num_cols() }
pub fn w_dmr_entry<T: Clone>(m: &DMatrix<T>, r: usize, c: usize) -> T { MatrixExpr::entry(&m, r, c) }
pub fn w_dmr_rows<T: Clone>(m: &DMatrix<T>) -> usize { MatrixExpr::num_rows(&m) }
pub fn w_dmr_cols<T: Clone>(m: &DMatrix<T>) -> usize { MatrixExpr::num_cols(&m) }
pub fn w_arr_entry<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R], r: usize, c: usize) -> T { m.entry(r, c) }
pub fn w_arr_rows<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R]) -> usize { m.num_rows() }
pub fn w_arr_cols<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R]) -> usize { m.num_cols() }
