include!("prelude.rs");
pub fn w_t_w<L: MatrixExpr>(m: MatrixExprWrapper<L>, r: usize, c: usize) -> L::Entry { m.t().entry(r, c) }
pub fn w_t_w_rows<L: MatrixExpr>(m: MatrixExprWrapper<L>) -> usize  { (m.t()).num_rows() }
pub fn w_t_w_cols<L: MatrixExpr>(m: MatrixExprWrapper<L>) -> usize  { (m.t()).num_cols() }
pub fn w_h_w<L: MatrixExpr>(m: MatrixExprWrapper<L>, r: usize, c: usize) -> L::Entry where L::Entry: Conj { m.h().entry(r, c) }
pub fn w_h_w_rows<L: MatrixExpr>(m: MatrixExprWrapper<L>) -> usize where L::Entry: Conj { (m.h()).num_rows() }
pub fn w_h_w_cols<L: MatrixExpr>(m: MatrixExprWrapper<L>) -> usize where L::Entry: Conj { (m.h()).num_cols() }
pub fn w_diag_w<L: MatrixExpr>(m: MatrixExprWrapper<L>, i: usize) -> L::Entry { m.diag().entry(i) }
pub fn w_diag_w_len<L: MatrixExpr>(m: MatrixExprWrapper<L>) -> usize  { (m.diag()).len() }
pub fn w_diag_w_is_empty<L: MatrixExpr>(m: MatrixExprWrapper<L>) -> bool  { (m.diag()).is_empty() }
pub fn w_t_d<T: Clone>(m: &DMatrix<T>, r: usize, c: usize) -> T { m.t().entry(r, c) }
pub fn w_t_d_rows<T: Clone>(m: &DMatrix<T>) -> usize  { (m.t()).num_rows() }
pub fn w_t_d_cols<T: Clone>(m: &DMatrix<T>) -> usize  { (m.t()).num_cols() }
pub fn w_h_d<T: Clone + Conj>(m: &DMatrix<T>, r: usize, c: usize) -> T  { m.h().entry(r, c) }
pub fn w_h_d_rows<T: Clone + Conj>(m: &DMatrix<T>) -> usize  { (m.h()).num_rows() }
pub fn w_h_d_cols<T: Clone + Conj>(m: &DMatrix<T>) -> usize  { (m.h()).num_cols() }
pub fn w_diag_d<T: Clone>(m: &DMatrix<T>, i: usize) -> T { m.diag().entry(i) }
pub fn w_diag_d_len<T: Clone>(m: &DMatrix<T>) -> usize  { (m.diag()).len() }
pub fn w_diag_d_is_empty<T: Clone>(m: &DMatrix<T>) -> bool  { (m.diag()).is_empty() }
pub fn w_vdiag_w<L: VectorExpr>(v: VectorExprWrapper<L>, r: usize, c: usize) -> L::Entry where L::Entry: Zero { v.diag().entry(r, c) }
pub fn w_vdiag_w_rows<L: VectorExpr>(v: VectorExprWrapper<L>) -> usize where L::Entry: Zero { (v.diag()).num_rows() }
pub fn w_vdiag_w_cols<L: VectorExpr>(v: VectorExprWrapper<L>) -> usize where L::Entry: Zero { (v.diag()).num_cols() }
pub fn w_vdiag_d<T: Clone + Zero>(v: &DVector<T>, r: usize, c: usize) -> T  { v.diag().entry(r, c) }
pub fn w_vdiag_d_rows<T: Clone + Zero>(v: &DVector<T>) -> usize  { (v.diag()).num_rows() }
pub fn w_vdiag_d_cols<T: Clone + Zero>(v: &DVector<T>) -> usize  { (v.diag()).num_cols() }
