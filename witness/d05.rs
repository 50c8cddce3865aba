include!("prelude.rs");
pub fn w_matmul_entry<T: Clone + Mul<Output = T> + AddAssign>(l: &DMatrix<T>, r: &DMatrix<T>, i: usize, j: usize) -> T { (l * r).entry(i, j) }
pub fn w_matmul_rows<T: Clone + Mul<Output = T> + AddAssign>(l: &DMatrix<T>, r: &DMatrix<T>) -> usize { (l * r).num_rows() }
pub fn w_matmul_cols<T: Clone + Mul<Output = T> + AddAssign>(l: &DMatrix<T>, r: &DMatrix<T>) -> usize { (l * r).num_cols() }
pub fn w_matmul_eval<T: Clone + Mul<Output = T> + AddAssign>(l: &DMatrix<T>, r: &DMatrix<T>) -> DMatrix<T> { (l * r).eval() }
