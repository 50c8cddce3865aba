include!("prelude.rs");
pub fn w_vzeros<T: Zero>(n: usize, i: usize) -> T { DVector::<T>::zeros(n).entry(i) }
pub fn w_vzeros_len<T: Zero>(n: usize) -> usize { DVector::<T>::zeros(n).len() }
pub fn w_mzeros<T: Zero>(m: usize, n: usize, r: usize, c: usize) -> T { DMatrix::<T>::zeros(m, n).entry(r, c) }
pub fn w_mzeros_rows<T: Zero>(m: usize, n: usize) -> usize { DMatrix::<T>::zeros(m, n).num_rows() }
pub fn w_mzeros_cols<T: Zero>(m: usize, n: usize) -> usize { DMatrix::<T>::zeros(m, n).num_cols() }
pub fn w_vones<T: One>(n: usize, i: usize) -> T { DVector::<T>::ones(n).entry(i) }
pub fn w_vones_len<T: One>(n: usize) -> usize { DVector::<T>::ones(n).len() }
pub fn w_mones<T: One>(m: usize, n: usize, r: usize, c: usize) -> T { DMatrix::<T>::ones(m, n).entry(r, c) }
pub fn w_mones_rows<T: One>(m: usize, n: usize) -> usize { DMatrix::<T>::ones(m, n).num_rows() }
pub fn w_mones_cols<T: One>(m: usize, n: usize) -> usize { DMatrix::<T>::ones(m, n).num_cols() }

pub fn w_vsame<T: Clone>(n: usize, v: T, i: usize) -> T { DVector::same(n, v).entry(i) }
pub fn w_vsame_len<T: Clone>(n: usize, v: T) -> usize { DVector::same(n, v).len() }
pub fn w_msame<T: Clone>(m: usize, n: usize, v: T, r: usize, c: usize) -> T { DMatrix::same(m, n, v).entry(r, c) }
pub fn w_msame_rows<T: Clone>(m: usize, n: usize, v: T) -> usize { DMatrix::same(m, n, v).num_rows() }
pub fn w_msame_cols<T: Clone>(m: usize, n: usize, v: T) -> usize { DMatrix::same(m, n, v).num_cols() }
pub fn w_eye<T: Zero + One>(n: usize, r: usize, c: usize) -> T { DMatrix::<T>::eye(n).entry(r, c) }
pub fn w_eye_rows<T: Zero + One>(n: usize) -> usize { DMatrix::<T>::eye(n).num_rows() }
pub fn w_eye_cols<T: Zero + One>(n: usize) -> usize { DMatrix::<T>::eye(n).num_cols() }
pub fn w_vfn<T, F: Fn(usize) -> T>(n: usize, f: F, i: usize) -> T { make_vector_expr(n, f).entry(i) }
pub fn w_vfn_len<T, F: Fn(usize) -> T>(n: usize, f: F) -> usize { make_vector_expr(n, f).len() }
pub fn w_mfn<T, F: Fn(usize, usize) -> T>(m: usize, n: usize, f: F, r: usize, c: usize) -> T { make_matrix_expr(m, n, f).entry(r, c) }
pub fn w_mfn_rows<T, F: Fn(usize, usize) -> T>(m: usize, n: usize, f: F) -> usize { make_matrix_expr(m, n, f).num_rows() }
pub fn w_mfn_cols<T, F: Fn(usize, usize) -> T>(m: usize, n: usize, f: F) -> usize { make_matrix_expr(m, n, f).num_cols() }
pub fn w_vzeros_eval<T: Zero>(n: usize) -> DVector<T> { DVector::<T>::zeros(n).eval() }
pub fn w_eye_eval<T: Zero + One>(n: usize) -> DMatrix<T> { DMatrix::<T>::eye(n).eval() }
