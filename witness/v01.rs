include!("prelude.rs");
pub fn w_complex_eq<T: PartialEq>(a: &Complex<T>, b: &Complex<T>) -> bool { a == b }
pub fn w_complex_ne<T: PartialEq>(a: &Complex<T>, b: &Complex<T>) -> bool { a != b }
pub fn w_svector_eq<T: PartialEq, const N: usize>(a: &SVector<T, N>, b: &SVector<T, N>) -> bool { a == b }
pub fn w_svector_ne<T: PartialEq, const N: usize>(a: &SVector<T, N>, b: &SVector<T, N>) -> bool { a != b }
pub fn w_smatrix_eq<T: PartialEq, const R: usize, const C: usize>(a: &SMatrix<T, R, C>, b: &SMatrix<T, R, C>) -> bool { a == b }
pub fn w_smatrix_ne<T: PartialEq, const R: usize, const C: usize>(a: &SMatrix<T, R, C>, b: &SMatrix<T, R, C>) -> bool { a != b }
pub fn w_dvector_eq<T: PartialEq>(a: &DVector<T>, b: &DVector<T>) -> bool { a == b }
pub fn w_dvector_ne<T: PartialEq>(a: &DVector<T>, b: &DVector<T>) -> bool { a != b }
pub fn w_dmatrix_eq<T: PartialEq>(a: &DMatrix<T>, b: &DMatrix<T>) -> bool { a == b }
pub fn w_dmatrix_ne<T: PartialEq>(a: &DMatrix<T>, b: &DMatrix<T>) -> bool { a != b }
pub fn w_complex_clone<T: Clone>(a: &Complex<T>) -> Complex<T> { a.clone() }
pub fn w_polynomial_clone<T: Ring>(a: &Polynomial<T>) -> Polynomial<T> { a.clone() }
pub fn w_svector_clone<T: Clone, const N: usize>(a: &SVector<T, N>) -> SVector<T, N> { a.clone() }
pub fn w_smatrix_clone<T: Clone, const R: usize, const C: usize>(a: &SMatrix<T, R, C>) -> SMatrix<T, R, C> { a.clone() }
pub fn w_dvector_clone<T: Clone>(a: &DVector<T>) -> DVector<T> { a.clone() }
pub fn w_dmatrix_clone<T: Clone>(a: &DMatrix<T>) -> DMatrix<T> { a.clone() }
pub fn w_dvector_clone_from<T: Clone>(a: &mut DVector<T>, b: &DVector<T>) { a.clone_from(b) }
pub fn w_dmatrix_clone_from<T: Clone>(a: &mut DMatrix<T>, b: &DMatrix<T>) { a.clone_from(b) }
pub fn w_polynomial_clone_from<T: Ring>(a: &mut Polynomial<T>, b: &Polynomial<T>) { a.clone_from(b) }
