include!("prelude.rs");
pub trait Number: Field + Conj + Clone + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + AddAssign + SubAssign {}
pub fn need_copy<X: Copy>() {}
pub fn need_clone<X: Clone>() {}
pub fn need_send<X: Send>() {}
pub fn need_sync<X: Sync>() {}
pub fn need_static<X: 'static>() {}
pub fn need_eq<X: Eq>() {}
pub fn need_partialeq<X: PartialEq>() {}
pub fn need_debug<X: std::fmt::Debug>() {}
pub fn val_send<X: Send>(_: X) {}
pub fn val_sync<X: Sync>(_: X) {}
pub fn need_unwind<X: std::panic::UnwindSafe>() {}
pub fn ok_complex_send<T: Send>() { need_send::<Complex<T>>() }
pub fn ok_complex_sync<T: Sync>() { need_sync::<Complex<T>>() }
pub fn ok_complex_clone<T: Clone>() { need_clone::<Complex<T>>() }
pub fn ok_complex_partialeq<T: PartialEq>() { need_partialeq::<Complex<T>>() }
pub fn ok_complex_eq<T: Eq>() { need_eq::<Complex<T>>() }
pub fn ok_complex_debug<T: std::fmt::Debug>() { need_debug::<Complex<T>>() }
pub fn ok_complex_static<T: 'static>() { need_static::<Complex<T>>() }
pub fn ok_complex_unwind<T: std::panic::UnwindSafe>() { need_unwind::<Complex<T>>() }
pub fn ok_complex_copy<T: Copy>() { need_copy::<Complex<T>>() }
pub fn no_complex_send_of_rc() { need_send::<Complex<std::rc::Rc<i32>>>() }
pub fn no_complex_sync_of_cell() { need_sync::<Complex<std::cell::Cell<i32>>>() }
pub fn no_complex_copy_of_string() { need_copy::<Complex<String>>() }
pub fn no_complex_eq_of_f64() { need_eq::<Complex<f64>>() }
pub fn ok_svector_send<T: Send, const N: usize>() { need_send::<SVector<T, N>>() }
pub fn ok_svector_sync<T: Sync, const N: usize>() { need_sync::<SVector<T, N>>() }
pub fn ok_svector_clone<T: Clone, const N: usize>() { need_clone::<SVector<T, N>>() }
pub fn ok_svector_partialeq<T: PartialEq, const N: usize>() { need_partialeq::<SVector<T, N>>() }
pub fn ok_svector_eq<T: Eq, const N: usize>() { need_eq::<SVector<T, N>>() }
pub fn ok_svector_debug<T: std::fmt::Debug, const N: usize>() { need_debug::<SVector<T, N>>() }
pub fn ok_svector_static<T: 'static, const N: usize>() { need_static::<SVector<T, N>>() }
pub fn ok_svector_unwind<T: std::panic::UnwindSafe, const N: usize>() { need_unwind::<SVector<T, N>>() }
pub fn ok_svector_copy<T: Copy, const N: usize>() { need_copy::<SVector<T, N>>() }
pub fn no_svector_send_of_rc<const N: usize>() { need_send::<SVector<std::rc::Rc<i32>, N>>() }
pub fn no_svector_sync_of_cell<const N: usize>() { need_sync::<SVector<std::cell::Cell<i32>, N>>() }
pub fn no_svector_copy_of_string<const N: usize>() { need_copy::<SVector<String, N>>() }
pub fn no_svector_eq_of_f64<const N: usize>() { need_eq::<SVector<f64, N>>() }
pub fn ok_smatrix_send<T: Send, const R: usize, const C: usize>() { need_send::<SMatrix<T, R, C>>() }
pub fn ok_smatrix_sync<T: Sync, const R: usize, const C: usize>() { need_sync::<SMatrix<T, R, C>>() }
pub fn ok_smatrix_clone<T: Clone, const R: usize, const C: usize>() { need_clone::<SMatrix<T, R, C>>() }
pub fn ok_smatrix_partialeq<T: PartialEq, const R: usize, const C: usize>() { need_partialeq::<SMatrix<T, R, C>>() }
pub fn ok_smatrix_eq<T: Eq, const R: usize, const C: usize>() { need_eq::<SMatrix<T, R, C>>() }
pub fn ok_smatrix_debug<T: std::fmt::Debug, const R: usize, const C: usize>() { need_debug::<SMatrix<T, R, C>>() }
pub fn ok_smatrix_static<T: 'static, const R: usize, const C: usize>() { need_static::<SMatrix<T, R, C>>() }
pub fn ok_smatrix_unwind<T: std::panic::UnwindSafe, const R: usize, const C: usize>() { need_unwind::<SMatrix<T, R, C>>() }
pub fn ok_smatrix_copy<T: Copy, const R: usize, const C: usize>() { need_copy::<SMatrix<T, R, C>>() }
pub fn no_smatrix_send_of_rc<const R: usize, const C: usize>() { need_send::<SMatrix<std::rc::Rc<i32>, R, C>>() }
pub fn no_smatrix_sync_of_cell<const R: usize, const C: usize>() { need_sync::<SMatrix<std::cell::Cell<i32>, R, C>>() }
pub fn no_smatrix_copy_of_string<const R: usize, const C: usize>() { need_copy::<SMatrix<String, R, C>>() }
pub fn no_smatrix_eq_of_f64<const R: usize, const C: usize>() { need_eq::<SMatrix<f64, R, C>>() }
pub fn ok_polynomial_send<T: Send + Ring>() { need_send::<Polynomial<T>>() }
pub fn ok_polynomial_sync<T: Sync + Ring>() { need_sync::<Polynomial<T>>() }
pub fn ok_polynomial_clone<T: Clone + Ring>() { need_clone::<Polynomial<T>>() }
pub fn ok_polynomial_partialeq<T: PartialEq + Ring>() { need_partialeq::<Polynomial<T>>() }
pub fn ok_polynomial_eq<T: Eq + Ring>() { need_eq::<Polynomial<T>>() }
pub fn ok_polynomial_debug<T: std::fmt::Debug + Ring>() { need_debug::<Polynomial<T>>() }
pub fn ok_polynomial_static<T: 'static + Ring>() { need_static::<Polynomial<T>>() }
pub fn ok_polynomial_unwind<T: std::panic::UnwindSafe + Ring>() { need_unwind::<Polynomial<T>>() }
pub fn ok_dvector_send<T: Send>() { need_send::<DVector<T>>() }
pub fn ok_dvector_sync<T: Sync>() { need_sync::<DVector<T>>() }
pub fn ok_dvector_clone<T: Clone>() { need_clone::<DVector<T>>() }
pub fn ok_dvector_partialeq<T: PartialEq>() { need_partialeq::<DVector<T>>() }
pub fn ok_dvector_eq<T: Eq>() { need_eq::<DVector<T>>() }
pub fn ok_dvector_debug<T: std::fmt::Debug>() { need_debug::<DVector<T>>() }
pub fn ok_dvector_static<T: 'static>() { need_static::<DVector<T>>() }
pub fn ok_dvector_unwind<T: std::panic::UnwindSafe>() { need_unwind::<DVector<T>>() }
pub fn no_dvector_send_of_rc() { need_send::<DVector<std::rc::Rc<i32>>>() }
pub fn no_dvector_sync_of_cell() { need_sync::<DVector<std::cell::Cell<i32>>>() }
pub fn no_dvector_copy_of_string() { need_copy::<DVector<String>>() }
pub fn no_dvector_eq_of_f64() { need_eq::<DVector<f64>>() }
pub fn ok_dmatrix_send<T: Send>() { need_send::<DMatrix<T>>() }
pub fn ok_dmatrix_sync<T: Sync>() { need_sync::<DMatrix<T>>() }
pub fn ok_dmatrix_clone<T: Clone>() { need_clone::<DMatrix<T>>() }
pub fn ok_dmatrix_partialeq<T: PartialEq>() { need_partialeq::<DMatrix<T>>() }
pub fn ok_dmatrix_eq<T: Eq>() { need_eq::<DMatrix<T>>() }
pub fn ok_dmatrix_debug<T: std::fmt::Debug>() { need_debug::<DMatrix<T>>() }
pub fn ok_dmatrix_static<T: 'static>() { need_static::<DMatrix<T>>() }
pub fn ok_dmatrix_unwind<T: std::panic::UnwindSafe>() { need_unwind::<DMatrix<T>>() }
pub fn no_dmatrix_send_of_rc() { need_send::<DMatrix<std::rc::Rc<i32>>>() }
pub fn no_dmatrix_sync_of_cell() { need_sync::<DMatrix<std::cell::Cell<i32>>>() }
pub fn no_dmatrix_copy_of_string() { need_copy::<DMatrix<String>>() }
pub fn no_dmatrix_eq_of_f64() { need_eq::<DMatrix<f64>>() }
pub fn ok_vexpr_send<T: Send + Clone + Zero + One>(n: usize, v: T) { val_send(DVector::same(n, v)); val_send(DVector::<T>::zeros(n)); val_send(DVector::<T>::ones(n)) }
pub fn ok_mexpr_send<T: Send + Clone + Zero + One>(n: usize, v: T) { val_send(DMatrix::same(n, n, v)); val_send(DMatrix::<T>::zeros(n, n)); val_send(DMatrix::<T>::ones(n, n)); val_send(DMatrix::<T>::eye(n)) }
pub fn ok_vfn_send<F: Fn(usize) -> T + Send, T>(n: usize, f: F) { val_send(make_vector_expr(n, f)) }
pub fn ok_mfn_send<F: Fn(usize, usize) -> T + Send, T>(n: usize, f: F) { val_send(make_matrix_expr(n, n, f)) }
pub fn ok_vector_add_send<T: Number, A: VectorExpr<Entry = T> + Send, B: VectorExpr<Entry = T> + Send>(a: A, b: B) { let _ = &b; val_send(a.wrap() + b) }
pub fn ok_matrix_add_send<T: Number, A: MatrixExpr<Entry = T> + Send, B: MatrixExpr<Entry = T> + Send>(a: A, b: B) { let _ = &b; val_send(a.wrap() + b) }
pub fn ok_vector_sub_send<T: Number, A: VectorExpr<Entry = T> + Send, B: VectorExpr<Entry = T> + Send>(a: A, b: B) { let _ = &b; val_send(a.wrap() - b) }
pub fn ok_matrix_sub_send<T: Number, A: MatrixExpr<Entry = T> + Send, B: MatrixExpr<Entry = T> + Send>(a: A, b: B) { let _ = &b; val_send(a.wrap() - b) }
pub fn ok_vector_mul_send<T: Number, A: VectorExpr<Entry = T> + Send, B: VectorExpr<Entry = T> + Send>(a: A, b: B) { let _ = &b; val_send(a.wrap().mul_elemwise(b)) }
pub fn ok_matrix_mul_send<T: Number, A: MatrixExpr<Entry = T> + Send, B: MatrixExpr<Entry = T> + Send>(a: A, b: B) { let _ = &b; val_send(a.wrap().mul_elemwise(b)) }
pub fn ok_vector_div_send<T: Number, A: VectorExpr<Entry = T> + Send, B: VectorExpr<Entry = T> + Send>(a: A, b: B) { let _ = &b; val_send(a.wrap().div_elemwise(b)) }
pub fn ok_matrix_div_send<T: Number, A: MatrixExpr<Entry = T> + Send, B: MatrixExpr<Entry = T> + Send>(a: A, b: B) { let _ = &b; val_send(a.wrap().div_elemwise(b)) }
pub fn ok_vector_conj_send<T: Number, A: VectorExpr<Entry = T> + Send, B: VectorExpr<Entry = T> + Send>(a: A, b: B) { let _ = &b; val_send(a.wrap().conj()) }
pub fn ok_matrix_t_send<A: MatrixExpr + Send>(a: A) where A::Entry: Field + Conj { val_send(a.wrap().t()) }
pub fn ok_matrix_h_send<A: MatrixExpr + Send>(a: A) where A::Entry: Field + Conj { val_send(a.wrap().h()) }
pub fn ok_matrix_diag_send<A: MatrixExpr + Send>(a: A) where A::Entry: Field + Conj { val_send(a.wrap().diag()) }
pub fn ok_vector_diag_send<A: VectorExpr + Send>(a: A) where A::Entry: Field + Conj { val_send(a.wrap().diag()) }
pub fn ok_vector_map_send<A: VectorExpr + Send, F: Fn(A::Entry) -> O + Send, O>(a: A, f: F) { val_send(a.wrap().map(f)) }
pub fn ok_matrix_map_send<A: MatrixExpr + Send, F: Fn(A::Entry) -> O + Send, O>(a: A, f: F) { val_send(a.wrap().map(f)) }
pub fn ok_dmatrix_product_send<T: Number + Sync>(a: &DMatrix<T>, b: &DMatrix<T>) { val_send(a * b) }
pub fn ok_vexpr_sync<T: Sync + Clone + Zero + One>(n: usize, v: T) { val_sync(DVector::same(n, v)); val_sync(DVector::<T>::zeros(n)); val_sync(DVector::<T>::ones(n)) }
pub fn ok_mexpr_sync<T: Sync + Clone + Zero + One>(n: usize, v: T) { val_sync(DMatrix::same(n, n, v)); val_sync(DMatrix::<T>::zeros(n, n)); val_sync(DMatrix::<T>::ones(n, n)); val_sync(DMatrix::<T>::eye(n)) }
pub fn ok_vfn_sync<F: Fn(usize) -> T + Sync, T>(n: usize, f: F) { val_sync(make_vector_expr(n, f)) }
pub fn ok_mfn_sync<F: Fn(usize, usize) -> T + Sync, T>(n: usize, f: F) { val_sync(make_matrix_expr(n, n, f)) }
pub fn ok_vector_add_sync<T: Number, A: VectorExpr<Entry = T> + Sync, B: VectorExpr<Entry = T> + Sync>(a: A, b: B) { let _ = &b; val_sync(a.wrap() + b) }
pub fn ok_matrix_add_sync<T: Number, A: MatrixExpr<Entry = T> + Sync, B: MatrixExpr<Entry = T> + Sync>(a: A, b: B) { let _ = &b; val_sync(a.wrap() + b) }
pub fn ok_vector_sub_sync<T: Number, A: VectorExpr<Entry = T> + Sync, B: VectorExpr<Entry = T> + Sync>(a: A, b: B) { let _ = &b; val_sync(a.wrap() - b) }
pub fn ok_matrix_sub_sync<T: Number, A: MatrixExpr<Entry = T> + Sync, B: MatrixExpr<Entry = T> + Sync>(a: A, b: B) { let _ = &b; val_sync(a.wrap() - b) }
pub fn ok_vector_mul_sync<T: Number, A: VectorExpr<Entry = T> + Sync, B: VectorExpr<Entry = T> + Sync>(a: A, b: B) { let _ = &b; val_sync(a.wrap().mul_elemwise(b)) }
pub fn ok_matrix_mul_sync<T: Number, A: MatrixExpr<Entry = T> + Sync, B: MatrixExpr<Entry = T> + Sync>(a: A, b: B) { let _ = &b; val_sync(a.wrap().mul_elemwise(b)) }
pub fn ok_vector_div_sync<T: Number, A: VectorExpr<Entry = T> + Sync, B: VectorExpr<Entry = T> + Sync>(a: A, b: B) { let _ = &b; val_sync(a.wrap().div_elemwise(b)) }
pub fn ok_matrix_div_sync<T: Number, A: MatrixExpr<Entry = T> + Sync, B: MatrixExpr<Entry = T> + Sync>(a: A, b: B) { let _ = &b; val_sync(a.wrap().div_elemwise(b)) }
pub fn ok_vector_conj_sync<T: Number, A: VectorExpr<Entry = T> + Sync, B: VectorExpr<Entry = T> + Sync>(a: A, b: B) { let _ = &b; val_sync(a.wrap().conj()) }
pub fn ok_matrix_t_sync<A: MatrixExpr + Sync>(a: A) where A::Entry: Field + Conj { val_sync(a.wrap().t()) }
pub fn ok_matrix_h_sync<A: MatrixExpr + Sync>(a: A) where A::Entry: Field + Conj { val_sync(a.wrap().h()) }
pub fn ok_matrix_diag_sync<A: MatrixExpr + Sync>(a: A) where A::Entry: Field + Conj { val_sync(a.wrap().diag()) }
pub fn ok_vector_diag_sync<A: VectorExpr + Sync>(a: A) where A::Entry: Field + Conj { val_sync(a.wrap().diag()) }
pub fn ok_vector_map_sync<A: VectorExpr + Sync, F: Fn(A::Entry) -> O + Sync, O>(a: A, f: F) { val_sync(a.wrap().map(f)) }
pub fn ok_matrix_map_sync<A: MatrixExpr + Sync, F: Fn(A::Entry) -> O + Sync, O>(a: A, f: F) { val_sync(a.wrap().map(f)) }
pub fn ok_dmatrix_product_sync<T: Number + Sync>(a: &DMatrix<T>, b: &DMatrix<T>) { val_sync(a * b) }
