include!("prelude.rs");
pub fn w_zero_i8() -> i8 { <i8 as Zero>::zero() }
pub fn w_one_i8() -> i8 { <i8 as One>::one() }
pub fn w_zero_i16() -> i16 { <i16 as Zero>::zero() }
pub fn w_one_i16() -> i16 { <i16 as One>::one() }
pub fn w_zero_i32() -> i32 { <i32 as Zero>::zero() }
pub fn w_one_i32() -> i32 { <i32 as One>::one() }
pub fn w_zero_i64() -> i64 { <i64 as Zero>::zero() }
pub fn w_one_i64() -> i64 { <i64 as One>::one() }
pub fn w_zero_i128() -> i128 { <i128 as Zero>::zero() }
pub fn w_one_i128() -> i128 { <i128 as One>::one() }
pub fn w_zero_isize() -> isize { <isize as Zero>::zero() }
pub fn w_one_isize() -> isize { <isize as One>::one() }
pub fn w_zero_f32() -> f32 { <f32 as Zero>::zero() }
pub fn w_one_f32() -> f32 { <f32 as One>::one() }
pub fn w_zero_f64() -> f64 { <f64 as Zero>::zero() }
pub fn w_one_f64() -> f64 { <f64 as One>::one() }

pub fn w_zero_from<T: From<i8>>() -> T { T::zero() }
pub fn w_one_from<T: From<i8>>() -> T { T::one() }
pub fn w_complex_add_zero<T: Ring>(a: Complex<T>) -> Complex<T> { let mut a = a; a += &Complex::zero(); a }
pub fn w_complex_zero_add<T: Ring>(a: Complex<T>) -> Complex<T> { let mut z = Complex::zero(); z += &a; z }
pub fn w_complex_mul_one<T: Ring>(a: Complex<T>) -> Complex<T> { a * Complex::one() }
pub fn w_complex_one_mul<T: Ring>(a: Complex<T>) -> Complex<T> { Complex::<T>::one() * a }
pub fn w_poly_add_zero<T: Ring>(a: Polynomial<T>) -> Polynomial<T> { a + Polynomial::zero() }
pub fn w_poly_zero_add<T: Ring>(a: Polynomial<T>) -> Polynomial<T> { Polynomial::zero() + a }
pub fn w_poly_mul_one<T: Ring>(a: Polynomial<T>) -> Polynomial<T> { a * Polynomial::one() }
pub fn w_poly_one_mul<T: Ring>(a: Polynomial<T>) -> Polynomial<T> { Polynomial::one() * a }
pub fn w_svec_add_zero<T: Ring, const N: usize>(a: SVector<T, N>) -> SVector<T, N> { a + SVector::zero() }
pub fn w_svec_zero_add<T: Ring, const N: usize>(a: SVector<T, N>) -> SVector<T, N> { SVector::zero() + a }
pub fn w_smat_add_zero<T: Ring, const R: usize, const C: usize>(a: SMatrix<T, R, C>) -> SMatrix<T, R, C> { a + SMatrix::zero() }
pub fn w_smat_zero_add<T: Ring, const R: usize, const C: usize>(a: SMatrix<T, R, C>) -> SMatrix<T, R, C> { SMatrix::zero() + a }
pub fn w_smat_mul_one<T: Ring, const N: usize>(a: SMatrix<T, N, N>) -> SMatrix<T, N, N> { a * SMatrix::one() }
pub fn w_smat_one_mul<T: Ring, const N: usize>(a: SMatrix<T, N, N>) -> SMatrix<T, N, N> { SMatrix::one() * a }
pub fn w_smat_one<T: Zero + One, const R: usize, const C: usize>() -> SMatrix<T, R, C> { SMatrix::one() }
pub fn w_smat_zero<T: Zero, const R: usize, const C: usize>() -> SMatrix<T, R, C> { SMatrix::zero() }
