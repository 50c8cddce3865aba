include!("prelude.rs");
pub fn q_i8() -> i8 { loop {} }
pub fn q_i16() -> i16 { loop {} }
pub fn q_i32() -> i32 { loop {} }
pub fn q_i64() -> i64 { loop {} }
pub fn q_i128() -> i128 { loop {} }
pub fn q_isize() -> isize { loop {} }
pub fn q_f32() -> f32 { loop {} }
pub fn q_f64() -> f64 { loop {} }
pub fn q_u8() -> u8 { loop {} }
pub fn q_u16() -> u16 { loop {} }
pub fn q_u32() -> u32 { loop {} }
pub fn q_u64() -> u64 { loop {} }
pub fn q_u128() -> u128 { loop {} }
pub fn q_usize() -> usize { loop {} }
pub fn q_bool() -> bool { loop {} }
pub fn q_char() -> char { loop {} }

pub fn q_complex_ring<T: Ring>() -> Complex<T> { loop {} }
pub fn q_complex_field<T: Field>() -> Complex<T> { loop {} }
pub fn q_complex_any<T: Clone + Zero + One + PartialEq + MulRefs + Neg<Output = T>>() -> Complex<T> { loop {} }
pub fn q_complex_i32() -> Complex<i32> { loop {} }
pub fn q_complex_u32() -> Complex<u32> { loop {} }
pub fn q_complex_f64() -> Complex<f64> { loop {} }
pub fn q_complex_complex_f32() -> Complex<Complex<f32>> { loop {} }
pub fn q_poly_ring<T: Ring>() -> Polynomial<T> { loop {} }
pub fn q_poly_field<T: Field>() -> Polynomial<T> { loop {} }
pub fn q_poly_f64() -> Polynomial<f64> { loop {} }
pub fn q_poly_poly_i64() -> Polynomial<Polynomial<i64>> { loop {} }
pub fn q_smat_sq_ring<T: Ring, const N: usize>() -> SMatrix<T, N, N> { loop {} }
pub fn q_smat_sq_field<T: Field, const N: usize>() -> SMatrix<T, N, N> { loop {} }
pub fn q_smat_sq_1_f64() -> SMatrix<f64, 1, 1> { loop {} }
pub fn q_smat_sq_i32() -> SMatrix<i32, 3, 3> { loop {} }
pub fn q_smat_rect<T: Field, const R: usize, const C: usize>() -> SMatrix<T, R, C> { loop {} }
pub fn q_smat_2x3_f64() -> SMatrix<f64, 2, 3> { loop {} }
pub fn q_smat_3x2_i32() -> SMatrix<i32, 3, 2> { loop {} }
pub fn q_smat_1x0_f64() -> SMatrix<f64, 1, 0> { loop {} }
pub fn q_smat_sq_u32() -> SMatrix<u32, 2, 2> { loop {} }
pub fn q_svec_ring<T: Field, const N: usize>() -> SVector<T, N> { loop {} }
pub fn q_svec_f64() -> SVector<f64, 2> { loop {} }
pub fn q_svec_1_f64() -> SVector<f64, 1> { loop {} }
pub fn q_dvec<T: Field>() -> DVector<T> { loop {} }
pub fn q_dmat<T: Field>() -> DMatrix<T> { loop {} }
pub fn q_dvec_f64() -> DVector<f64> { loop {} }
pub fn q_dmat_f64() -> DMatrix<f64> { loop {} }
pub fn q_tuple() -> (f64, f64) { loop {} }
pub fn q_array() -> [f64; 2] { loop {} }
pub fn q_vec() -> Vec<f64> { loop {} }
pub fn q_unit() -> () { loop {} }
pub fn q_string() -> String { loop {} }
pub fn q_opt() -> Option<f64> { loop {} }
pub fn q_ref() -> &'static f64 { loop {} }
pub fn q_wrapping() -> std::num::Wrapping<i32> { loop {} }
