include!("prelude.rs");
pub fn w_exp<T: Exp + Sin + Cos + MulRefs + Clone>(z: Complex<T>) -> Complex<T> { z.exp() }
pub fn w_sin<T: Sin + Cos + Sinh + Cosh + MulRefs + Clone>(z: Complex<T>) -> Complex<T> { Sin::sin(z) }
pub fn w_cos<T: Sin + Cos + Sinh + Cosh + MulRefs + Neg<Output = T> + Clone>(z: Complex<T>) -> Complex<T> { Cos::cos(z) }
pub fn w_sinh<T: Sin + Cos + Sinh + Cosh + MulRefs + Clone>(z: Complex<T>) -> Complex<T> { Sinh::sinh(z) }
pub fn w_cosh<T: Sin + Cos + Sinh + Cosh + MulRefs + Clone>(z: Complex<T>) -> Complex<T> { Cosh::cosh(z) }
pub fn w_tan<T: Field + Sin + Cos + Sinh + Cosh>(z: Complex<T>) -> Complex<T> { Tan::tan(z) }
