include!("prelude.rs");
pub fn w_sqrt<T>(z: &Complex<T>) -> Complex<T>
where
    for<'a> T: AddAssign<&'a T> + Add<&'a T, Output = T> + Div<&'a T, Output = T> + MulRefs + Neg<Output = T> + One + PartialOrd + Sqrt + Sub<&'a T, Output = T> + Zero,
    for<'a, 'b> &'a T: Abs<Output = T> + Add<&'b T, Output = T> + Sub<&'b T, Output = T>,
{ Sqrt::sqrt(z) }
