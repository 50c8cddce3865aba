include!("prelude.rs");
pub fn w_dot<T: Add<Output = T> + Clone + Conj + Mul<Output = T> + Zero>(l: DVector<T>, r: DVector<T>) -> T { l * r }
pub fn w_dot_ref<T: Add<Output = T> + Clone + Conj + Mul<Output = T> + Zero>(l: &DVector<T>, r: &DVector<T>) -> T { l * r }
