include!("prelude.rs");
pub fn w_eval<T: Ring>(p: Vec<T>, x: T) -> T { Polynomial::from_coefficients(p).eval(x) }
pub fn w_eval_ref<T: Ring>(p: Vec<T>, x: &T) -> T { Polynomial::from_coefficients(p).eval_ref(x) }
