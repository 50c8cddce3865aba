include!("prelude.rs");
pub fn w_mul<T: Ring>(p: Polynomial<T>, q: Polynomial<T>) -> Polynomial<T> { p * q }
pub fn w_mul_ref<T: Ring>(p: &Polynomial<T>, q: &Polynomial<T>) -> Polynomial<T> { p * q }
pub fn w_mul_refs<T: Ring>(p: &Polynomial<T>, q: &Polynomial<T>) -> Polynomial<T> { p.mul_refs(q) }
pub fn w_mul_assign<T: Ring>(p: &mut Polynomial<T>, q: Polynomial<T>) { *p *= q }
