include!("prelude.rs");
pub fn w_add<T: Ring>(p: Polynomial<T>, q: Polynomial<T>) -> Polynomial<T> { p + q }
pub fn w_sub<T: Ring>(p: Polynomial<T>, q: Polynomial<T>) -> Polynomial<T> { p - q }
pub fn w_neg<T: Ring>(p: Polynomial<T>) -> Polynomial<T> { -p }
pub fn w_add_assign<T: Ring>(p: &mut Polynomial<T>, q: Polynomial<T>) { *p += q }
pub fn w_add_assign_ref<T: Ring>(p: &mut Polynomial<T>, q: &Polynomial<T>) { *p += q }
pub fn w_sub_assign<T: Ring>(p: &mut Polynomial<T>, q: Polynomial<T>) { *p -= q }
pub fn w_sub_assign_ref<T: Ring>(p: &mut Polynomial<T>, q: &Polynomial<T>) { *p -= q }
