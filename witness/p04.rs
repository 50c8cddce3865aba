include!("prelude.rs");
pub fn w_eq<T: Ring>(p: &Polynomial<T>, q: &Polynomial<T>) -> bool { p == q }
pub fn w_ne<T: Ring>(p: &Polynomial<T>, q: &Polynomial<T>) -> bool { p != q }
