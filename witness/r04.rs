include!("prelude.rs");
fn add<X: Ring>(a: &X, b: &X) -> X { let mut s = a.clone(); s += b; s }
fn sub<X: Ring>(a: &X, b: &X) -> X { let mut s = a.clone(); s -= b; s }
pub fn w_cx_assoc_l<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { add(&add(a, b), c) }
pub fn w_cx_assoc_r<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { add(a, &add(b, c)) }
pub fn w_cx_comm_l<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { add(a, b) }
pub fn w_cx_comm_r<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { add(b, a) }
pub fn w_cx_neg_l<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { sub(a, b) }
pub fn w_cx_neg_r<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { add(a, &-b.clone()) }
pub fn w_cx_massoc_l<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { a.mul_refs(b).mul_refs(c) }
pub fn w_cx_massoc_r<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { a.mul_refs(&b.mul_refs(c)) }
pub fn w_cx_ldist_l<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { a.mul_refs(&add(b, c)) }
pub fn w_cx_ldist_r<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { add(&a.mul_refs(b), &a.mul_refs(c)) }
pub fn w_cx_rdist_l<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { add(a, b).mul_refs(c) }
pub fn w_cx_rdist_r<T: Ring>(a: &Complex<T>, b: &Complex<T>, c: &Complex<T>) -> Complex<T> { add(&a.mul_refs(c), &b.mul_refs(c)) }
pub fn w_po_assoc_l<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { add(&add(a, b), c) }
pub fn w_po_assoc_r<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { add(a, &add(b, c)) }
pub fn w_po_comm_l<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { add(a, b) }
pub fn w_po_comm_r<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { add(b, a) }
pub fn w_po_neg_l<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { sub(a, b) }
pub fn w_po_neg_r<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { add(a, &-b.clone()) }
pub fn w_po_massoc_l<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { a.mul_refs(b).mul_refs(c) }
pub fn w_po_massoc_r<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { a.mul_refs(&b.mul_refs(c)) }
pub fn w_po_ldist_l<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { a.mul_refs(&add(b, c)) }
pub fn w_po_ldist_r<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { add(&a.mul_refs(b), &a.mul_refs(c)) }
pub fn w_po_rdist_l<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { add(a, b).mul_refs(c) }
pub fn w_po_rdist_r<T: Ring>(a: &Polynomial<T>, b: &Polynomial<T>, c: &Polynomial<T>) -> Polynomial<T> { add(&a.mul_refs(c), &b.mul_refs(c)) }
pub fn w_sm_assoc_l<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { add(&add(a, b), c) }
pub fn w_sm_assoc_r<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { add(a, &add(b, c)) }
pub fn w_sm_comm_l<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { add(a, b) }
pub fn w_sm_comm_r<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { add(b, a) }
pub fn w_sm_neg_l<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { sub(a, b) }
pub fn w_sm_neg_r<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { add(a, &-b.clone()) }
pub fn w_sm_massoc_l<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { a.mul_refs(b).mul_refs(c) }
pub fn w_sm_massoc_r<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { a.mul_refs(&b.mul_refs(c)) }
pub fn w_sm_ldist_l<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { a.mul_refs(&add(b, c)) }
pub fn w_sm_ldist_r<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { add(&a.mul_refs(b), &a.mul_refs(c)) }
pub fn w_sm_rdist_l<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { add(a, b).mul_refs(c) }
pub fn w_sm_rdist_r<T: Ring, const N: usize>(a: &SMatrix<T, N, N>, b: &SMatrix<T, N, N>, c: &SMatrix<T, N, N>) -> SMatrix<T, N, N> { add(&a.mul_refs(c), &b.mul_refs(c)) }
