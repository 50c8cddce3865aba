use magnesia::algebra::*;
use magnesia::functions::*;
use magnesia::linalg::*;
use std::ops::*;

/// A client expression that defines nothing but the required methods, so that
/// every provided method of the trait is the library's own.
pub struct Ov<E>(pub E);
impl<E: VectorExpr> VectorExpr for Ov<E> {
    type Entry = E::Entry;
    fn entry(&self, i: usize) -> E::Entry {
        self.0.entry(i)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
pub struct Om<E>(pub E);
impl<E: MatrixExpr> MatrixExpr for Om<E> {
    type Entry = E::Entry;
    fn entry(&self, r: usize, c: usize) -> E::Entry {
        self.0.entry(r, c)
    }
    fn num_rows(&self) -> usize {
        self.0.num_rows()
    }
    fn num_cols(&self) -> usize {
        self.0.num_cols()
    }
}
