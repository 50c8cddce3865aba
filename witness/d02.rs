include!("prelude.rs");

pub fn w_dv_entry<T: Clone>(v: DVector<T>, i: usize) -> T { v.entry(i) }
pub fn w_dv_entry_ref<T: Clone>(v: &DVector<T>, i: usize) -> T { VectorExpr::entry(&v, i) }
pub fn w_dv_index<T>(v: &DVector<T>, i: usize) -> &T { &v[i] }
pub fn w_dv_index_mut<T>(v: &mut DVector<T>, i: usize, x: T) { v[i] = x }
pub fn w_dv_wrap_entry<T: Clone>(v: DVector<T>, i: usize) -> T { v.wrap().entry(i) }
pub fn w_slice_entry<T: Clone>(v: &[T], i: usize) -> T { VectorExpr::entry(&v, i) }
pub fn w_array_slice_entry<T: Clone, const N: usize>(v: [T; N], i: usize) -> T { v.wrap().entry(i) }
pub fn w_dm_entry<T: Clone>(m: DMatrix<T>, r: usize, c: usize) -> T { m.entry(r, c) }
pub fn w_dm_entry_ref<T: Clone>(m: &DMatrix<T>, r: usize, c: usize) -> T { MatrixExpr::entry(&m, r, c) }
pub fn w_dm_index<T>(m: &DMatrix<T>, r: usize, c: usize) -> &T { &m[[r, c]] }
pub fn w_dm_index_mut<T>(m: &mut DMatrix<T>, r: usize, c: usize, x: T) { m[[r, c]] = x }
pub fn w_dm_wrap_entry<T: Clone>(m: DMatrix<T>, r: usize, c: usize) -> T { m.wrap().entry(r, c) }
pub fn w_array_entry<T: Clone, const R: usize, const C: usize>(m: [[T; C]; R], r: usize, c: usize) -> T { m.entry(r, c) }
