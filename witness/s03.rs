include!("prelude.rs");
pub fn w_from<T, const N: usize>(a: [T; N]) -> SVector<T, N> { SVector::from(a) }
pub fn w_index<T, const N: usize>(a: &SVector<T, N>, i: usize) -> &T { &a[i] }
pub fn w_index_mut<T, const N: usize>(a: &mut SVector<T, N>, i: usize, v: T) { a[i] = v }
pub fn w_iter_val<T, const N: usize>(a: SVector<T, N>) -> Vec<T> { a.into_iter().collect() }
pub fn w_iter_ref<T: Clone, const N: usize>(a: &SVector<T, N>) -> Vec<T> { let mut v = Vec::new(); for x in a { v.push(x.clone()); } v }
pub fn w_iter_mut<T, const N: usize, F: Fn(usize) -> T>(a: &mut SVector<T, N>, f: F) { let mut i = 0; for x in a { *x = f(i); i += 1; } }
pub fn w_iter_mut_at<T, const N: usize>(a: &mut SVector<T, N>, k: usize, v: T) { *a.into_iter().nth(k).unwrap() = v; }
