//! One instance of every way to lose a value; `good` must stay quiet.
use std::cell::RefCell;
use std::mem::ManuallyDrop;
use std::rc::Rc;
pub struct Field<T>(ManuallyDrop<T>);
pub struct Cyc<T>(pub T, pub RefCell<Option<Rc<Cyc<T>>>>);
pub fn bad_forget<T>(x: Vec<T>) -> usize {
    let n = x.len();
    std::mem::forget(x);
    n
}
pub fn bad_manually<T: Clone>(x: T) -> T {
    let m = ManuallyDrop::new(x);
    (*m).clone()
}
pub fn bad_box<T>(x: T) -> &'static mut T
where
    T: 'static,
{
    Box::leak(Box::new(x))
}
pub fn bad_vec<T: 'static>(x: Vec<T>) -> &'static mut [T] {
    Vec::leak(x)
}
pub fn bad_raw<T>(x: T) -> bool {
    Box::into_raw(Box::new(x)).is_null()
}
pub fn bad_rc<T>(x: T) -> bool {
    Rc::into_raw(Rc::new(x)).is_null()
}
pub fn bad_closure<T>(xs: Vec<T>) {
    xs.into_iter().for_each(std::mem::forget)
}
pub fn bad_uninit<T>(x: T) {
    let _m = std::mem::MaybeUninit::new(x);
}
pub fn bad_cyclic<T>(x: T) -> Rc<(T, std::rc::Weak<()>)> {
    Rc::new_cyclic(|_| (x, std::rc::Weak::new()))
}
pub fn good<T: Clone>(x: &[T]) -> Vec<T> {
    let mut v = x.to_vec();
    let b = v.clone().into_boxed_slice();
    v.truncate(1);
    drop(std::mem::replace(&mut v, b.into_vec()));
    v
}
