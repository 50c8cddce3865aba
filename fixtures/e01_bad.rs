// self-test of the effect scan: every function below must be reported
#![feature(thread_local)]
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
static CALLS: AtomicUsize = AtomicUsize::new(0);
static mut RAW: usize = 0;
static FINE: [usize; 3] = [1, 2, 3];
thread_local! { static TL: Cell<u32> = Cell::new(0); }
extern "C" {
    fn getpid() -> i32;
}
macro_rules! sneaky {
    ($e:expr) => {
        unsafe { $e }
    };
}
pub fn bad_counter() -> usize {
    CALLS.fetch_add(1, Ordering::Relaxed) + FINE[0]
}
pub fn bad_unsafe() -> usize {
    unsafe { RAW += 1 }
    sneaky!(RAW)
}
pub fn bad_tls() -> u32 {
    TL.with(|c| c.get())
}
pub fn bad_ffi() -> i32 {
    unsafe { getpid() }
}
pub fn bad_print<T: std::fmt::Debug>(x: T) {
    println!("{:?}", x);
}
pub fn bad_time() -> bool {
    std::time::Instant::now().elapsed().as_secs() > 3
}
pub fn bad_env() -> bool {
    std::env::var("X").is_ok()
}
pub fn bad_thread() {
    std::thread::yield_now()
}
pub fn bad_rng() -> f64 {
    let f = || rand::random::<f64>();
    f()
}
pub fn bad_thread_rng() -> u32 {
    use rand::RngCore;
    rand::thread_rng().next_u32()
}
pub fn bad_entropy() -> u32 {
    use rand::{RngCore, SeedableRng};
    rand::rngs::StdRng::from_entropy().next_u32()
}
pub fn bad_fs() -> bool {
    std::fs::metadata("x").is_ok()
}
pub fn bad_hash() -> Option<u32> {
    let mut h = std::collections::HashSet::new();
    h.insert(1);
    h.iter().next().copied()
}
pub fn bad_addr(x: &u32) -> usize {
    x as *const u32 as usize
}
pub fn bad_exit() {
    std::process::exit(1)
}
pub trait Tr { fn m(&self) -> bool; }
impl<T> Tr for Vec<T> {
    fn m(&self) -> bool { std::env::args().count() > self.len() }
}
pub fn good(x: &[f64]) -> f64 {
    x.iter().map(|y| y.sin()).sum::<f64>() + FINE[1] as f64
}
