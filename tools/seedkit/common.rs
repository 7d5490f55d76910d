#![allow(dead_code, unused_imports)]
pub use rustdht::scalar::*;
pub use rustdht::Dht;
pub use rustfft::{FftNum, Length};
pub use std::sync::Arc;
pub type D<T> = Arc<dyn Dht<T>>;
pub fn naive<T: FftNum>(n: usize) -> D<T> { Arc::new(DhtNaive::new(n)) }
/// deterministic pseudo-random signal in [-1, 1]
pub fn noise(n: usize, seed: u64) -> Vec<f64> {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..n).map(|_| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s >> 11) as f64 / (1u64 << 52) as f64 - 1.0 }).collect()
}
/// some outputs of the definition
pub fn exact(x: &[f64], k: usize) -> f64 {
    let n = x.len();
    let w = 2.0 * std::f64::consts::PI / n as f64;
    x.iter().enumerate().map(|(i, v)| { let a = w * ((i as u128 * k as u128) % n as u128) as f64; v * (a.cos() + a.sin()) }).sum()
}
pub fn norm(x: &[f64]) -> f64 { x.iter().map(|v| v * v).sum::<f64>().sqrt() }
pub fn check(ok: bool, what: &str) {
    if !ok { println!("BROKEN: {what}"); std::process::exit(1); }
    println!("ok: {what}");
}
/// compare up to 200 outputs with the definition
pub fn right(x: &[f64], y: &[f64], tol: f64, what: &str) {
    let n = x.len();
    let step = (n / 200).max(1);
    let scale = norm(x).max(1e-300);
    let mut k = 0;
    while k < n {
        let e = exact(x, k);
        if !((e - y[k]).abs() <= tol * scale) { println!("BROKEN: {what}: X[{k}] = {}, expected {e}", y[k]); std::process::exit(1); }
        k += step;
    }
    println!("ok: {what}");
}
pub fn panics(f: impl FnOnce()) -> bool {
    let h = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    std::panic::set_hook(h);
    r
}
