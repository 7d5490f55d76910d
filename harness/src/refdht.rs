//! Independent reference transform (no code shared with the crate under test).
//! n <= DIRECT: the defining sum with exactly reduced angles and blocked summation.
//! larger n: complex FFT in f64 (radix-2, or Bluestein for other lengths), H = Re - Im.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub const DIRECT: usize = 768;

pub struct Ref {
    pub n: usize,
    tab: Vec<f64>,          // cas(2 pi j / n)
    blue: Option<Blue>,
}
struct Blue {
    m: usize,
    chirp: Vec<(f64, f64)>, // exp(-i pi k^2 / n)
    bf: Vec<(f64, f64)>,    // FFT of the conjugate chirp filter
    tw: Vec<(f64, f64)>,
}
/// (cos, sin) of 2 pi j / n with the angle reduced to the first octant
pub fn cis(j: usize, n: usize) -> (f64, f64) {
    let j = j % n;
    // octant reduction on the exact rational 8j/n
    let (mut c, mut s);
    let oct = 8 * j / n;
    let r = 8 * j - oct * n; // angle = (oct + r/n) * pi/4
    let q = std::f64::consts::FRAC_PI_4;
    if oct % 2 == 0 {
        let a = q * (r as f64 / n as f64);
        c = a.cos();
        s = a.sin();
    } else {
        let a = q * ((n - r) as f64 / n as f64);
        c = a.sin();
        s = a.cos();
    }
    for _ in 0..(oct / 2) {
        let t = c;
        c = -s;
        s = t;
    }
    (c, s)
}
fn fft_pow2(a: &mut [(f64, f64)], tw: &[(f64, f64)]) {
    let n = a.len();
    if n <= 1 { return; }
    let bits = n.trailing_zeros();
    for i in 0..n {
        let j = i.reverse_bits() >> (usize::BITS - bits);
        if i < j { a.swap(i, j); }
    }
    let mut len = 2;
    while len <= n {
        let step = n / len;
        for base in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let (wr, wi) = tw[k * step];
                let (xr, xi) = a[base + k + len / 2];
                let (tr, ti) = (xr * wr - xi * wi, xr * wi + xi * wr);
                let (ur, ui) = a[base + k];
                a[base + k] = (ur + tr, ui + ti);
                a[base + k + len / 2] = (ur - tr, ui - ti);
            }
        }
        len *= 2;
    }
}
fn tw_table(n: usize) -> Vec<(f64, f64)> {
    (0..n / 2).map(|k| { let (c, s) = cis(k, n); (c, -s) }).collect()
}
impl Ref {
    pub fn new(n: usize) -> Ref {
        let tab = if n <= 4096 { (0..n).map(|j| { let (c, s) = cis(j, n); c + s }).collect() } else { Vec::new() };
        let blue = if n > DIRECT {
            if n.is_power_of_two() {
                Some(Blue { m: n, chirp: vec![], bf: vec![], tw: tw_table(n) })
            } else {
                let m = (2 * n - 1).next_power_of_two();
                let tw = tw_table(m);
                let chirp: Vec<(f64, f64)> = (0..n).map(|k| {
                    let q = ((k as u128 * k as u128) % (2 * n as u128)) as usize;
                    let (c, s) = cis(q, 2 * n);
                    (c, -s)
                }).collect();
                let mut bf = vec![(0.0, 0.0); m];
                for k in 0..n {
                    let v = (chirp[k].0, -chirp[k].1);
                    bf[k] = v;
                    if k > 0 { bf[m - k] = v; }
                }
                fft_pow2(&mut bf, &tw);
                Some(Blue { m, chirp, bf, tw })
            }
        } else { None };
        Ref { n, tab, blue }
    }
    /// cas(2 pi i k / n)
    pub fn cas(&self, i: usize, k: usize) -> f64 {
        let j = ((i as u128 * k as u128) % self.n as u128) as usize;
        if !self.tab.is_empty() { self.tab[j] } else { let (c, s) = cis(j, self.n); c + s }
    }
    pub fn bin(&self, x: &[f64], k: usize) -> f64 {
        let n = self.n;
        let mut j = 0usize;
        // compensated (Neumaier) summation: the reference must be more accurate than what it judges
        let (mut s, mut comp) = (0.0f64, 0.0f64);
        for &v in x {
            let c = if !self.tab.is_empty() { self.tab[j] } else { let (c, s) = cis(j, n); c + s };
            let a = v * c;
            let t = s + a;
            comp += if s.abs() >= a.abs() { (s - t) + a } else { (a - t) + s };
            s = t;
            j += k;
            if j >= n { j -= n; }
        }
        s + comp
    }
    pub fn dht(&self, x: &[f64]) -> Vec<f64> {
        let n = self.n;
        assert_eq!(x.len(), n);
        if n <= DIRECT {
            return (0..n).map(|k| self.bin(x, k)).collect();
        }
        let b = self.blue.as_ref().unwrap();
        if n.is_power_of_two() {
            let mut a: Vec<(f64, f64)> = x.iter().map(|&v| (v, 0.0)).collect();
            fft_pow2(&mut a, &b.tw);
            return a.iter().map(|&(r, i)| r - i).collect();
        }
        let m = b.m;
        let mut a = vec![(0.0, 0.0); m];
        for k in 0..n { a[k] = (x[k] * b.chirp[k].0, x[k] * b.chirp[k].1); }
        fft_pow2(&mut a, &b.tw);
        for (v, &(br, bi)) in a.iter_mut().zip(&b.bf) {
            let (r, i) = *v;
            // conjugate the product so that a forward FFT performs the inverse
            *v = (r * br - i * bi, -(r * bi + i * br));
        }
        fft_pow2(&mut a, &b.tw);
        let s = 1.0 / m as f64;
        (0..n).map(|k| {
            let (r, i) = (a[k].0 * s, -a[k].1 * s);
            let (cr, ci) = b.chirp[k];
            let (zr, zi) = (r * cr - i * ci, r * ci + i * cr);
            zr - zi
        }).collect()
    }
}
static CACHE: Mutex<Option<HashMap<usize, Arc<Ref>>>> = Mutex::new(None);
pub fn reference(n: usize) -> Arc<Ref> {
    {
        let mut g = CACHE.lock().unwrap();
        if let Some(r) = g.get_or_insert_with(HashMap::new).get(&n) { return r.clone(); }
    }
    let r = Arc::new(Ref::new(n));
    if n <= 8192 {
        let mut g = CACHE.lock().unwrap();
        let m = g.get_or_insert_with(HashMap::new);
        if m.len() > 6000 { m.clear(); }
        m.insert(n, r.clone());
    }
    r
}
/// the two reference methods must agree with each other before any verdict is believed
pub fn self_test() -> Result<(), String> {
    let mut rng = crate::rng::Rng::new(7);
    for &n in &[1usize, 2, 3, 4, 5, 8, 12, 97, 768, 769, 1000, 1024, 1031, 2187, 4096, 5000] {
        let x: Vec<f64> = (0..n).map(|_| rng.sym()).collect();
        let r = Ref::new(n);
        let y = r.dht(&x);
        let norm = (x.iter().map(|v| v * v).sum::<f64>() * n as f64).sqrt();
        let mut e2 = 0.0;
        let step = (n / 200).max(1);
        for k in (0..n).step_by(step) {
            // long-hand definition with libm on the reduced angle
            let mut s = 0.0;
            for (i, &v) in x.iter().enumerate() {
                let a = 2.0 * std::f64::consts::PI * ((i * k) % n) as f64 / n as f64;
                s += v * (a.cos() + a.sin());
            }
            e2 += (s - y[k]).powi(2);
        }
        if e2.sqrt() > 1e-13 * norm { return Err(format!("reference self-test failed at n={n}: {}", e2.sqrt() / norm)); }
    }
    Ok(())
}
