//! Double-double (about 106-bit) reference transform: exact enough that every ulp of an f64
//! result is attributable to the code under test.
use std::ops::*;

#[derive(Clone, Copy, Debug)]
pub struct DD(pub f64, pub f64);
#[inline(always)]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline(always)]
fn quick(a: f64, b: f64) -> DD {
    let s = a + b;
    DD(s, b - (s - a))
}
#[inline(always)]
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let h = t - (t - a);
    (h, a - h)
}
#[inline(always)]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}
impl Add for DD { type Output = DD; #[inline(always)] fn add(self, o: DD) -> DD {
    let (s, e) = two_sum(self.0, o.0);
    quick(s, e + (self.1 + o.1))
} }
impl Neg for DD { type Output = DD; #[inline(always)] fn neg(self) -> DD { DD(-self.0, -self.1) } }
impl Sub for DD { type Output = DD; #[inline(always)] fn sub(self, o: DD) -> DD { self + (-o) } }
impl Mul for DD { type Output = DD; #[inline(always)] fn mul(self, o: DD) -> DD {
    let (p, e) = two_prod(self.0, o.0);
    quick(p, e + (self.0 * o.1 + self.1 * o.0))
} }
impl DD {
    fn div(self, o: DD) -> DD {
        let q1 = self.0 / o.0;
        let r = self - o * DD(q1, 0.0);
        let q2 = r.0 / o.0;
        let r = r - o * DD(q2, 0.0);
        let q3 = r.0 / o.0;
        quick(q1, q2) + DD(q3, 0.0)
    }
}
type C = (DD, DD);
const Z: DD = DD(0.0, 0.0);
const PI_4: DD = DD(std::f64::consts::FRAC_PI_4, 3.061616997868383e-17);
fn sincos_small(a: DD) -> C {
    // Taylor series, |a| <= pi/4
    let a2 = a * a;
    let (mut c, mut s) = (DD(1.0, 0.0), a);
    let (mut tc, mut ts) = (DD(1.0, 0.0), a);
    let mut k = 1.0;
    while k < 30.0 {
        tc = -(tc * a2).div(DD(k * (k + 1.0), 0.0));
        ts = -(ts * a2).div(DD((k + 1.0) * (k + 2.0), 0.0));
        c = c + tc;
        s = s + ts;
        if tc.0.abs() < 1e-34 && ts.0.abs() < 1e-34 { break; }
        k += 2.0;
    }
    (c, s)
}
pub fn cis(j: usize, n: usize) -> C {
    let j = j % n;
    let oct = 8 * j / n;
    let r = 8 * j - oct * n;
    let (mut c, mut s) = if oct % 2 == 0 {
        sincos_small(PI_4 * DD(r as f64, 0.0).div(DD(n as f64, 0.0)))
    } else {
        let (a, b) = sincos_small(PI_4 * DD((n - r) as f64, 0.0).div(DD(n as f64, 0.0)));
        (b, a)
    };
    for _ in 0..oct / 2 { let t = c; c = -s; s = t; }
    (c, s)
}
/// exp(-2 pi i k / n) for k < n/2; two-level table, one double-double product each
fn tw_table(n: usize) -> Vec<C> {
    let h = n / 2;
    if h <= 64 { return (0..h).map(|k| { let (c, s) = cis(k, n); (c, -s) }).collect(); }
    let m = 1usize << (h.trailing_zeros() / 2).max(1);
    let lo: Vec<C> = (0..m).map(|k| { let (c, s) = cis(k, n); (c, -s) }).collect();
    let hi: Vec<C> = (0..h / m).map(|k| { let (c, s) = cis(k * m, n); (c, -s) }).collect();
    (0..h).map(|k| mulc(lo[k % m], hi[k / m])).collect()
}
#[inline(always)]
fn mulc(a: C, b: C) -> C { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
fn fft(a: &mut [C], tw: &[C]) {
    let n = a.len();
    if n <= 1 { return; }
    let bits = n.trailing_zeros();
    for i in 0..n {
        let j = i.reverse_bits() >> (usize::BITS - bits);
        if i < j { a.swap(i, j); }
    }
    let mut len = 2;
    while len <= n {
        let step = n / len;
        for base in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let t = mulc(a[base + k + len / 2], tw[k * step]);
                let u = a[base + k];
                a[base + k] = (u.0 + t.0, u.1 + t.1);
                a[base + k + len / 2] = (u.0 - t.0, u.1 - t.1);
            }
        }
        len *= 2;
    }
}
/// transform of x, rounded once to f64
pub fn dht(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    if n == 0 { return vec![]; }
    // keep the Dekker splitting far from overflow and underflow
    let mx = x.iter().fold(0.0f64, |a, v| a.max(v.abs()));
    if mx == 0.0 { return vec![0.0; n]; }
    let sc = 2f64.powi(-(mx.log2().floor() as i32));
    let fin = |v: DD| (v.0 + v.1) / sc;
    if n.is_power_of_two() {
        let tw = tw_table(n);
        let mut a: Vec<C> = x.iter().map(|&v| (DD(v * sc, 0.0), Z)).collect();
        fft(&mut a, &tw);
        return a.iter().map(|&(r, i)| fin(r - i)).collect();
    }
    if n <= 96 {
        let tab: Vec<DD> = (0..n).map(|j| { let (c, s) = cis(j, n); c + s }).collect();
        return (0..n).map(|k| {
            let mut s = Z;
            for (i, &v) in x.iter().enumerate() { s = s + DD(v * sc, 0.0) * tab[(i * k) % n]; }
            fin(s)
        }).collect();
    }
    let m = (2 * n - 1).next_power_of_two();
    let tw = tw_table(m);
    let chirp: Vec<C> = (0..n).map(|k| {
        let q = ((k as u128 * k as u128) % (2 * n as u128)) as usize;
        let (c, s) = cis(q, 2 * n);
        (c, -s)
    }).collect();
    let mut bf = vec![(Z, Z); m];
    for k in 0..n {
        let v = (chirp[k].0, -chirp[k].1);
        bf[k] = v;
        if k > 0 { bf[m - k] = v; }
    }
    fft(&mut bf, &tw);
    let mut a = vec![(Z, Z); m];
    for k in 0..n { let v = DD(x[k] * sc, 0.0); a[k] = (v * chirp[k].0, v * chirp[k].1); }
    fft(&mut a, &tw);
    for (v, &b) in a.iter_mut().zip(&bf) { let p = mulc(*v, b); *v = (p.0, -p.1); }
    fft(&mut a, &tw);
    let s = 1.0 / m as f64;
    (0..n).map(|k| {
        let z = mulc((DD(a[k].0 .0 * s, a[k].0 .1 * s), DD(-a[k].1 .0 * s, -a[k].1 .1 * s)), chirp[k]);
        fin(z.0 - z.1)
    }).collect()
}
/// long-hand double-double bins against the fast path; also cos^2+sin^2
pub fn self_test() -> Result<(), String> {
    let mut rng = crate::rng::Rng::new(9);
    for &n in &[5usize, 97, 128, 1000, 1024] {
        let x: Vec<f64> = (0..n).map(|_| rng.sym()).collect();
        let y = dht(&x);
        let tab: Vec<DD> = (0..n).map(|j| { let (c, s) = cis(j, n); c + s }).collect();
        let norm = (x.iter().map(|v| v * v).sum::<f64>()).sqrt();
        for k in (0..n).step_by(n / 5) {
            let mut s = Z;
            for (i, &v) in x.iter().enumerate() { s = s + DD(v, 0.0) * tab[(i * k) % n]; }
            let e = ((s.0 + s.1) - y[k]).abs();
            // one final rounding each
            if e > 2.3e-16 * y[k].abs() + 1e-24 * norm { return Err(format!("double-double self-test failed: n={n} k={k} error {e:e}")); }
        }
        for j in 0..n {
            let (c, s) = cis(j, n);
            let q = c * c + s * s - DD(1.0, 0.0);
            if q.0.abs() > 1e-30 { return Err(format!("double-double self-test: cis({j},{n}) has norm error {:e}", q.0)); }
            let (c2, s2) = crate::refdht::cis(j, n);
            if (c.0 - c2).abs() > 2e-16 || (s.0 - s2).abs() > 2e-16 { return Err(format!("double-double self-test: cis({j},{n}) disagrees with libm")); }
        }
    }
    Ok(())
}
