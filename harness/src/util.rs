//! Helpers shared by all checks: entry points, signals, comparisons.
use crate::engine::lib;
use crate::nums::Hn;
use crate::plan::Plan;
use crate::refdht::reference;
use crate::rng::Rng;
use rustdht::Dht;
use std::sync::Arc;

/// run `$e` with `$T` bound to the element type named by `$n`
#[macro_export]
macro_rules! ty {
    ($n:expr, $T:ident => $e:expr) => {
        match $n {
            "f32" => { type $T = f32; $e }
            "f64" => { type $T = f64; $e }
            "cnt" => { type $T = $crate::nums::Cnt; $e }
            "yld" => { type $T = $crate::nums::Yld; $e }
            "bomb" => { type $T = $crate::nums::Bomb; $e }
            "fat" => { type $T = $crate::nums::Fat; $e }
            "byte4" => { type $T = $crate::nums::Byte4; $e }
            "swp8" => { type $T = $crate::nums::Swp8; $e }
            "tag16" => { type $T = $crate::nums::Tag16; $e }
            "tri12" => { type $T = $crate::nums::Tri12; $e }
            "odd9" => { type $T = $crate::nums::Odd9; $e }
            "dual" => { type $T = $crate::nums::Dual; $e }
            o => panic!("dhtmon: unknown type {o}"),
        }
    };
}
#[macro_export]
macro_rules! ty2 {
    ($n:expr, $T:ident => $e:expr) => {
        match $n {
            "f32" => { type $T = f32; $e }
            "f64" => { type $T = f64; $e }
            o => panic!("dhtmon: unknown type {o}"),
        }
    };
}
/// the types of every size and alignment (C15)
#[macro_export]
macro_rules! tysz {
    ($n:expr, $T:ident => $e:expr) => {
        match $n {
            "s2a1" => { type $T = $crate::nums::S2a1; $e }
            "s2a2" => { type $T = $crate::nums::S2a2; $e }
            "s3a1" => { type $T = $crate::nums::S3a1; $e }
            "s4a4" => { type $T = $crate::nums::Notf32; $e }
            "s4a2" => { type $T = $crate::nums::S4a2; $e }
            "s6a2" => { type $T = $crate::nums::S6a2; $e }
            "s8a8" => { type $T = $crate::nums::Notf64; $e }
            "s8a4" => { type $T = $crate::nums::S8a4; $e }
            "s8a1" => { type $T = $crate::nums::S8a1; $e }
            "s10a2" => { type $T = $crate::nums::S10a2; $e }
            "s12a4" => { type $T = $crate::nums::S12a4; $e }
            "s16a16" => { type $T = $crate::nums::S16a16; $e }
            "s16a8" => { type $T = $crate::nums::S16a8; $e }
            "s16a4" => { type $T = $crate::nums::S16a4; $e }
            "s16a1" => { type $T = $crate::nums::S16a1; $e }
            "s24a8" => { type $T = $crate::nums::S24a8; $e }
            "s32a32" => { type $T = $crate::nums::S32a32; $e }
            "s32a16" => { type $T = $crate::nums::S32a16; $e }
            "s32a8" => { type $T = $crate::nums::S32a8; $e }
            "s64a64" => { type $T = $crate::nums::S64a64; $e }
            "s64a8" => { type $T = $crate::nums::S64a8; $e }
            "s256a128" => { type $T = $crate::nums::S256a128; $e }
            o => $crate::ty!(o, $T => $e),
        }
    };
}
pub const SIZED: [&str; 22] = ["s2a1", "s2a2", "s3a1", "s4a4", "s4a2", "s6a2", "s8a8", "s8a4", "s8a1", "s10a2", "s12a4", "s16a16", "s16a8", "s16a4", "s16a1", "s24a8", "s32a32", "s32a16", "s32a8", "s64a64", "s64a8", "s256a128"];
pub const ENTRIES: [&str; 3] = ["process", "process_with_scratch", "process_outofplace_with_scratch"];

/// garbage: 0 zeros, 1 NaN, 2 +-inf, 3 huge, 4 random, 5 mixture, 6 random with zeros in places, 7 tiny
pub const FILLS: usize = 8;
pub fn garbage<T: Hn>(n: usize, kind: usize, rng: &mut Rng) -> Vec<T> {
    (0..n).map(|i| T::f(match kind {
        0 => 0.0,
        1 => f64::NAN,
        2 => if i % 2 == 0 { f64::INFINITY } else { f64::NEG_INFINITY },
        3 => 1.0e30,
        4 => 100.0 * rng.sym(),
        6 => if i % 3 == 0 { if i % 2 == 0 { 0.0 } else { -0.0 } } else { 7.0 * rng.sym() },
        7 => 1.0e-40 * rng.sym(),
        _ => match rng.below(4) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => -3.0e25, _ => rng.sym() },
    })).collect()
}
pub fn make<T: Hn>(p: &Plan) -> Result<Arc<dyn Dht<T>>, String> {
    lib(|| p.build::<T>()).map_err(|m| format!("constructing {p} over {} panicked: {m}", T::NAME))
}
/// one call with exactly the reported amount of scratch
pub fn call<T: Hn>(d: &dyn Dht<T>, e: usize, x: &[T], fill: usize, rng: &mut Rng) -> Result<Vec<T>, String> {
    call_ext(d, e, x, fill, 0, rng)
}
/// The slices of one call lie at random element offsets, and half of the time back to back in one allocation,
/// with sentinels around them that must survive.
pub fn call_ext<T: Hn>(d: &dyn Dht<T>, e: usize, x: &[T], fill: usize, extra: usize, rng: &mut Rng) -> Result<Vec<T>, String> {
    let sl = match e { 0 => 0, 1 => d.get_inplace_scratch_len() + extra, _ => d.get_outofplace_scratch_len() + extra };
    let ol = if e == 2 { x.len() } else { 0 };
    let mark = T::f(-77.125);
    let (pa, pz) = (rng.below(4), 1 + rng.below(3));
    let r;
    let out;
    let mut torn = false;
    if rng.chance(1, 2) {
        let order = rng.below(2);
        let gap = rng.below(2);
        let mut all = Vec::with_capacity(pa + x.len() + ol + sl + 2 * gap + pz);
        all.resize(pa, mark);
        let (g_out, g_sc) = (garbage::<T>(ol, fill, rng), garbage::<T>(sl, fill, rng));
        let parts: [&[T]; 3] = if order == 0 { [x, &g_out, &g_sc] } else { [&g_sc, &g_out, x] };
        for (i, p) in parts.iter().enumerate() { all.extend_from_slice(p); if i < 2 { all.extend(std::iter::repeat_n(mark, gap)); } }
        all.extend(std::iter::repeat_n(mark, pz));
        let (l0, l1, l2) = (parts[0].len(), parts[1].len(), parts[2].len());
        let (s0, rest) = all[pa..].split_at_mut(l0);
        let rest = &mut rest[gap..];
        let (s1, rest) = rest.split_at_mut(l1);
        let rest = &mut rest[gap..];
        let (s2, _) = rest.split_at_mut(l2);
        let (b, o, sc) = if order == 0 { (s0, s1, s2) } else { (s2, s1, s0) };
        r = run_entry(d, e, b, o, sc);
        out = if e == 2 { o.to_vec() } else { b.to_vec() };
        let tail = pa + l0 + l1 + l2 + 2 * gap;
        for i in (0..pa).chain(tail..tail + pz).chain(pa + l0..pa + l0 + gap).chain(pa + l0 + gap + l1..pa + l0 + gap + l1 + gap) { if all[i].bits() != mark.bits() { torn = true } }
    } else {
        let mut buf = Vec::with_capacity(pa + x.len() + pz);
        buf.resize(pa, mark);
        buf.extend_from_slice(x);
        buf.extend(std::iter::repeat_n(mark, pz));
        let mut sc = garbage::<T>(sl, fill, rng);
        let mut o = garbage::<T>(ol, fill, rng);
        r = run_entry(d, e, &mut buf[pa..pa + x.len()], &mut o, &mut sc);
        for i in (0..pa).chain(pa + x.len()..buf.len()) { if buf[i].bits() != mark.bits() { torn = true } }
        out = if e == 2 { o } else { buf.drain(..pa); buf.truncate(x.len()); buf };
    }
    if torn { return Err(format!("{} call (length {}, {} elements) changed elements outside its slices", ENTRIES[e], d.len(), x.len())); }
    match r {
        Ok(()) => Ok(out),
        Err(m) => Err(format!("well-sized {} call (length {}, {} elements) panicked: {m}", ENTRIES[e], d.len(), x.len())),
    }
}
fn run_entry<T: Hn>(d: &dyn Dht<T>, e: usize, b: &mut [T], o: &mut [T], sc: &mut [T]) -> Result<(), String> {
    match e {
        0 => lib(|| d.process(b)),
        1 => lib(|| d.process_with_scratch(b, sc)),
        _ => lib(|| d.process_outofplace_with_scratch(b, o, sc)),
    }
}
pub const SIGNALS: usize = 29;
pub fn signal(kind: usize, n: usize, rng: &mut Rng) -> Vec<f64> {
    let mut v = vec![0.0; n];
    if n == 0 { return v; }
    let f = 2.0 * std::f64::consts::PI / n as f64;
    match kind {
        0 => for e in v.iter_mut() { *e = rng.sym() },
        1 => for e in v.iter_mut() { *e = rng.sym() * 10f64.powf(6.0 * rng.sym()) },
        2 => { let i = rng.below(n); v[i] = if rng.chance(1, 2) { 1.0 } else { -3.0 } }
        3 => { let c = 4.0 * rng.sym(); v.iter_mut().for_each(|e| *e = c) }
        4 => {}
        5 => { let k = rng.below(n); let ph = rng.sym() * 3.0; for (i, e) in v.iter_mut().enumerate() { *e = (f * ((i as u128 * k as u128) % n as u128) as f64 + ph).cos() } }
        6 => for _ in 0..3 { let i = rng.below(n); v[i] = 10.0 * rng.sym() },
        7 => for e in v.iter_mut() { *e = rng.below(21) as f64 - 10.0 },
        8 => for (i, e) in v.iter_mut().enumerate() { *e = if i % 2 == 0 { 1.0 } else { -1.0 } },
        9 => for (i, e) in v.iter_mut().enumerate() { *e = i as f64 - n as f64 * 0.3 },
        10 => { let s = 10f64.powi(rng.range(0, 36) as i32 - 18); for e in v.iter_mut() { *e = rng.sym() * s } }
        11 => for e in v.iter_mut() { *e = -1.0 - 9.0 * rng.sym().abs() },
        12 => { v[0] = 1.0; v[n - 1] = -2.0; v[n / 2] += 0.5 }
        // one half silent
        13 => { let h = n / 2; let r = if rng.chance(1, 2) { h..n } else { 0..h.max(1) }; for e in &mut v[r] { *e = rng.sym() } }
        // mostly zeros, some of them negative
        14 => for e in v.iter_mut() { *e = match rng.below(4) { 0 => rng.sym(), 1 => -0.0, _ => 0.0 } },
        // even or odd symmetry about index 0
        15 => { let sg = if rng.chance(1, 2) { 1.0 } else { -1.0 }; for i in 0..=n / 2 { let a = rng.sym(); v[i] = a; v[(n - i) % n] = if 2 * i % n == 0 && sg < 0.0 { 0.0 } else { sg * a }; } }
        // equal magnitudes, random signs
        16 => for e in v.iter_mut() { *e = if rng.chance(1, 2) { 1.0 } else { -1.0 } },
        // periodic
        17 => { let q = rng.range(1, n); let q = (1..=q).rev().find(|d| n % d == 0).unwrap(); let t: Vec<f64> = (0..q).map(|_| rng.sym()).collect(); for (i, e) in v.iter_mut().enumerate() { *e = t[i % q] } }
        // sums that cancel exactly: two opposite clicks; integers with exact zero mean and zero first element
        19 => { let (i, j) = (rng.range(n.min(2) - 1, n - 1), rng.range(n.min(2) - 1, n - 1)); let c = 1.0 + rng.below(4) as f64; v[i] += c; v[j] -= c }
        20 => { let mut t = 0.0; for e in v.iter_mut().skip(1) { *e = rng.below(21) as f64 - 10.0; t += *e } v[n - 1] -= t; if n == 1 { v[0] = 1.0 } }
        // second half repeats or negates the first
        21 => { let h = n / 2; let sg = if rng.chance(1, 2) { 1.0 } else { -1.0 }; for i in 0..n { v[i] = if i >= h && i - h < h && h > 0 { sg * v[i - h] } else { rng.sym() } } }
        // all equal but one; two levels; first/last elements zero
        22 => { let c = 1.0 + rng.below(3) as f64; v.iter_mut().for_each(|e| *e = c); let i = rng.below(n); v[i] = -c * rng.below(3) as f64 }
        23 => { let i = rng.below(n); for (j, e) in v.iter_mut().enumerate() { *e = if j < i { 2.0 } else { -1.0 } } }
        24 => { for e in v.iter_mut() { *e = rng.sym() } v[0] = 0.0; if rng.chance(1, 2) { v[n - 1] = 0.0 } if rng.chance(1, 2) { v[n / 2] = 0.0 } if n <= 2 { v[n - 1] = 1.0 } }
        // palindrome
        25 => for i in 0..=(n - 1) / 2 { let c = rng.sym(); v[i] = c; v[n - 1 - i] = c },
        // only one residue class modulo a small number is non-zero (whole rows or columns of a decomposition are silent)
        26 => { let q = *rng.pick(&[2usize, 3, 4, 5, 6, 7, 8, 16]); let r = rng.below(q) % n; for (i, e) in v.iter_mut().enumerate() { if i % q == r { *e = rng.sym() } } }
        // ... or one residue class is zero
        27 => { let q = *rng.pick(&[2usize, 3, 4, 5, 6, 7, 8, 16]); let r = rng.below(q); for (i, e) in v.iter_mut().enumerate() { if i % q != r || n == 1 { *e = rng.sym() } } }
        // a short burst
        28 => { let l = rng.range(1, n); let l = rng.range(1, l); let i = rng.below(n - l + 1); for e in &mut v[i..i + l] { *e = rng.sym() } }
        // one dominating value
        _ => { for e in v.iter_mut() { *e = rng.sym() } let i = rng.below(n); v[i] = 1.0e4 }
    }
    v
}
/// changes a signal in a way that keeps most of what a fingerprint would look at
pub fn alike_step(cur: &mut Vec<f64>, sg: usize, rng: &mut Rng) -> usize {
    let n = cur.len();
    let w = rng.below(12);
    match w {
        0 => {}
        1 => cur.rotate_left(1),
        2 => if n > 3 { cur[1..n - 1].rotate_right(1) },
        3 => if n > 3 { cur[1..n - 1].reverse() },
        4 => { let i = rng.below(n); cur[i] += 1.0 }
        5 => if n > 3 { let (i, j) = (rng.range(1, n - 2), rng.range(1, n - 2)); cur.swap(i, j) },
        6 => cur.iter_mut().for_each(|v| *v = -*v),
        // same sum, same ends
        7 => if n > 4 { let (i, j) = (rng.range(1, n - 2), rng.range(1, n - 2)); cur[i] += 1.0; cur[j] -= 1.0 },
        // only the last / only the first / only a middle element
        8 => cur[n - 1] += 1.0,
        9 => cur[0] -= 1.0,
        10 => { let i = n / 2; cur[i] = -cur[i] + 0.5 }
        _ => *cur = signal(sg, n, rng),
    }
    w
}
pub fn to_t<T: Hn>(x: &[f64]) -> Vec<T> { x.iter().map(|&v| T::f(v)).collect() }
pub fn to_d<T: Hn>(x: &[T]) -> Vec<f64> { x.iter().map(|v| v.d()).collect() }
pub fn norm(x: &[f64]) -> f64 {
    let m = x.iter().fold(0.0f64, |a, v| a.max(v.abs()));
    if m == 0.0 || !m.is_finite() { return m; }
    // compensated: one dominating element and thousands of small ones must not lose the small ones
    let (mut sum, mut c) = (0.0f64, 0.0f64);
    for v in x {
        let q = (v / m) * (v / m);
        let t = sum + q;
        c += if sum >= q { (sum - t) + q } else { (q - t) + sum };
        sum = t;
    }
    m * (sum + c).sqrt()
}
/// (relative L2 error, worst element error relative to the rms of the reference, index of it)
pub fn err(y: &[f64], r: &[f64], scale: f64) -> (f64, f64, usize) {
    if y.len() != r.len() { return (f64::INFINITY, f64::INFINITY, 0); }
    if let Some(i) = y.iter().position(|v| !v.is_finite()) { return (f64::INFINITY, f64::INFINITY, i); }
    let d: Vec<f64> = y.iter().zip(r).map(|(a, b)| a - b).collect();
    let (mut wi, mut w) = (0, 0.0);
    for (i, v) in d.iter().enumerate() { if v.abs() > w { w = v.abs(); wi = i } }
    let nd = norm(&d);
    if nd == 0.0 { return (0.0, 0.0, wi); }
    if scale == 0.0 { return (f64::INFINITY, f64::INFINITY, wi); }
    (nd / scale, w / (scale / (r.len() as f64).sqrt()), wi)
}
/// reference transform and the norm of the exact result
pub fn refer<T: Hn>(x: &[T]) -> (Vec<f64>, f64) {
    let xd = to_d(x);
    let r = reference(x.len()).dht(&xd);
    let sc = norm(&xd) * (x.len() as f64).sqrt();
    (r, sc)
}
pub fn judge<T: Hn>(p: &Plan, e: &str, y: &[T], r: &[f64], sc: f64, tol: f64) -> Result<f64, String> {
    let (l2, _w, i) = err(&to_d(y), r, sc);
    if l2 > tol {
        return Err(format!("{p} over {} via {e}: relative error {:.3e} exceeds {:.3e}; worst at index {i}: got {:?}, expected {:?}", T::NAME, l2, tol, y[i].d(), r[i]));
    }
    Ok(l2)
}
pub fn same_bits<T: Hn>(a: &[T], b: &[T]) -> Option<usize> {
    if a.len() != b.len() { return Some(0); }
    a.iter().zip(b).position(|(x, y)| {
        let (u, v) = (x.d(), y.d());
        !(x.bits() == y.bits() || (u.is_nan() && v.is_nan()) || (u == 0.0 && v == 0.0))
    })
}
pub fn bits_of<T: Hn>(a: &[T]) -> Vec<u64> {
    a.iter().map(|x| { let d = x.d(); if d.is_nan() { 1 } else if d == 0.0 { 0 } else { d.to_bits() } }).collect()
}
pub fn key(parts: &[&str]) -> u64 {
    let mut h = 1469598103934665603u64;
    for p in parts { h = crate::rng::mix(h, crate::rng::hash_str(p)); }
    h
}
/// shuffle `v` in place
pub fn shuffle<X>(v: &mut Vec<X>, rng: &mut Rng) {
    for i in (1..v.len()).rev() { let j = rng.below(i + 1); v.swap(i, j); }
}
pub fn dedup(v: Vec<Plan>) -> Vec<Plan> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|p| seen.insert(p.to_string())).collect()
}
