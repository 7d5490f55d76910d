//! C01 correctness, C02 precision, C03 entry points, C12 algebraic laws.
use crate::engine::{Opts, Spec, Stats};
use crate::nums::Hn;
use crate::plan::*;
use crate::plan::Plan::*;
use crate::refdht::reference;
use crate::rng::{mix, Rng};
use crate::util::*;
use crate::{ty, ty2};

/// the general workload: catalogue, every length, random trees, long transforms
pub fn workload(o: &Opts, rng: &mut Rng, max_len: usize, trees: usize) -> Vec<Plan> {
    let mut v = catalog(if o.thorough() { 2 } else { 1 });
    for n in 1..=max_len {
        v.push(rand_plan(n, rng, 64));
        if n <= 400 || o.thorough() { v.push(rand_plan(n, rng, 24)); }
    }
    // every algorithm over every moderate inner length (a sample of that grid in the quick tier)
    let all = o.thorough();
    for h in 20..=(if all { 400 } else { 200 }) {
        for k in 2..=6 { if all || rng.chance(1, 2) { v.push(x(k, fast_plan(h, rng))); } }
        if all || rng.chance(1, 2) { v.push(s(fast_plan(h, rng), fast_plan(2 * h, rng))); }
    }
    for w in 2..=40 { for h in 2..=40 { if w.max(h) > 16 && (all || rng.chance(1, 4)) { v.push(m(fast_plan(w, rng), fast_plan(h, rng))); } } }
    // direct sums of moderate length, and lengths next to the sizes an implementation may switch at
    for n in 41..=(if all { 1200 } else { 300 }) { if all || rng.chance(1, 4) { v.push(N(n)); } }
    for q in edge_grid(if all { 200_000 } else { 30_000 }, rng) { if all || rng.chance(1, 4) { v.push(q); } }
    for _ in 0..trees {
        // lengths rich in structure
        let mut n = 1usize;
        let cap = rng.range(50, 6000);
        loop {
            let f = *rng.pick(&[2usize, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17]);
            if n * f > cap { break; }
            n *= f;
        }
        if rng.chance(1, 4) { let mut q = n + 1; while !is_prime(q) { q += 1; } n = q; }
        v.push(rand_plan(n.max(2), rng, 32));
    }
    dedup(v)
}
/// primes p whose p-1 has a repeated or a pair of larger prime factors
pub fn structured_primes(max: usize, count: usize, rng: &mut Rng) -> Vec<usize> {
    let small: Vec<usize> = (3..1000).filter(|&q| is_prime(q)).collect();
    let mut out = std::collections::BTreeSet::new();
    for _ in 0..count * 400 {
        if out.len() >= count { break; }
        let q = *rng.pick(&small[..small.len().min(100)]);
        let r = if rng.chance(1, 2) { q } else { *rng.pick(&small) };
        let base = q * r * if rng.chance(1, 8) { q } else { 1 };
        if base * 2 >= max { continue; }
        let c = 2 * rng.range(1, (max / base / 2).min(40).max(1));
        if base * c < max && base * c + 1 > 4000 && is_prime(base * c + 1) { out.insert(base * c + 1); }
    }
    out.into_iter().collect()
}
pub mod c01 {
    use super::*;
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 101));
        let t = o.thorough();
        let mut big = Vec::new();
        for p in big_catalog(t, &mut rng) {
            let n = p.len();
            if !t && n > 2_200_000 { continue; }
            if !t && n > 600_000 { big.push(format!("sig;plan={p};ty={};sig=0;seed={}", rng.pick(&["f64", "f32"]), rng.next())); continue; }
            for ty in ["f64", "f32"] { big.push(format!("sig;plan={p};ty={ty};sig=0;seed={}", rng.next())); }
            if n <= 140_000 { big.push(format!("sig;plan={p};ty=f64;sig={};seed={}", rng.range(1, SIGNALS - 1), rng.next())); }
        }
        big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len()));
        let mut v = Vec::new();
        let w = workload(o, &mut rng, if t { 3000 } else { 1100 }, if t { 30000 } else { 2500 });
        for p in &w {
            let n = p.len();
            if n <= if t { 256 } else { 144 } {
                for ty in ["f64", "f32"] { v.push(format!("basis;plan={p};ty={ty};seed={}", rng.next())); }
            }
            let sigs = if n <= 64 { 1000 } else if n <= 2500 { 4 } else { 2 };
            for ty in ["f64", "f32"] {
                if sigs == 1000 { for s in 0..SIGNALS { v.push(format!("sig;plan={p};ty={ty};sig={s};seed={}", rng.next())); } }
                else {
                    v.push(format!("sig;plan={p};ty={ty};sig=0;seed={}", rng.next()));
                    for _ in 1..sigs { v.push(format!("sig;plan={p};ty={ty};sig={};seed={}", rng.range(1, SIGNALS - 1), rng.next())); }
                }
            }
        }
        // the number theory behind the prime-length transform: every prime up to a bound, and longer ones with p-1 = c*q^2, c*q*r, c*q^3
        for pr in 3..=(if t { 60_000 } else { 16_000 }) {
            if is_prime(pr) { v.push(format!("prime;plan={};ty={};sig=0;seed={}", a(fast_plan(pr - 1, &mut rng)), if pr % 8 == 3 { "f32" } else { "f64" }, rng.next())); }
        }
        // least primitive root larger than that of every smaller prime
        for pr in [36721, 55441, 71761, 110881, 760321].iter().chain(if t { &[5109721usize][..] } else { &[] }) {
            v.insert(0, format!("prime;plan={};ty=f64;sig=0;seed={}", a(fast_plan(pr - 1, &mut rng)), rng.next()));
        }
        // direct sums: every length up to a bound, and a few long ones
        for n in 41..=(if t { 2500 } else { 700 }) { v.push(format!("grid;plan={};ty=f64;sig=0;seed={}", N(n), rng.next())); }
        for i in 0..(if t { 400 } else { 40 }) {
            let n = if i < 12 { EDGES[i] + rng.below(5) - 2 } else { rng.range(600, 5000) };
            if n <= 20_000 || t { v.push(format!("grid;plan={};ty=f64;sig=0;seed={}", N(n), rng.next())); }
        }
        big.insert(0, format!("grid;plan={};ty=f64;sig=0;seed={}", N(65_560 + rng.below(200)), rng.next()));
        for p in edge_grid(if t { 400_000 } else { 140_000 }, &mut rng) {
            v.push(format!("grid;plan={p};ty={};sig=0;seed={}", rng.pick(&["f64", "f32"]), rng.next()));
        }
        // the full grid of algorithm x inner length, one entry point each
        for h in 20..=(if t { 1800 } else { 900 }) {
            for k in 2..=6 { v.push(format!("grid;plan={};ty={};sig=0;seed={}", x(k, fast_plan(h, &mut rng)), rng.pick(&["f64", "f32"]), rng.next())); }
            v.push(format!("grid;plan={};ty={};sig=0;seed={}", s(fast_plan(h, &mut rng), fast_plan(2 * h, &mut rng)), rng.pick(&["f64", "f32"]), rng.next()));
        }
        for wd in 2..=(if t { 200 } else { 100 }) { for h in 2..=(if t { 200 } else { 100 }) {
            v.push(format!("grid;plan={};ty={};sig=0;seed={}", m(fast_plan(wd, &mut rng), fast_plan(h, &mut rng)), rng.pick(&["f64", "f32"]), rng.next()));
        } }
        for pr in structured_primes(if t { 700_000 } else { 200_000 }, if t { 3000 } else { 250 }, &mut rng) {
            v.push(format!("prime;plan={};ty=f64;sig=0;seed={}", a(fast_plan(pr - 1, &mut rng)), rng.next()));
        }
        shuffle(&mut v, &mut rng);
        big.extend(v);
        big
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> { ty2!(s.get("ty"), T => go::<T>(s, st)) }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let mut rng = Rng::new(s.seed());
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        let tol = 8.0 * p.budget() * T::EPS;
        let name = p.to_string();
        if s.kind() == "basis" {
            let r = reference(n);
            let mut worst = 0.0f64;
            for e in 0..3 {
                for j in 0..n {
                    let mut x = vec![T::zero(); n];
                    x[j] = T::one();
                    let y = call(&*d, e, &x, (j + e) % FILLS, &mut rng)?;
                    for (k, v) in y.iter().enumerate() {
                        let c = r.cas(j, k);
                        let dlt = (v.d() - c).abs();
                        if !(dlt <= 1.5 * tol) {
                            return Err(format!("{p} over {} via {}: unit impulse at {j}: X[{k}] = {:?}, expected {:?}", T::NAME, ENTRIES[e], v.d(), c));
                        }
                        worst = worst.max(dlt / tol);
                    }
                    st.eval(key(&[&name, T::NAME, ENTRIES[e], "basis", &j.to_string()]), n > 1, n as u64);
                }
            }
            st.inc("full_impulse_bases", 3);
            st.maxf("basis_error_over_tolerance", worst);
            return Ok(());
        }
        let sg = s.num("sig");
        let x: Vec<T> = to_t(&signal(sg, n, &mut rng));
        let (r, sc) = refer(&x);
        if s.kind() == "prime" { st.inc("prime_lengths_swept", 1); }
        if s.kind() == "grid" { st.inc("algorithm_length_grid_points", 1); }
        let only = if s.kind() != "sig" { Some(rng.below(2) + 1) } else { None };
        for e in 0..3 {
            if only.is_some_and(|o| o != e) { continue; }
            let y = call(&*d, e, &x, rng.below(FILLS), &mut rng)?;
            let l = judge(&p, ENTRIES[e], &y, &r, sc, tol)?;
            st.maxf("error_over_tolerance", l / tol);
            st.maxf(&format!("error_over_tolerance_{}", p.top()), l / tol);
            st.eval(key(&[&name, T::NAME, ENTRIES[e], &sg.to_string(), s.opt("seed").unwrap_or("")]), n > 1 && sg != 4, n as u64);
        }
        if n > 100 { st.sample(|| format!("{} -> all {} outputs of 3 entry points within {:.1e} relative of the definition", s.0, n, tol)); }
        Ok(())
    }
}
pub mod c02 {
    use super::*;
    /// plans whose error must be within a small multiple of the rms model
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 102));
        let t = o.thorough();
        let mut big = Vec::new();
        for p in big_catalog(t, &mut rng) {
            let n = p.len();
            let reps = if n <= 70_000 { 2 } else { 1 };
            for ty in ["f64", "f32"] {
                if !t && n > 600_000 && ty == "f32" && rng.chance(1, 2) { continue; }
                for i in 0..reps { big.push(format!("prec;plan={p};ty={ty};sig={};seed={}", if i == 0 { 0 } else { *rng.pick(&[5usize, 7, 9, 10]) }, rng.next())); }
            }
        }
        big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len()));
        let mut v = Vec::new();
        for p in catalog(if t { 2 } else { 1 }) {
            for ty in ["f64", "f32"] { v.push(format!("prec;plan={p};ty={ty};sig=0;seed={}", rng.next())); }
        }
        for n in 2..=(if t { 6000 } else { 2500 }) {
            for ty in ["f64", "f32"] {
                let p = if rng.chance(1, 2) { fast_plan(n, &mut rng) } else { rand_plan(n, &mut rng, 32) };
                v.push(format!("prec;plan={p};ty={ty};sig=0;seed={}", rng.next()));
            }
        }
        for _ in 0..(if t { 3000 } else { 300 }) {
            let n = rng.range(2500, if t { 60_000 } else { 16_000 });
            let p = fast_plan(n, &mut rng);
            v.push(format!("prec;plan={p};ty={};sig=0;seed={}", rng.pick(&["f64", "f32"]), rng.next()));
        }
        shuffle(&mut v, &mut rng);
        big.extend(v);
        big
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> { ty2!(s.get("ty"), T => go::<T>(s, st)) }
    /// allowed multiple of the rms model: concentrated for long random inputs, looser for short or structured ones
    pub fn factor(n: usize, sig: usize) -> f64 {
        let structured = if sig == 0 { 1.0 } else { 3.0 };
        structured * if n >= 256 { 4.0 } else if n >= 32 { 5.0 } else { 8.0 }
    }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let mut rng = Rng::new(s.seed());
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        let sg = s.num("sig");
        let x: Vec<T> = to_t(&signal(sg, n, &mut rng));
        // f64 results are judged against a double-double reference; only the very longest fall back
        // to an f64 reference, whose own rounding is then allowed for
        let sc = norm(&to_d(&x)) * (n as f64).sqrt();
        let dd = T::EPS > 1e-10 || n <= s.opt("ddmax").map(|v| v.parse().unwrap()).unwrap_or(300_000);
        let (r, model) = if T::EPS > 1e-10 { (refer(&x).0, p.rms()) }
            else if dd { (crate::refdd::dht(&to_d(&x)), 1.6 * p.rms()) } // f64 trig tables carry a rounded angle
            else { (refer(&x).0, 1.6 * p.rms() + 0.3 * (2.0 + (n as f64).log2())) };
        st.inc(if T::EPS > 1e-10 { "judged_by_f64_reference_for_f32" } else if dd { "judged_by_double_double_reference" } else { "judged_by_f64_reference_for_f64" }, 1);
        let tol = factor(n, sg) * model * T::EPS;
        let name = p.to_string();
        for e in 0..3 {
            if e == 0 && n > 200_000 { continue; }
            let y = call(&*d, e, &x, 4, &mut rng)?;
            let l = judge(&p, ENTRIES[e], &y, &r, sc, tol)?;
            let (_, w, i) = err(&to_d(&y), &r, sc);
            // no single output may stick out of the bulk either
            let wt = tol * (2.5 * (2.0 * (n as f64 + 2.0).ln()).sqrt()).min((n as f64).sqrt() + 1.0);
            if sg == 0 && w > wt {
                return Err(format!("{p} over {} via {}: output {i} is off by {:.3e} of the rms value (allowed {:.3e}), while the overall error is {:.3e}", T::NAME, ENTRIES[e], w, wt, l));
            }
            st.maxf(&format!("error_over_tolerance_{}_{}", p.top(), T::NAME), l / tol);
            st.maxf("single_output_error_over_tolerance", if sg == 0 { w / wt } else { 0.0 });
            st.maxf(&format!("error_in_eps_{}", T::NAME), l / T::EPS);
            st.eval(key(&[&name, T::NAME, ENTRIES[e], s.opt("seed").unwrap_or("")]), n > 2, n as u64);
        }
        if n > 2000 { st.sample(|| format!("{} -> within {:.2} eps (rms)", s.0, tol / T::EPS)); }
        Ok(())
    }
}
pub mod c03 {
    use super::*;
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 103));
        let t = o.thorough();
        let mut big = Vec::new();
        for p in big_catalog(t, &mut rng) {
            if p.len() > if t { 2_200_000 } else { 140_000 } { continue; }
            big.push(format!("ent;plan={p};ty={};k=1;sig=0;seed={}", rng.pick(&["f64", "f32"]), rng.next()));
        }
        big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len()));
        let mut v = Vec::new();
        for p in workload(o, &mut rng, if t { 3000 } else { 1100 }, if t { 60000 } else { 15000 }) {
            let n = p.len();
            for ty in ["f64", "f32"] {
                for i in 0..(if n <= 200 { 4 } else { 2 }) {
                    v.push(format!("ent;plan={p};ty={ty};k={};sig={};seed={}", [1, 2, 1, 3][i], rng.below(SIGNALS), rng.next()));
                }
            }
            // also for instrumented element types, where the compiler cannot vectorise the paths alike
            if rng.chance(1, 4) { v.push(format!("ent;plan={p};ty={};k=1;sig=0;seed={}", rng.pick(&["fat", "byte4", "cnt", "dual", "swp8", "tag16"]), rng.next())); }
        }
        shuffle(&mut v, &mut rng);
        big.extend(v);
        big
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> { ty!(s.get("ty"), T => go::<T>(s, st)) }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let k = s.num("k");
        let mut rng = Rng::new(s.seed());
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        let x: Vec<T> = to_t(&signal(s.num("sig"), n * k, &mut rng));
        let fill = rng.below(FILLS);
        // the out-of-place call first, with sentinels in the output
        let y2 = call(&*d, 2, &x, fill, &mut rng)?;
        let y1 = call(&*d, 1, &x, fill, &mut rng)?;
        let y0 = call(&*d, 0, &x, fill, &mut rng)?;
        let sc = norm(&to_d(&x)) * (n as f64).sqrt();
        let tol = 8.0 * p.budget() * T::EPS * if k > 1 { 1.5 } else { 1.0 };
        let base = to_d(&y1);
        for (y, e) in [(&y0, 0), (&y2, 2)] {
            let (l, _, i) = err(&to_d(y), &base, sc);
            let l = if base.iter().all(|v| v.is_finite()) { l } else { f64::INFINITY };
            if l > tol {
                return Err(format!("{p} over {} (batch {k}): {} and {} disagree by {:.3e} relative (allowed {:.3e}); index {i}: {:?} vs {:?}", T::NAME, ENTRIES[1], ENTRIES[e], l, tol, base[i], y[i].d()));
            }
            st.maxf("disagreement_over_tolerance", l / tol);
            st.eval(key(&[s.0, ENTRIES[e]]), n > 1 && s.num("sig") != 4, (n * k) as u64);
        }
        if n > 100 { st.sample(|| format!("{} -> three entry points agree on {} outputs", s.0, n * k)); }
        Ok(())
    }
}
pub mod c12 {
    use super::*;
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 112));
        let t = o.thorough();
        let mut big = Vec::new();
        for p in big_catalog(t, &mut rng) {
            if p.len() > if t { 2_200_000 } else { 280_000 } { continue; }
            for ty in ["f64", "f32"] { big.push(format!("law;plan={p};ty={ty};e={};seed={}", rng.below(3), rng.next())); }
        }
        big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len()));
        let mut v = Vec::new();
        for p in workload(o, &mut rng, if t { 3000 } else { 1000 }, if t { 40000 } else { 6000 }) {
            let small = p.len() <= 300;
            for ty in ["f64", "f32"] {
                for e in 0..3 { if small || e == 1 || rng.chance(1, 3) { v.push(format!("law;plan={p};ty={ty};e={e};seed={}", rng.next())); } }
            }
        }
        shuffle(&mut v, &mut rng);
        big.extend(v);
        big
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> { ty2!(s.get("ty"), T => go::<T>(s, st)) }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let e = s.num("e");
        let mut rng = Rng::new(s.seed());
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        let name = p.to_string();
        let tol = 8.0 * p.budget() * T::EPS;
        let k = |w: &str| key(&[&name, T::NAME, ENTRIES[e], w, s.opt("seed").unwrap_or("")]);
        let rf = rng.below(FILLS);
        let sig = if n <= 4096 { rng.below(SIGNALS) } else { 0 };
        let tf = |x: &[T]| call(&*d, e, x, rf, &mut Rng::new(5));
        let sx = signal(if sig == 4 { 0 } else { sig }, n, &mut rng);
        let x: Vec<T> = to_t(&sx);
        let xd = to_d(&x);
        let nx = norm(&xd);
        let rn = (n as f64).sqrt();
        let y = tf(&x)?;
        let yd = to_d(&y);
        // energy
        let (ny, want) = (norm(&yd), nx * rn);
        if !((ny - want).abs() <= tol * want) { return Err(format!("{p} over {} via {}: output norm {ny:e}, expected sqrt(N)*input norm = {want:e} (signal {sig})", T::NAME, ENTRIES[e])); }
        st.maxf("energy_over_tolerance", if want > 0.0 { (ny - want).abs() / (tol * want) } else { 0.0 });
        st.eval(k("energy"), n > 1, n as u64);
        // involution
        let z = tf(&y)?;
        let want: Vec<f64> = xd.iter().map(|v| v * n as f64).collect();
        let (l, _, i) = err(&to_d(&z), &want, nx * n as f64);
        if l > 2.0 * tol { return Err(format!("{p} over {} via {}: transforming twice is off by {l:.3e} relative from N*x; index {i}: {:?}, expected {:?} (signal {sig})", T::NAME, ENTRIES[e], z[i].d(), want[i])); }
        st.maxf("involution_over_tolerance", l / (2.0 * tol));
        st.eval(k("involution"), n > 1, n as u64);
        // linearity
        let u: Vec<T> = to_t(&signal(0, n, &mut rng));
        let (ca, cb) = (T::f((rng.range(1, 9) as f64) - 4.5), T::f(rng.range(1, 5) as f64 * if nx > 0.0 { (nx / rn.max(1.0)).min(1e12).max(1e-12) } else { 1.0 }));
        let w: Vec<T> = x.iter().zip(&u).map(|(&a, &b)| ca * a + cb * b).collect();
        let (yu, yw) = (tf(&u)?, tf(&w)?);
        let want: Vec<f64> = yd.iter().zip(&yu).map(|(a, b)| ca.d() * a + cb.d() * b.d()).collect();
        let scale = (ca.d().abs() * nx + cb.d().abs() * norm(&to_d(&u))) * rn;
        let (l, _, i) = err(&to_d(&yw), &want, scale);
        if l > 3.0 * tol { return Err(format!("{p} over {} via {}: T(a*x+b*u) differs from a*T(x)+b*T(u) by {l:.3e} relative; index {i}: {:?}, expected {:?}", T::NAME, ENTRIES[e], yw[i].d(), want[i])); }
        st.maxf("linearity_over_tolerance", l / (3.0 * tol));
        st.eval(k("linearity"), n > 1, n as u64);
        // exact scaling by powers of two, on data away from denormals
        let b: Vec<T> = to_t(&(0..n).map(|_| { let v = rng.sym(); v + 0.25 * v.signum() }).collect::<Vec<_>>());
        let yb = tf(&b)?;
        let exps: &[i32] = if T::EPS > 1e-10 { &[-100, -85, -70, -50, -40, -25, -12, -1, 1, 7, 20, 40, 80, 88] } else { &[-950, -900, -700, -400, -250, -120, -80, -50, -30, -12, -1, 1, 9, 30, 60, 120, 400, 700, 900] };
        // the largest scale at which the results, with some room for intermediate sums, stay representable
        let top = (if T::EPS > 1e-10 { 127 } else { 1023 }) - (rn.log2().ceil() as i32 + 8);
        for i in 0..5 {
            let ex = if i == 4 { top } else { *rng.pick(exps) };
            let f = T::f(2f64.powi(ex));
            let bs: Vec<T> = b.iter().map(|&v| v * f).collect();
            let ys = tf(&bs)?;
            let want: Vec<T> = yb.iter().map(|&v| v * f).collect();
            // close to underflow single products may lose bits, so only the bulk is compared there
            let deep = ex < if T::EPS > 1e-10 { -50 } else { -850 };
            let bad = if deep {
                let (l, _, i) = err(&to_d(&ys), &to_d(&want), norm(&to_d(&bs)) * rn);
                if l > tol { Some(i) } else { None }
            } else { same_bits(&ys, &want) };
            if let Some(i) = bad {
                return Err(format!("{p} over {} via {}: scaling the input by 2^{ex} does not scale the output exactly; index {i}: {:?}, expected {:?}", T::NAME, ENTRIES[e], ys[i].d(), want[i].d()));
            }
            st.eval(k(&format!("scale{ex}")), n > 1, n as u64);
        }
        // negation
        let neg: Vec<T> = x.iter().map(|&v| -v).collect();
        let yn = tf(&neg)?;
        let want: Vec<T> = y.iter().map(|&v| -v).collect();
        if let Some(i) = same_bits(&yn, &want) {
            return Err(format!("{p} over {} via {}: negating the input does not negate the output; index {i}: {:?}, expected {:?}", T::NAME, ENTRIES[e], yn[i].d(), want[i].d()));
        }
        st.eval(k("negation"), n > 1, n as u64);
        // zero
        let yz = tf(&vec![T::zero(); n])?;
        if let Some(i) = yz.iter().position(|v| v.d() != 0.0) {
            return Err(format!("{p} over {} via {}: all-zero input gives {:?} at index {i}", T::NAME, ENTRIES[e], yz[i].d()));
        }
        st.eval(k("zero"), n > 1, n as u64);
        if n > 100 { st.sample(|| format!("{} -> energy, involution, linearity, exact scaling, negation, zero all held", s.0)); }
        Ok(())
    }
}
