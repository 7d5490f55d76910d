//! C04 batches, C05 scratch/output contents, C06 inner contract, C07 misuse, C08 constructors.
use crate::c01::workload;
use crate::engine::{lib, Opts, Spec, Stats};
use crate::nums::Hn;
use crate::plan::Plan::*;
use crate::plan::*;
use crate::probe;
use crate::rng::{mix, Rng};
use crate::util::*;
use crate::{ty, ty2};
use rustdht::Dht;
use rustfft::Length;
use std::sync::Arc;

pub mod c04 {
    use super::*;
    pub const KS: [usize; 30] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129];
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 104));
        let t = o.thorough();
        let mut big = Vec::new();
        // more blocks than fit 8/16 bits, for short transforms
        for p in [B(1), B(2), B(3), B(4), B(5), B(6), B(8), B(9), B(16), N(3), N(7), R(1), R(8), R(32), x(2, B(3)), x(3, B(2)), x(4, B(2)), x(5, B(2)), x(6, B(2)), m(B(2), B(3)), s(B(2), B(4)), a(B(4))] {
            for k in [255, 256, 257, 1000, 4097, 65537] {
                if p.len() * k > 1_100_000 { continue; }
                for ty in ["f64", "f32"] { big.push(format!("batch;plan={p};ty={ty};k={k};seed={}", rng.next())); }
            }
        }
        // medium transforms in long batches: total sizes past 2^16 and 2^17 elements
        for _ in 0..(if t { 1500 } else { 120 }) {
            let n = rng.range(20, 4000);
            let k = rng.range(70_000, 280_000) / n;
            big.push(format!("batch;plan={};ty={};k={k};seed={}", fast_plan(n, &mut rng), rng.pick(&["f64", "f32"]), rng.next()));
        }
        for p in big_catalog(false, &mut rng) {
            if p.len() > if t { 300_000 } else { 70_000 } { continue; }
            let k = *rng.pick(&[2usize, 3, 4, 5]);
            big.push(format!("batch;plan={p};ty={};k={k};seed={}", rng.pick(&["f64", "f32"]), rng.next()));
        }
        big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len() * Spec(c).num("k")));
        let mut v = Vec::new();
        for p in workload(o, &mut rng, if t { 2000 } else { 600 }, if t { 20000 } else { 1500 }) {
            let n = p.len();
            for ty in ["f64", "f32"] {
                let mut ks: Vec<usize> = KS.iter().cloned().filter(|k| k * n <= 20_000).collect();
                let cnt = if n <= 40 { 6 } else { 3 };
                shuffle(&mut ks, &mut rng);
                for &k in ks.iter().take(cnt) { v.push(format!("batch;plan={p};ty={ty};k={k};seed={}", rng.next())); }
                if n <= 150 { v.push(format!("batch;plan={p};ty={ty};k={};seed={}", rng.range(1, (30_000 / n).clamp(30, 400)), rng.next())); }
            }
        }
        shuffle(&mut v, &mut rng);
        big.extend(v);
        big
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> { ty2!(s.get("ty"), T => go::<T>(s, st)) }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let (n, k) = (p.len(), s.num("k"));
        let mut rng = Rng::new(s.seed());
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        // block contents: all different; in the second round some blocks are hostile; in the third they resemble each other
        for round in 0..3 {
            let mut x: Vec<T> = Vec::with_capacity(n * k);
            let mut hostile = vec![0u8; k];
            if round == 2 {
                let sg = rng.below(SIGNALS);
                let mut cur = signal(sg, n, &mut rng);
                for b in 0..k {
                    hostile[b] = 10;
                    if b > 0 { hostile[b] += alike_step(&mut cur, sg, &mut rng) as u8 }
                    x.extend(cur.iter().map(|&v| T::f(v)));
                }
            } else {
            for b in 0..k {
                let h = if round == 1 && rng.chance(1, 2) { 1 + rng.below(7) as u8 } else { 0 };
                hostile[b] = h;
                for i in 0..n {
                    let v = rng.sym();
                    x.push(T::f(match h {
                        1 => f64::NAN,
                        2 => if i % 2 == 0 { f64::INFINITY } else { v },
                        3 => v * 1.0e30,
                        4 => v * 1.0e-20,
                        5 => 0.0,
                        6 if b > 0 => x[(b - 1) * n + i].d(),
                        7 => if i == 0 { 3.0 } else { -0.0 },
                        _ => v * (1.0 + b as f64 % 7.0),
                    }));
                }
            } }
            for e in 0..3 {
                let fill = rng.below(FILLS);
                let y = call(&*d, e, &x, fill, &mut rng)?;
                // every block must be what the same call gives for that block alone
                let probe_blocks: Vec<usize> = if k <= 128 { (0..k).collect() } else {
                    let mut v: Vec<usize> = vec![0, 1, 2, k / 2, k - 2, k - 1];
                    for _ in 0..120 { v.push(rng.below(k)); }
                    for q in [127, 128, 255, 256, 257, 4095, 4096, 32768, 65535, 65536] { if q < k { v.push(q) } }
                    v
                };
                for &b in &probe_blocks {
                    let xb = &x[b * n..(b + 1) * n];
                    let yb = &y[b * n..(b + 1) * n];
                    let solo = call(&*d, e, xb, 0, &mut rng)?;
                    if let Some(i) = same_bits(yb, &solo) {
                        return Err(format!("{p} over {} via {}: block {b} of {k} (hostile blocks {:?}): element {i} is {:?}, transformed alone it is {:?}", T::NAME, ENTRIES[e], &hostile[..k.min(20)], yb[i].d(), solo[i].d()));
                    }
                    if b == 0 && round == 0 && n <= 4096 {
                        let (r, sc) = refer(xb);
                        judge(&p, ENTRIES[e], &solo, &r, sc, 8.0 * p.budget() * T::EPS)?;
                    }
                    st.obs += n as u64;
                }
                st.inc("blocks_judged", probe_blocks.len() as u64);
                st.eval(key(&[s.0, ENTRIES[e], ["c", "h", "r"][round]]), k > 1, 0);
            }
            st.inc("hostile_blocks", hostile.iter().filter(|&&h| h != 0).count() as u64);
        }
        st.maxf("max_batch", k as f64);
        if k > 3 && n > 8 { st.sample(|| format!("{} -> each block bit-identical to its solo transform, in all 3 entry points, with hostile neighbours", s.0)); }
        Ok(())
    }
}
pub mod c05 {
    use super::*;
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 105));
        let t = o.thorough();
        let mut big = Vec::new();
        for p in big_catalog(t, &mut rng) {
            if p.len() > if t { 1_100_000 } else { 140_000 } { continue; }
            big.push(format!("dirty;plan={p};ty={};k=1;seed={}", rng.pick(&["f64", "f32"]), rng.next()));
        }
        big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len()));
        let mut v = Vec::new();
        for p in workload(o, &mut rng, if t { 2500 } else { 900 }, if t { 20000 } else { 2000 }) {
            let n = p.len();
            for ty in ["f64", "f32"] {
                v.push(format!("dirty;plan={p};ty={ty};k=1;seed={}", rng.next()));
                if n <= 300 { v.push(format!("dirty;plan={p};ty={ty};k={};seed={}", rng.range(2, 5), rng.next())); }
            }
            // scratch-hungry inner transforms: oversized requirements at every level
            if n <= 600 && p.depth() > 1 {
                v.push(format!("dirty;plan={};ty=f64;k={};seed={}", p.probed(rng.below(3 * n + 2), rng.below(3 * n + 2)), rng.range(1, 3), rng.next()));
            }
        }
        shuffle(&mut v, &mut rng);
        big.extend(v);
        big
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> { ty2!(s.get("ty"), T => go::<T>(s, st)) }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let (n, k) = (p.len(), s.num("k"));
        let mut rng = Rng::new(s.seed());
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        let mut sx = signal(if rng.chance(2, 5) { rng.below(SIGNALS) } else { 0 }, n * k, &mut rng);
        if k > 1 { for b in 0..k { if rng.chance(1, 4) { sx[b * n..(b + 1) * n].fill(0.0); } } }
        let x: Vec<T> = to_t(&sx);
        for e in 1..3 {
            let golden = call_ext(&*d, e, &x, 0, 0, &mut rng)?;
            if let Some(i) = golden.iter().position(|v| !v.d().is_finite()) {
                return Err(format!("{p} over {} via {}: finite input, clean scratch, yet output {i} is {:?}", T::NAME, ENTRIES[e], golden[i].d()));
            }
            let tries = if n * k <= 2000 { 12 } else { 4 };
            for i in 0..tries {
                let fill = if i < FILLS - 1 { i + 1 } else { rng.below(FILLS) };
                let extra = if i == 0 { 0 } else { *rng.pick(&[0usize, 1, 2, 3, 7, n, 2 * n + 1, n * k, 1000]) };
                let y = call_ext(&*d, e, &x, fill, extra, &mut rng)?;
                if let Some(j) = same_bits(&y, &golden) {
                    return Err(format!("{p} over {} via {} (batch {k}): element {j} is {:?} with scratch/output pre-filled by pattern {fill} and {extra} surplus scratch elements, but {:?} with clean memory", T::NAME, ENTRIES[e], y[j].d(), golden[j].d()));
                }
                st.inc(["fill_zero", "fill_nan", "fill_inf", "fill_huge", "fill_random", "fill_mixed", "fill_some_zeros", "fill_tiny"][fill], 1);
                if extra > 0 { st.inc("oversized_scratch_calls", 1); }
                st.eval(key(&[s.0, ENTRIES[e], &fill.to_string(), &extra.to_string()]), n > 1 && (d.get_inplace_scratch_len() > 0 || e == 2), (n * k) as u64);
            }
        }
        // what earlier calls left behind, and copies of the data itself
        let (ip, op) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
        let x2: Vec<T> = to_t(&signal(0, n * k, &mut rng));
        for e in 1..3 {
            let golden = call_ext(&*d, e, &x, 0, 0, &mut rng)?;
            let sl = if e == 1 { ip } else { op };
            let ol = if e == 2 { n * k } else { 0 };
            let mut sc = garbage::<T>(sl + if rng.chance(1, 3) { n } else { 0 }, 6, &mut rng);
            let mut out = garbage::<T>(ol, 4, &mut rng);
            let cyc = |src: &[T], l: usize| -> Vec<T> { (0..l).map(|i| src[i % src.len()]).collect() };
            for round in 0..(if n * k <= 2000 { 9 } else { 5 }) {
                let what;
                match round {
                    // scratch and output exactly as the previous call left them: same input, then another input
                    0 => what = "as garbage left them",
                    1 => what = "as the same call left them",
                    2 => { what = "as a call with another input left them"; let mut b = x2.clone(); let r = if e == 1 { lib(|| d.process_with_scratch(&mut b, &mut sc)) } else { lib(|| d.process_outofplace_with_scratch(&mut b, &mut out, &mut sc)) }; r.map_err(|m| format!("{p}: {m}"))?; }
                    3 => {
                        what = "as the other entry point left them";
                        let mut b = x2.clone();
                        let l = sc.len().max(ip).max(op);
                        sc.resize(l, T::f(0.25));
                        let r = if e == 2 { lib(|| d.process_with_scratch(&mut b, &mut sc)) } else { let mut o = x2.clone(); lib(|| d.process_outofplace_with_scratch(&mut b, &mut o, &mut sc)) };
                        r.map_err(|m| format!("{p}: {m}"))?;
                    }
                    4 => { what = "holding the input"; sc = cyc(&x, sl); out = cyc(&x, ol); }
                    5 => { what = "holding the result"; sc = cyc(&golden, sl); out = cyc(&golden, ol); }
                    6 => { what = "all ones"; sc = vec![T::one(); sl]; out = vec![T::one(); ol]; }
                    7 => { what = "holding the negated input"; sc = cyc(&x, sl).into_iter().map(|v| T::f(-v.d())).collect(); out = cyc(&x, ol); }
                    _ => { what = "NaN with one finite element"; sc = vec![T::f(f64::NAN); sl]; if sl > 0 { let i = rng.below(sl); sc[i] = x[0]; } out = vec![T::f(f64::NAN); ol]; }
                }
                let mut b = x.clone();
                let r = if e == 1 { lib(|| d.process_with_scratch(&mut b, &mut sc)) } else { lib(|| d.process_outofplace_with_scratch(&mut b, &mut out, &mut sc)) };
                r.map_err(|m| format!("{p} over {} via {}: {m}", T::NAME, ENTRIES[e]))?;
                let y = if e == 1 { &b } else { &out };
                if let Some(j) = same_bits(y, &golden) {
                    return Err(format!("{p} over {} via {} (batch {k}): element {j} is {:?} with scratch/output {what}, but {:?} with clean memory", T::NAME, ENTRIES[e], y[j].d(), golden[j].d()));
                }
                st.inc("leftover_memory_calls", 1);
                st.eval(key(&[s.0, ENTRIES[e], what]), n > 1 && (sl > 0 || e == 2), (n * k) as u64);
            }
        }
        if n > 100 { st.sample(|| format!("{} -> bit-identical for all scratch/output pre-contents tried", s.0)); }
        Ok(())
    }
}
pub mod c06 {
    use super::*;
    pub fn demand(rng: &mut Rng, n: usize, len: usize) -> usize {
        *rng.pick(&[0usize, 0, 1, 2, n.saturating_sub(1), n, n + 1, 2 * n, len.saturating_sub(1), len, len + 1, len + 3, 2 * len, 3 * len + 5, 1000])
    }
    /// composites over user-written inner transforms with given demands
    pub fn over(kind: usize, n: usize, mk: &mut dyn FnMut(usize) -> Plan) -> Option<Plan> {
        Some(match kind {
            2..=6 => x(kind, mk(n)),
            0 => m(mk(n), mk(1 + (n * 7 + 3) % 11)),
            1 => m(mk(1 + (n * 5 + 2) % 9), mk(n)),
            7 => s(mk(n), mk(2 * n)),
            _ => if is_prime(n + 1) { a(mk(n)) } else { return None },
        })
    }
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 106));
        let t = o.thorough();
        let mut v = Vec::new();
        // systematic grid: each composite, each inner length, each (in-place, out-of-place) demand class
        for kind in 0..=8 {
            for n in (1..=9).chain([10, 12, 16, 18, 22]) {
                let len = match kind { 2..=6 => kind * n, 7 => 4 * n, 8 => n + 1, 0 => n * (1 + (n * 7 + 3) % 11), _ => n * (1 + (n * 5 + 2) % 9) };
                let ds = [0, n, n + 1, len, len + 1, 2 * len + 3];
                for ip in ds { for op in ds {
                    if let Some(p) = over(kind, n, &mut |l| Q { n: l, ip, op }) {
                        v.push(format!("inner;plan={p};ty=f64;k={};seed={}", 1 + (ip + op + n) % 3, rng.next()));
                    }
                } }
                for _ in 0..(if t { 60 } else { 12 }) {
                    if let Some(p) = over(kind, n, &mut |l| Q { n: l, ip: demand(&mut rng, l, len), op: demand(&mut rng, l, len) }) {
                        v.push(format!("inner;plan={p};ty={};k={};seed={}", rng.pick(&["f64", "f32"]), rng.range(1, 3), rng.next()));
                    }
                }
            }
        }
        // two and three levels: composites over probed composites over hungry leaves
        for _ in 0..(if t { 150_000 } else { 25_000 }) {
            let depth = rng.range(2, 4);
            let p = nest(&mut rng, depth);
            if p.len() > 3000 { continue; }
            v.push(format!("inner;plan={p};ty={};k={};seed={}", rng.pick(&["f64", "f64", "f32"]), rng.range(1, 3), rng.next()));
        }
        // the crate's own trees, every inner transform monitored and made hungry
        for p in workload(o, &mut rng, if t { 1500 } else { 500 }, if t { 10_000 } else { 800 }) {
            if p.depth() == 1 { continue; }
            let n = p.len();
            v.push(format!("inner;plan={};ty=f64;k=1;seed={}", p.probed(0, 0), rng.next()));
            v.push(format!("inner;plan={};ty={};k={};seed={}", rand_probe(&p, &mut rng), rng.pick(&["f64", "f32"]), rng.range(1, 3), rng.next()));
            if n <= 200 { v.push(format!("inner;plan={};ty=f64;k=2;seed={}", rand_probe(&p, &mut rng), rng.next())); }
            if n <= 600 { v.push(format!("inner;plan={};ty={};k={};seed={}", p.adapted(&mut rng), rng.pick(&["f64", "f32"]), rng.range(1, 3), rng.next())); }
        }
        shuffle(&mut v, &mut rng);
        v
    }
    fn rand_probe(p0: &Plan, rng: &mut Rng) -> Plan {
        fn w(q: &Plan, top: usize, rng: &mut Rng) -> Plan {
            let i = rec(q, rng);
            if rng.chance(1, 4) { return i; }
            if rng.chance(1, 5) { return crate::plan::w(i); }
            let l = q.len();
            p(demand(rng, l, top), demand(rng, l, top), i)
        }
        fn rec(q: &Plan, rng: &mut Rng) -> Plan {
            let top = q.len();
            match q {
                S(a1, b1) => s(w(a1, top, rng), w(b1, top, rng)),
                M(a1, b1) => m(w(a1, top, rng), w(b1, top, rng)),
                X(k, i) => x(*k, w(i, top, rng)),
                A(i) => a(w(i, top, rng)),
                P { inner, .. } | W(inner) => rec(inner, rng),
                o => o.clone(),
            }
        }
        rec(p0, rng)
    }
    fn nest(rng: &mut Rng, depth: usize) -> Plan {
        if depth <= 1 {
            let n = rng.range(1, 12);
            return Q { n, ip: demand(rng, n, 4 * n), op: demand(rng, n, 4 * n) };
        }
        for _ in 0..20 {
            let kind = rng.below(9);
            let r = match kind {
                2..=6 => { let i = nest(rng, depth - 1); Some(x(kind, i)) }
                0 | 1 => { let i = nest(rng, depth - 1); let j = if rng.chance(1, 2) { nest(rng, 1) } else { nest(rng, depth - 1) }; Some(if kind == 0 { m(i, j) } else { m(j, i) }) }
                7 => {
                    let i = nest(rng, depth - 1);
                    let l = i.len();
                    let h = if rng.chance(1, 2) { Q { n: 2 * l, ip: demand(rng, l, 4 * l), op: demand(rng, l, 4 * l) } } else { x(2, Q { n: l, ip: demand(rng, l, 4 * l), op: demand(rng, l, 4 * l) }) };
                    Some(s(i, h))
                }
                _ => { let i = nest(rng, depth - 1); if is_prime(i.len() + 1) { Some(a(i)) } else { None } }
            };
            if let Some(q) = r {
                if q.len() > 3000 { continue; }
                return if rng.chance(1, 2) { let l = q.len(); p(demand(rng, l, 2 * l), demand(rng, l, 2 * l), q) } else { q };
            }
        }
        N(rng.range(1, 9))
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> { ty2!(s.get("ty"), T => go::<T>(s, st)) }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let (n, k) = (p.len(), s.num("k"));
        let mut rng = Rng::new(s.seed());
        probe::take_contract();
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        let x: Vec<T> = to_t(&signal(0, n * k, &mut rng));
        let tol = 8.0 * p.budget() * T::EPS;
        let refs: Vec<_> = (0..k).map(|b| refer(&x[b * n..(b + 1) * n])).collect();
        for e in 0..3 {
            probe::CALLS.with(|c| c.set(0));
            probe::BLOCKS.with(|c| c.set(0));
            let y = call(&*d, e, &x, 1 + rng.below(FILLS - 1), &mut rng);
            let cv = probe::take_contract();
            if let Some(c) = cv.first() { return Err(format!("{p} over {} via {} (batch {k}): inner transform got: {c}", T::NAME, ENTRIES[e])); }
            let y = y.map_err(|m| format!("{p} over {}, batch {k}, exactly the reported scratch: {m}", T::NAME))?;
            for b in 0..k {
                judge(&p, ENTRIES[e], &y[b * n..(b + 1) * n], &refs[b].0, refs[b].1, tol)?;
            }
            let calls = probe::CALLS.with(|c| c.get());
            st.inc("inner_calls_monitored", calls);
            st.inc("inner_blocks_monitored", probe::BLOCKS.with(|c| c.get()));
            st.eval(key(&[s.0, ENTRIES[e]]), calls > 0, (n * k) as u64);
        }
        st.maxf("largest_reported_inplace_scratch_over_len", d.get_inplace_scratch_len() as f64 / n as f64);
        st.maxf("largest_reported_outofplace_scratch_over_len", d.get_outofplace_scratch_len() as f64 / n as f64);
        if p.depth() > 2 { st.sample(|| format!("{} -> worked with exactly {}/{} scratch", s.0, d.get_inplace_scratch_len(), d.get_outofplace_scratch_len())); }
        Ok(())
    }
}
pub mod c07 {
    use super::*;
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 107));
        let t = o.thorough();
        let mut v: Vec<String> = Vec::new();
        for pl in ["N0", "X2(N0)", "X3(N0)", "X4(N0)", "X5(N0)", "X6(N0)", "M(N0,N5)", "M(N5,N0)", "M(N0,N0)", "S(N0,N0)"] { v.push(format!("zero;plan={pl};ty=f64")); }
        let w = workload(o, &mut rng, if t { 1500 } else { 500 }, if t { 8000 } else { 1200 });
        for p in w {
            let n = p.len();
            // long direct sums and very long trees are covered elsewhere
            if !t && (n > 9000 || (crate::c09::c14::bound(&p) > 2e5 && rng.chance(2, 3))) { continue; }
            let ty = if n < 60 { ["f64", "f32"][rng.below(2)] } else { *rng.pick(&["f64", "f32", "fat", "byte4", "swp8"]) };
            v.push(format!("size;plan={p};ty={ty};seed={}", rng.next()));
            if n <= 300 && p.depth() > 1 {
                let q = p.probed(rng.below(3 * n + 3), rng.below(3 * n + 3));
                v.push(format!("size;plan={q};ty=f64;seed={}", rng.next()));
            }
        }
        // easy-going inner transforms: whatever the composite fails to check itself goes unnoticed further down
        for kind in 0..=8 {
            for n in (1..=6).chain([8, 10, 12]) {
                for _ in 0..(if t { 12 } else { 4 }) {
                    if let Some(p) = super::c06::over(kind, n, &mut |l| Q { n: l, ip: super::c06::demand(&mut rng, l, 4 * l), op: super::c06::demand(&mut rng, l, 4 * l) }) {
                        v.push(format!("lax;plan={p};ty=f64;seed={}", rng.next()));
                    }
                }
            }
        }
        for p in big_catalog(false, &mut rng) { if p.len() <= 70_000 { v.push(format!("size;plan={p};ty=f32;seed={}", rng.next())); } }
        shuffle(&mut v, &mut rng);
        v
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> {
        probe::LAX.with(|l| l.set(s.kind() == "lax"));
        let r = ty!(s.get("ty"), T => go::<T>(s, st));
        probe::LAX.with(|l| l.set(false));
        r
    }
    /// one call with the given sizes; Err = panicked
    fn attempt<T: Hn>(d: &dyn Dht<T>, e: usize, bl: usize, ol: usize, sl: usize, what: usize) -> Result<(), String> {
        // what the slices hold must not matter: ones, zeros, a ramp, NaN
        let (mut b, f): (Vec<T>, T) = match what % 8 {
            0 | 1 => (vec![T::zero(); bl], T::zero()),
            2 => (vec![T::f(f64::NAN); bl], T::f(f64::NAN)),
            3 => ((0..bl).map(|i| T::f(i as f64 - 3.0)).collect(), T::one()),
            _ => (vec![T::one(); bl], T::zero()),
        };
        let mut sc = vec![f; sl];
        match e {
            0 => lib(|| d.process(&mut b)),
            1 => lib(|| d.process_with_scratch(&mut b, &mut sc)),
            _ => { let mut out = vec![f; ol]; lib(|| d.process_outofplace_with_scratch(&mut b, &mut out, &mut sc)) }
        }
    }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        probe::take_contract();
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        let (ip, op) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
        if s.kind() == "zero" {
            for e in 0..3 { for extra in [0, 1, 5] {
                attempt(&*d, e, 0, 0, if e == 1 { ip } else { op } + extra, extra).map_err(|m| format!("zero-length {p}: {} with empty buffers panicked: {m}", ENTRIES[e]))?;
                st.eval(key(&[s.0, ENTRIES[e], &extra.to_string()]), true, 1);
            } }
            return Ok(());
        }
        let mut rng = Rng::new(s.seed());
        let mut lens: Vec<usize> = if n <= 24 { (0..=3 * n + 2).collect() } else {
            let mut v = vec![0, 1, 2, n / 2, n - 2, n - 1, n, n + 1, n + 2, n + n / 2, 2 * n - 1, 2 * n, 2 * n + 1, 3 * n - 1, 3 * n, 3 * n + 1];
            for _ in 0..10 { v.push(rng.below(3 * n)); }
            for d in 2..=8 { if n % d == 0 { v.push(n / d); v.push(n + n / d); v.push(2 * n - n / d); } }
            v
        };
        if n <= 24 { for k in [7, 16, 33, 64, 100, 257] { lens.extend([k * n - 1, k * n, k * n + 1]); } }
        else if n <= 400 { for _ in 0..2 { let k = rng.range(4, 40); lens.extend([k * n - 1, k * n, k * n + 1 + rng.below(n - 1)]); } }
        lens.sort();
        lens.dedup();
        if n > 2000 || crate::c09::c14::bound(&p) > 1e5 { lens.retain(|&l| l <= 2 * n + 1 && (l != 0 || n % 2 == 0)); while lens.len() > 14 { let i = rng.below(lens.len()); if lens[i] != n && lens[i] != 2 * n { lens.swap_remove(i); } } }
        let turn = std::cell::Cell::new(0usize);
        let check = |e: usize, bl: usize, ol: usize, sl: usize, st: &mut Stats| -> Result<(), String> {
            let req = if e == 1 { ip } else { op };
            let bad_len = bl < n || bl % n != 0;
            let bad = bad_len || (e == 2 && ol != bl) || (e > 0 && sl < req);
            turn.set(turn.get() + 1);
            let what = turn.get() * 7 / 3 + n;
            let r = attempt(&*d, e, bl, ol, sl, what);
            let desc = || format!("{p} over {} (length {n}): {} with buffer {bl}{}, scratch {}", T::NAME, ENTRIES[e], if e == 2 { format!(", output {ol}") } else { String::new() }, if e == 0 { "(automatic)".to_string() } else { format!("{sl} (reported requirement {req})") });
            let inner = probe::take_contract();
            st.eval(key(&[&p.to_string(), ENTRIES[e], &format!("{bl},{ol},{sl}")]), true, 1);
            match (bad, r) {
                (true, Ok(())) => Err(format!("{} returned without panicking", desc())),
                (false, Err(msg)) => Err(format!("{} is well-sized but panicked: {msg}", desc())),
                (true, Err(_)) => { st.inc("misuse_panics_observed", 1); let _ = inner; Ok(()) }
                (false, Ok(())) => { st.inc("valid_calls_returned", 1); Ok(()) }
            }
        };
        for &l in &lens {
            check(0, l, 0, 0, st)?;
            for sl in sizes(ip, &mut rng) { check(1, l, 0, sl, st)?; }
            for sl in sizes(op, &mut rng) {
                check(2, l, l, sl, st)?;
                let mut others = vec![l + 1, l.saturating_sub(1), 0, l + n, l.saturating_sub(n), 2 * l + n];
                if n > 50 { others.truncate(4); }
                if n <= 24 && sl == op { others.extend([n, 2 * n, 3 * n]); }
                for ol in others { if ol != l { check(2, l, ol, sl, st)?; } }
            }
        }
        // long batches: one misuse of each kind
        for _ in 0..2 {
            let k = rng.range(2, (60_000 / n).min((1e6 / crate::c09::c14::bound(&p)) as usize).clamp(3, 700));
            for (e, req) in [(1, ip), (2, op)] {
                check(e, k * n, k * n, req, st)?;
                if req > 0 { check(e, k * n, k * n, req - 1 - rng.below(req), st)?; }
                if n > 1 { check(e, k * n - 1 - rng.below(n - 1), k * n, req, st)?; let l = k * n + 1 + rng.below(n - 1); check(e, l, l, req, st)?; }
                if e == 2 { check(e, k * n, (k - 1) * n, req, st)?; check(e, k * n, (k + 1) * n, req, st)?; check(e, k * n, k * n + 1, req, st)?; check(e, k * n, k * n - 1, req, st)?; }
            }
            if n > 1 { check(0, k * n + 1 + rng.below(n - 1), 0, 0, st)?; }
        }
        if n > 20 { st.sample(|| format!("{} -> {} buffer lengths x scratch sizes x output lengths: panicked exactly on misuse", s.0, lens.len())); }
        Ok(())
    }
    fn sizes(req: usize, rng: &mut Rng) -> Vec<usize> {
        let mut v = vec![req, req + 1 + rng.below(9), req * 2 + 3];
        if req > 0 { v.extend([req - 1, 0, req / 2]); }
        v.sort();
        v.dedup();
        v
    }
}
pub mod c08 {
    use super::*;
    /// inner transform of a given length that does nothing
    pub struct Noop(pub usize);
    impl Length for Noop { fn len(&self) -> usize { self.0 } }
    impl<T: Hn> Dht<T> for Noop {
        fn process_with_scratch(&self, _: &mut [T], _: &mut [T]) {}
        fn process_outofplace_with_scratch(&self, _: &mut [T], _: &mut [T], _: &mut [T]) {}
        fn get_inplace_scratch_len(&self) -> usize { 0 }
        fn get_outofplace_scratch_len(&self) -> usize { 0 }
    }
    fn noop(n: usize) -> Arc<dyn Dht<f32>> { Arc::new(Noop(n)) }
    fn nai(n: usize) -> Arc<dyn Dht<f32>> { if n <= 64 { Arc::new(rustdht::scalar::DhtNaive::new(n)) } else { Arc::new(Noop(n)) } }
    const LISTED: [usize; 12] = [1122004669633, 3215031751, 4294967297, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 18446744073709551615, 9746347772161, 1436697831295441, 25326001, 4759123141];
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 108));
        let t = o.thorough();
        let mut v: Vec<String> = Vec::new();
        let top = if t { 70_000 } else { 16_384 };
        for lo in (0..top).step_by(256) { v.push(format!("raders;lo={lo};hi={}", lo + 255)); }
        let r4 = if t { 2_000_000 } else { 70_000 };
        for lo in (0..r4).step_by(5000) { v.push(format!("radix4;lo={lo};hi={}", lo + 4999)); }
        v.push("radix4list;w=big".into());
        if t { for e in [23, 24] { v.push(format!("radix4;lo={};hi={}", (1usize << e) - 2, (1usize << e) + 2)); } }
        // strong pseudoprimes to base 2 / bases 2,3 / Carmichael numbers / squares and products of primes / primes near powers of two
        for list in [
            "2047,3277,4033,4681,8321,15841,29341,42799,49141,52633,65281,74665,80581,85489,88357,90751",
            "561,1105,1729,2465,2821,6601,8911,10585,15841,29341,41041,46657,52633,62745,63973,75361,101101,115921,126217,162401,172081,188461,252601,278545,294409,314821,334153,340561,399001,410041,449065,488881,512461",
            "1373653,1530787,1987021,2284453,3116107",
            "1194649,12327121", // Wieferich squares
            "65535,65536,65538,131071,131073,262143,262144,262139,524287,524289,65521,65537,65539",
            "1000003,1000033,999983,1299709,2097143,2097169",
        ] {
            for e in list.split(',') { v.push(format!("raders1;p={e}")); }
        }
        // composites far beyond what could be transformed must be turned away as well (strong pseudoprimes to the first few prime
        // bases, Fermat numbers, Carmichael numbers, numbers that look prime after truncation to 32 bits)
        for e in ["3215031751", "4294967297", "2152302898747", "3474749660383", "341550071728321", "3825123056546413051", "18446744073709551615", "9746347772161", "1436697831295441",
            "60977817398996785", "25326001", "4759123141", "1122004669633", "4294967301", "8589934595", "4295032833", "4294967299", "12884901891", "1000000000000"] { v.push(format!("comp;p={e}")); }
        for _ in 0..(if t { 400 } else { 60 }) {
            let c = (rng.range(1, 1 << 20) << 32) + *rng.pick(&[3usize, 5, 7, 11, 13, 101, 257, 1009, 65537]);
            v.push(format!("comp;p={c}"));
        }
        if t { for e in [5173601usize, 6787327, 11541307, 13694761, 8388593, 8388617, 16777213, 16777259] { v.push(format!("raders1;p={e}")); } }
        for _ in 0..(if t { 3000 } else { 300 }) {
            // random products of two primes and random primes in the upper range
            let mut q = rng.range(130, 1000) | 1;
            while !is_prime(q) { q += 2; }
            let mut r = rng.range(130, 1000) | 1;
            while !is_prime(r) { r += 2; }
            v.push(format!("raders1;p={}", q * r));
            let mut q = rng.range(20_000, 1_000_000) | 1;
            while !is_prime(q) { q += 2; }
            if t || rng.chance(1, 3) { v.push(format!("raders1;p={q}")); }
        }
        for q in 0..=(if t { 150 } else { 60 }) { v.push(format!("split;q={q};top={}", if t { 400 } else { 150 })); }
        for _ in 0..300 { let q = rng.range(60, 1 << 16); for h in [2 * q, 2 * q + 1, 2 * q - 1, q, 4 * q, q / 2, 2 * q + 2, 0, 3 * q, 2 * q + (1 << 32), 2 * q + (1 << 16), 2 * q + 256] { v.push(format!("split1;q={q};h={h}")); } }
        for q in 0..20usize { for h in [2 * q + (1 << 32), 2 * q + (1 << 16), 2 * q + 256, (1 << 32) - 2 * q, (2 * q) ^ (1 << 40), usize::MAX - 2 * q] { v.push(format!("split1;q={q};h={h}")); } }
        for q in [(1usize << 32) + 3, (1 << 33) + 8, (1 << 40) + 1, 1 << 50] { for h in [6, 16, 2, 0, 2 * q + 2, q, 2 * q - 2] { v.push(format!("split1;q={q};h={h}")); } }
        for p in workload(o, &mut rng, if t { 3000 } else { 1000 }, if t { 10_000 } else { 1000 }) { v.push(format!("len;plan={p}")); }
        for pl in ["N0", "X2(N0)", "X3(N0)", "X4(N0)", "X5(N0)", "X6(N0)", "M(N0,N5)", "M(N5,N0)", "M(N0,N0)", "S(N0,N0)"] { v.push(format!("len;plan={pl}")); }
        shuffle(&mut v, &mut rng);
        let mut rng2 = Rng::new(mix(o.seed, 1081));
        let mut big: Vec<String> = big_catalog(t, &mut rng2).iter().filter(|p| p.len() <= 2_200_000).map(|p| format!("len;plan={p}")).collect();
        big.extend(v);
        big
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> {
        match s.kind() {
            "raders" => { for m in s.num("lo")..=s.num("hi") { raders(m, st)?; } Ok(()) }
            "raders1" => raders(s.num("p") - 1, st),
            "comp" => {
                let c = s.num("p");
                // only numbers with a small factor or listed above as composite
                let small = (2..100_000usize).any(|d| c % d == 0) || LISTED.contains(&c);
                if !small { return Ok(()); }
                match lib(|| { rustdht::scalar::RadersAlgorithm::<f32>::new(noop(c - 1)); }) {
                    Ok(()) => Err(format!("RadersAlgorithm over inner length {} was accepted although {c} is not prime", c - 1)),
                    Err(_) => { st.eval(key(&["comp", &c.to_string()]), true, 1); st.inc("huge_composites_rejected", 1); Ok(()) }
                }
            }
            "radix4" => {
                for n in s.num("lo")..=s.num("hi") { radix4(n, st)?; }
                Ok(())
            }
            "radix4list" => {
                for e in 0..=22u32 { for d in [0usize, 1, 2, 3] { let n = (1usize << e) + d; radix4(n, st)?; if (1usize << e) > d { radix4((1usize << e) - d, st)?; } } }
                for n in [3usize << 20, 3 << 30, 5 << 40, (1 << 31) + 1, (1usize << 32) - 1, (1 << 32) + 2, 6 << 32, (1usize << 40) - 1, (1 << 62) + 1, usize::MAX, usize::MAX - 1, (1usize << 63) + 1, 1_000_000, 10_000_000_000] { radix4(n, st)?; }
                Ok(())
            }
            "split" => { let q = s.num("q"); for h in 0..=s.num("top") { split(q, h, st)?; } Ok(()) }
            "split1" => split(s.num("q"), s.num("h"), st),
            _ => {
                let p = s.plan();
                st.plan_seen(&p);
                for ty in ["f32", "f64"] {
                    let got = ty2!(ty, T => make::<T>(&p)?.len());
                    if got != p.len() { return Err(format!("{p} over {ty} reports length {got}, documented {}", p.len())); }
                    st.eval(key(&[s.0, ty]), p.len() > 0, 1);
                }
                st.inc("lengths_checked", 2);
                Ok(())
            }
        }
    }
    fn raders(m: usize, st: &mut Stats) -> Result<(), String> {
        let prime = is_prime(m + 1);
        let r = lib(|| { let d = rustdht::scalar::RadersAlgorithm::<f32>::new(if m <= 300 && prime || m == 0 { nai(m) } else { noop(m) }); d.len() });
        st.eval(key(&["raders", &m.to_string()]), true, 1);
        match (prime, r) {
            (true, Ok(l)) if l == m + 1 => { st.inc("raders_accepted", 1); Ok(()) }
            (true, Ok(l)) => Err(format!("RadersAlgorithm over inner length {m} reports length {l}, documented {}", m + 1)),
            (true, Err(e)) => Err(format!("RadersAlgorithm over inner length {m} ({} is prime) panicked: {e}", m + 1)),
            (false, Ok(_)) => Err(format!("RadersAlgorithm over inner length {m} was accepted although {} is not prime", m + 1)),
            (false, Err(_)) => { st.inc("raders_rejected", 1); Ok(()) }
        }
    }
    fn radix4(n: usize, st: &mut Stats) -> Result<(), String> {
        let ok = n.is_power_of_two();
        let r = lib(|| rustdht::scalar::Radix4::<f32>::new(n).len());
        st.eval(key(&["radix4", &n.to_string()]), true, 1);
        match (ok, r) {
            (true, Ok(l)) if l == n => { st.inc("radix4_accepted", 1); Ok(()) }
            (true, Ok(l)) => Err(format!("Radix4::new({n}) reports length {l}")),
            (true, Err(e)) => Err(format!("Radix4::new({n}) panicked although {n} is a power of two: {e}")),
            (false, Ok(_)) => Err(format!("Radix4::new({n}) was accepted although {n} is not a power of two")),
            (false, Err(_)) => { st.inc("radix4_rejected", 1); Ok(()) }
        }
    }
    fn split(q: usize, h: usize, st: &mut Stats) -> Result<(), String> {
        let ok = h == 2 * q;
        let r = lib(|| rustdht::scalar::SplitRadix::<f32>::new(nai(q), nai(h)).len());
        st.eval(key(&["split", &q.to_string(), &h.to_string()]), true, 1);
        match (ok, r) {
            (true, Ok(l)) if l == 4 * q => { st.inc("split_accepted", 1); Ok(()) }
            (true, Ok(l)) => Err(format!("SplitRadix over quarter {q}, half {h} reports length {l}, documented {}", 4 * q)),
            (true, Err(e)) => Err(format!("SplitRadix over quarter {q}, half {h} panicked: {e}")),
            (false, Ok(_)) => Err(format!("SplitRadix over quarter {q}, half {h} was accepted although {h} != 2*{q}")),
            (false, Err(_)) => { st.inc("split_rejected", 1); Ok(()) }
        }
    }
}
