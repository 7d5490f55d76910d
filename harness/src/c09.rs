//! C09 memory confinement, C13 allocation, C14 operation counts, C15 element types.
use crate::c01::workload;
use crate::engine::{lib, Opts, Spec, Stats};
use crate::mem::{self, GBuf};
use crate::nums::*;
use crate::plan::Plan::*;
use crate::plan::*;
use crate::probe;
use crate::rng::{mix, Rng};
use crate::util::*;
use crate::{ty, ty2, tysz};
use rustdht::Dht;
use std::sync::Arc;

pub mod c09 {
    use super::*;
    /// composites over inner transforms whose reported scratch requirements drift
    fn liars(v: &mut Vec<String>, rng: &mut Rng, reps: usize, ns: &[usize]) {
        for kind in 0..=8usize { for &n in ns {
            if kind == 8 && !is_prime(n + 1) { continue; }
            for _ in 0..reps { v.push(format!("liar;kind={kind};n={n};h={};mode={};mode2={};ty={};seed={}", rng.range(1, 12), 2 * rng.range(1, 3), 2 * rng.range(0, 3), rng.pick(&["f64", "f32"]), rng.next())); }
        } }
    }
    fn liar<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        use probe::{Liar, LIE};
        use rustdht::scalar::*;
        use std::sync::Arc;
        let (kind, n, h) = (s.num("kind"), s.num("n"), s.num("h"));
        let mut rng = Rng::new(s.seed());
        let l = |n: usize, m: usize| -> Arc<dyn Dht<T>> { Arc::new(Liar::new(n, s.num(m_name(m)))) };
        fn m_name(m: usize) -> &'static str { if m == 0 { "mode" } else { "mode2" } }
        let early = rng.chance(2, 3);
        LIE.with(|c| c.set(early));
        let d = lib(|| -> Arc<dyn Dht<T>> { match kind {
            0 => Arc::new(MixedRadix::new(l(n, 0), l(h, 1))),
            1 => Arc::new(MixedRadix::new(l(h, 1), l(n, 0))),
            2 => Arc::new(MixedRadix2xn::new(l(n, 0))),
            3 => Arc::new(MixedRadix3xn::new(l(n, 0))),
            4 => Arc::new(MixedRadix4xn::new(l(n, 0))),
            5 => Arc::new(MixedRadix5xn::new(l(n, 0))),
            6 => Arc::new(MixedRadix6xn::new(l(n, 0))),
            7 => Arc::new(SplitRadix::new(l(n, 0), l(2 * n, 1))),
            _ => Arc::new(RadersAlgorithm::new(l(n, 0))),
        } });
        LIE.with(|c| c.set(false));
        let d = match d {
            Ok(d) => d,
            Err(_) if early => { st.inc("constructions_over_drifting_inner_panicked", 1); st.eval(key(&[s.0]), true, 1); return Ok(()) }
            Err(m) => return Err(format!("construction over honest answers panicked: {m}")),
        };
        let len = d.len();
        if len > 4000 { return Ok(()); }
        for _ in 0..(if cfg!(miri) { 2 } else { 12 }) {
            let e = rng.below(3);
            let k = rng.range(1, 2);
            LIE.with(|c| c.set(true));
            let req = if e == 1 { d.get_inplace_scratch_len() } else { d.get_outofplace_scratch_len() };
            let x = vec![T::one(); len * k];
            let sl = match rng.below(3) { 0 => req, 1 => req + rng.below(4 * len), _ => 6 * len + 10 };
            let right = rng.chance(2, 3);
            let r = guarded(&*d, e, &x, x.len(), sl, right, &mut rng);
            LIE.with(|c| c.set(false));
            let r = r.map_err(|m| format!("{} over {} via {}: {m}", s.0, T::NAME, ENTRIES[e]))?;
            st.inc(if r.is_ok() { "calls_over_drifting_inner_returned" } else { "calls_over_drifting_inner_panicked" }, 1);
            st.eval(key(&[s.0, ENTRIES[e], &sl.to_string()]), true, x.len() as u64);
        }
        Ok(())
    }
    fn miri_cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 1090));
        let t = o.thorough();
        let mut v = Vec::new();
        let mut ps: Vec<Plan> = BSIZES.iter().map(|&b| B(b)).collect();
        ps.extend([N(1), N(2), N(5), R(1), R(2), R(4), R(8), R(16), R(32), R(64), R(128), R(256)]);
        for k in 2..=6 { ps.push(x(k, B(1))); ps.push(x(k, N(7))); ps.push(x(k, B(8))); ps.push(x(k, N(3))); }
        for (w, h) in [(1, 1), (1, 5), (5, 1), (2, 2), (3, 4), (4, 3), (5, 7), (7, 6)] { ps.push(m(N(w), N(h))); }
        for q in 1..=9 { ps.push(s(N(q), N(2 * q))); }
        ps.extend([split_chain(32), split_chain(64), a(B(1)), a(B(2)), a(B(4)), a(N(10)), a(B(16)), a(N(28))]);
        // user-written and wrapped transforms: they really read whatever scratch and output they are handed
        ps.extend([Q { n: 5, ip: 7, op: 3 }, p(9, 4, N(6)), p(0, 0, R(32))]);
        for k in 2..=6 { ps.push(x(k, Q { n: 4, ip: 6 * (k % 2), op: 3 })); }
        ps.extend([m(Q { n: 3, ip: 20, op: 0 }, Q { n: 4, ip: 0, op: 15 }), s(Q { n: 2, ip: 9, op: 3 }, Q { n: 4, ip: 1, op: 17 }), a(Q { n: 6, ip: 9, op: 2 }), p(3, 3, s(p(1, 1, B(4)), p(9, 9, B(8))))]);
        for _ in 0..(if t { 300 } else { 30 }) { let n = rng.range(2, 90); ps.push(rand_plan(n, &mut rng, 16)); }
        liars(&mut v, &mut rng, if t { 3 } else { 1 }, if t { &[1, 2, 3, 4, 6, 10, 12] } else { &[2, 4] });
        // longer ones, one entry point each
        let mut long = vec![R(512), R(1024), split_chain(256), split_chain(512), m(B(16), B(16)), m(B(9), N(29)), x(4, R(64)), x(3, R(128)), x(5, N(61)), x(6, x(5, B(9))), x(2, N(131)), a(R(256)), a(x(4, N(27))),
            m(x(3, N(11)), x(5, N(7))), m(B(2), R(256)), m(x(4, N(9)), B(3)), m(x(2, B(9)), x(2, B(9))), s(x(3, N(11)), x(6, N(11))), x(2, R(256)), x(3, x(5, N(13))), x(4, x(3, N(25))), x(5, R(64)), x(6, R(64))];
        for k in 2..=6 { long.push(x(k, x(2, N(33 + k)))); }
        if t { long.extend([R(2048), R(4096), split_chain(2048), m(R(32), R(64)), a(x(2, R(512))), x(4, R(1024)), x(5, x(5, x(5, B(5)))), x(3, x(3, x(3, x(3, B(9)))))]); }
        for p in &long { v.push(format!("valid;plan={p};ty={};k=1;e={};seed={}", rng.pick(&["f64", "f32"]), rng.below(3), rng.next())); }
        for (i, p) in ps.iter().enumerate() {
            let ty = ["f64", "f32", "byte4", "fat", "swp8", "odd9"][i % 6];
            v.push(format!("valid;plan={p};ty={ty};k={};seed={}", 1 + i % 3, rng.next()));
            if t { v.push(format!("valid;plan={p};ty={};k={};seed={}", ["f64", "f32", "byte4", "fat", "swp8", "odd9"][(i + 1) % 6], 1 + (i + 1) % 4, rng.next())); }
            if i % 6 == 0 || t { v.push(format!("bad;plan={p};ty=f32;seed={}", rng.next())); }
        }
        v
    }
    pub fn cases(o: &Opts) -> Vec<String> {
        if cfg!(miri) { return miri_cases(o); }
        let mut rng = Rng::new(mix(o.seed, 109));
        let t = o.thorough();
        let mut big = Vec::new();
        for p in big_catalog(t, &mut rng) {
            if p.len() > if t { 2_200_000 } else { 280_000 } { continue; }
            big.push(format!("valid;plan={p};ty={};k=1;seed={}", rng.pick(&["f64", "f32"]), rng.next()));
        }
        big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len()));
        let mut v = Vec::new();
        for p in workload(o, &mut rng, if t { 2000 } else { 700 }, if t { 15_000 } else { 1500 }) {
            let n = p.len();
            for ty in ["f64", "f32"] { v.push(format!("valid;plan={p};ty={ty};k={};seed={}", if n < 2000 { rng.range(1, 4) } else { 1 }, rng.next())); }
            if n <= 500 { v.push(format!("valid;plan={p};ty={};k={};seed={}", rng.pick(&["fat", "byte4", "swp8", "tag16", "odd9"]), rng.range(1, 3), rng.next())); }
            if n <= 1500 && (!(o.profile == "asan" || o.profile == "msan") || rng.chance(1, 3)) { v.push(format!("bad;plan={p};ty={};seed={}", rng.pick(&["f64", "f32"]), rng.next())); }
            if n <= 200 && p.depth() > 1 {
                let q = p.probed(rng.below(2 * n + 2), rng.below(2 * n + 2));
                v.push(format!("bad;plan={q};ty=f64;seed={}", rng.next()));
                v.push(format!("valid;plan={q};ty=f64;k=2;seed={}", rng.next()));
            }
        }
        liars(&mut v, &mut rng, if t { 40 } else { 6 }, &[1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 18, 22, 30, 36, 64]);
        shuffle(&mut v, &mut rng);
        big.extend(v);
        big
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> {
        if s.kind() == "liar" { return ty2!(s.get("ty"), T => liar::<T>(s, st)); }
        ty!(s.get("ty"), T => go::<T>(s, st))
    }
    fn guarded<T: Hn>(d: &dyn Dht<T>, e: usize, b: &[T], ol: usize, sl: usize, right: bool, rng: &mut Rng) -> Result<Result<Vec<T>, String>, String> {
        let mut gb = GBuf::new(b, right);
        let mut go = GBuf::new(&garbage::<T>(ol, 4, rng), right);
        let mut gs = GBuf::new(&garbage::<T>(sl, 4, rng), right);
        let r = match e {
            0 => lib(|| d.process(gb.slice())),
            1 => lib(|| d.process_with_scratch(gb.slice(), gs.slice())),
            _ => lib(|| d.process_outofplace_with_scratch(gb.slice(), go.slice(), gs.slice())),
        };
        for (g, w) in [(&gb, "buffer"), (&go, "output"), (&gs, "scratch")] {
            if !g.intact() { return Err(format!("bytes next to the {w} slice were overwritten (buffer {} elements, output {ol}, scratch {sl})", b.len())); }
        }
        Ok(r.map(|()| if e == 2 { go.slice().to_vec() } else { gb.slice().to_vec() }))
    }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let mut rng = Rng::new(s.seed());
        probe::take_contract();
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        let (ip, op) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
        if s.kind() == "valid" {
            let k = s.num("k");
            let x: Vec<T> = to_t(&signal(0, n * k, &mut rng));
            let refs: Vec<_> = if cfg!(miri) || n > 20_000 { vec![] } else { (0..k).map(|b| refer(&x[b * n..(b + 1) * n])).collect() };
            for e in 0..3 {
                if s.opt("e").is_some_and(|w| w != e.to_string()) { continue; }
                for right in [true, false] {
                    if cfg!(miri) && !right { continue; }
                    let sl = if e == 1 { ip } else { op };
                    let tag = || format!("{p} over {} via {} (batch {k}, slices {} an inaccessible page)", T::NAME, ENTRIES[e], if right { "ending at" } else { "starting at" });
                    let y = guarded(&*d, e, &x, n * k, sl, right, &mut rng).map_err(|m| format!("{}: {m}", tag()))?
                        .map_err(|m| format!("{}: panicked: {m}", tag()))?;
                    for (b, (r, sc)) in refs.iter().enumerate() {
                        judge(&p, ENTRIES[e], &y[b * n..(b + 1) * n], r, *sc, 8.0 * p.budget() * T::EPS)?;
                    }
                    st.eval(key(&[s.0, ENTRIES[e], if right { "r" } else { "l" }]), n > 1, (n * k) as u64);
                }
            }
            st.inc("valid_calls_guarded", 6);
            if n > 60 { st.sample(|| format!("{} -> stayed inside its slices", s.0)); }
            return Ok(());
        }
        if cfg!(miri) {
            // a panic costs the interpreter more than half a second: a few telling sizes only
            for (e, bl, ol, sl) in [(0, n + 1, 0, 0), (1, 2 * n - 1, 0, ip), (1, n, 0, ip.saturating_sub(1)), (2, n, n + 1, op), (2, n, n - 1, op), (2, n, n, op.saturating_sub(1))] {
                let x = vec![T::one(); bl];
                let r = guarded(&*d, e, &x, ol, sl, true, &mut rng)?;
                st.inc(if r.is_ok() { "odd_calls_returned" } else { "misuse_calls_panicked" }, 1);
                st.eval(key(&[s.0, ENTRIES[e], &format!("{bl},{ol},{sl}")]), true, bl as u64);
            }
            probe::take_contract();
            return Ok(());
        }
        // invalid sizes: whatever happens must stay inside the slices
        let mut lens = vec![0, 1, n / 2, n.saturating_sub(1), n + 1, 2 * n - 1, 2 * n + 1, 3 * n - 1, n + n / 2];
        for _ in 0..4 { lens.push(rng.below(4 * n + 1)); }
        for &l in &lens {
            for e in 0..3 {
                let req = if e == 1 { ip } else { op };
                for sl in [req, req.saturating_sub(1), 0] {
                    for ol in if e == 2 { vec![l, l + 1, l.saturating_sub(1), 0, 2 * l] } else { vec![0] } {
                        let x = vec![T::one(); l];
                        let right = rng.chance(2, 3);
                        let r = guarded(&*d, e, &x, ol, sl, right, &mut rng).map_err(|m| format!("{p} over {} via {}: {m}", T::NAME, ENTRIES[e]))?;
                        st.inc(if r.is_ok() { "odd_calls_returned" } else { "misuse_calls_panicked" }, 1);
                        st.eval(key(&[s.0, ENTRIES[e], &format!("{l},{ol},{sl}")]), true, l as u64);
                    }
                }
            }
        }
        // right length, too little scratch or too short output
        for k in 1..=2 {
            let x = vec![T::one(); n * k];
            for e in 1..3 {
                let req = if e == 1 { ip } else { op };
                for sl in [req.saturating_sub(1), req / 2, 0, req] {
                    for ol in if e == 2 { vec![n * k, n * k - 1, n * k + 1, 0, n] } else { vec![0] } {
                        let right = rng.chance(2, 3);
                        let r = guarded(&*d, e, &x, ol, sl, right, &mut rng).map_err(|m| format!("{p} over {} via {}: {m}", T::NAME, ENTRIES[e]))?;
                        st.inc(if r.is_ok() { "odd_calls_returned" } else { "misuse_calls_panicked" }, 1);
                        st.eval(key(&[s.0, ENTRIES[e], &format!("s{k},{ol},{sl}")]), true, (n * k) as u64);
                    }
                }
            }
        }
        probe::take_contract();
        Ok(())
    }
}
pub mod c13 {
    use super::*;
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 113));
        let t = o.thorough();
        let mut big = Vec::new();
        for p in big_catalog(t, &mut rng) {
            if p.len() > if t { 4_200_000 } else { 600_000 } { continue; }
            big.push(format!("alloc;plan={p};ty={};k=1;seed={}", rng.pick(&["f64", "f32"]), rng.next()));
            if p.len() <= 70_000 { big.push(format!("alloc;plan={p};ty={};k=5;seed={}", rng.pick(&["f64", "f32"]), rng.next())); }
        }
        big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len()));
        let mut v = Vec::new();
        for p in workload(o, &mut rng, if t { 3000 } else { 1100 }, if t { 30_000 } else { 4000 }) {
            let n = p.len();
            for ty in ["f64", "f32", "fat"] {
                if ty == "fat" && n > 400 { continue; }
                for k in [1usize, 2, 3, *rng.pick(&[4usize, 5, 7, 8, 9, 10]), *rng.pick(&[16usize, 17, 32, 33, 50, 64, 65, 100]), *rng.pick(&[128usize, 129, 256, 257, 500, 1000, 1025])] {
                    if n * k <= if k > 100 { 12_000 } else { 4000 } || k == 1 || (k == 2 && n < 20_000) { v.push(format!("alloc;plan={p};ty={ty};k={k};seed={}", rng.next())); }
                }
            }
            if n <= 500 && p.depth() > 1 {
                // inner transforms with large scratch demands
                v.push(format!("alloc;plan={};ty=f64;k={};seed={}", p.probed(rng.below(3 * n + 2), rng.below(3 * n + 2)), rng.range(1, 3), rng.next()));
            }
        }
        let cat = catalog(1);
        for i in 0..(if t { 6000 } else { 700 }) {
            let p = if i % 3 == 0 { rng.pick(&cat).clone() } else { let n = rng.range(2, if i % 3 == 1 { 60 } else { 600 }); rand_plan(n, &mut rng, 24) };
            if p.len() > 2000 { continue; }
            v.push(format!("crowd;plan={p};ty={};t={};seed={}", rng.pick(&["yld", "yld", "f64"]), rng.range(2, 6), rng.next()));
        }
        shuffle(&mut v, &mut rng);
        big.extend(v);
        big
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> {
        if s.kind() == "crowd" { return ty!(s.get("ty"), T => crowd::<T>(s, st)); }
        ty!(s.get("ty"), T => go::<T>(s, st))
    }
    /// several threads use one instance at once (whatever the code does when something is busy, it must not be an allocation)
    fn crowd<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let (n, t, base) = (p.len(), s.num("t"), s.seed());
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        let p2 = p.clone();
        let gate = Arc::new(std::sync::Barrier::new(t));
        let hs: Vec<_> = (0..t).map(|tid| {
            let (d, p, gate) = (d.clone(), p2.clone(), gate.clone());
            std::thread::spawn(move || -> Result<(u64, u64), String> {
                let mut rng = Rng::new(mix(base, tid as u64));
                let k = rng.range(1, 3);
                let x: Vec<T> = to_t(&signal(0, n * k, &mut rng));
                let (mut b, mut o) = (x.clone(), x.clone());
                let mut sc = vec![T::zero(); d.get_inplace_scratch_len().max(d.get_outofplace_scratch_len())];
                let cnt = || (mem::ALLOCS.with(|c| c.get()), mem::FREES.with(|c| c.get()));
                // first panics and first uses of thread-locals may allocate in the runtime
                let _ = lib(|| ());
                YLD.with(|y| y.set(mix(base, 99 + tid as u64) | 1));
                let y0 = YIELDS.with(|y| y.get());
                gate.wait();
                let mut bad = None;
                for c in 0..12 {
                    b.copy_from_slice(&x);
                    let e = 1 + rng.below(2);
                    let before = cnt();
                    let r = lib(|| if e == 1 { d.process_with_scratch(&mut b, &mut sc) } else { d.process_outofplace_with_scratch(&mut b, &mut o, &mut sc) });
                    let after = cnt();
                    if let Err(m) = r { bad = bad.or(Some(format!("{p} via {} next to other threads: panicked: {m}", ENTRIES[e]))); break; }
                    if after != before { bad = bad.or(Some(format!("{p} over {} via {} (call {c} of thread {tid} of {t}): {} heap allocations and {} deallocations during the call", T::NAME, ENTRIES[e], after.0 - before.0, after.1 - before.1))); break; }
                }
                YLD.with(|y| y.set(0));
                match bad { Some(m) => Err(m), None => Ok((12, YIELDS.with(|y| y.get()) - y0)) }
            })
        }).collect();
        let mut first = None;
        for h in hs {
            match h.join() {
                Ok(Ok((c, y))) => { st.inc("calls_next_to_other_threads", c); st.inc("injected_yields", y); st.eval(key(&[s.0, &c.to_string(), &y.to_string()]), true, c) }
                Ok(Err(m)) => first = first.or(Some(m)),
                Err(_) => panic!("dhtmon: crowd thread died"),
            }
        }
        match first { Some(m) => Err(m), None => Ok(()) }
    }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let (n, k) = (p.len(), s.num("k"));
        let mut rng = Rng::new(s.seed());
        let d = make::<T>(&p)?;
        st.plan_seen(&p);
        let x: Vec<T> = if rng.chance(1, 8) { garbage(n * k, 1 + rng.below(FILLS - 1), &mut rng) } else { to_t(&signal(if rng.chance(1, 2) { 0 } else { rng.below(SIGNALS) }, n * k, &mut rng)) };
        let cnt = || (mem::ALLOCS.with(|c| c.get()), mem::FREES.with(|c| c.get()), mem::BYTES.with(|c| c.get()));
        // the monitor itself must see allocations
        let m0 = cnt();
        let b = std::hint::black_box(Box::new([0u8; 32]));
        drop(b);
        if cnt().0 != m0.0 + 1 { panic!("dhtmon: allocation monitor is blind"); }
        for e in 1..3 {
            for (round, extra) in [(0, 0usize), (1, 0), (2, n + 7)] {
                // slices that start anywhere, not only where the allocator puts them
                let (a1, a2, a3) = (rng.below(4) * rng.below(5), rng.below(4) * rng.below(5), rng.below(4) * rng.below(5));
                let mut buf = vec![T::zero(); n * k + a1];
                buf[a1..].copy_from_slice(&x);
                let mut out = vec![T::zero(); n * k + a2];
                let mut sc = garbage::<T>(if e == 1 { d.get_inplace_scratch_len() } else { d.get_outofplace_scratch_len() } + extra + a3, 4, &mut rng);
                let (buf, out, sc) = (&mut buf[a1..], &mut out[a2..], &mut sc[a3..]);
                let before = cnt();
                let r = lib(|| if e == 1 { d.process_with_scratch(buf, sc) } else { d.process_outofplace_with_scratch(buf, out, sc) });
                let after = cnt();
                r.map_err(|m| format!("{p} over {} via {}: panicked: {m}", T::NAME, ENTRIES[e]))?;
                if after != before {
                    return Err(format!("{p} over {} via {} (batch {k}, call {round}): {} heap allocations ({} bytes) and {} deallocations during the call", T::NAME, ENTRIES[e], after.0 - before.0, after.2 - before.2, after.1 - before.1));
                }
                st.eval(key(&[s.0, ENTRIES[e], &round.to_string()]), p.depth() > 1 || n > 1, 1);
            }
        }
        // a long run on the same instance
        if n * k <= 64 {
            let (mut buf, mut out) = (x.clone(), x.clone());
            let mut sc = vec![T::zero(); d.get_inplace_scratch_len().max(d.get_outofplace_scratch_len())];
            let before = cnt();
            let r = lib(|| for _ in 0..150 { d.process_with_scratch(&mut buf, &mut sc); d.process_outofplace_with_scratch(&mut buf, &mut out, &mut sc) });
            let after = cnt();
            r.map_err(|m| format!("{p} over {}: panicked in a long run: {m}", T::NAME))?;
            if after != before { return Err(format!("{p} over {} (batch {k}): {} heap allocations in 300 calls with caller scratch", T::NAME, after.0 - before.0)); }
            st.eval(key(&[s.0, "run"]), n > 1, 300);
        }
        // the convenience call does allocate; seeing that proves the counters live
        let before = cnt();
        let mut buf = x.clone();
        let _ = lib(|| d.process(&mut buf));
        st.inc("allocations_seen_in_convenience_call", cnt().0 - before.0);
        if n > 100 { st.sample(|| format!("{} -> 0 allocator events in 6 calls with caller scratch", s.0)); }
        Ok(())
    }
}
pub mod c14 {
    use super::*;
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 114));
        let t = o.thorough();
        let mut big = Vec::new();
        for p in big_catalog(t, &mut rng) {
            if p.len() > if t { 4_200_000 } else { 600_000 } { continue; }
            for e in 0..3 { if p.len() < 100_000 || e == rng.below(3) { big.push(format!("ops;plan={p};e={e};k=1")); } }
            if p.len() <= 20_000 { big.push(format!("ops;plan={p};e={};k=3", rng.below(3))); }
        }
        big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len()));
        let mut v = Vec::new();
        for p in workload(o, &mut rng, if t { 3000 } else { 1000 }, if t { 60_000 } else { 8000 }) {
            let n = p.len();
            for e in 0..3 {
                v.push(format!("ops;plan={p};e={e};k=1"));
                if n <= 500 { v.push(format!("ops;plan={p};e={e};k={}", rng.range(2, 9))); }
                if n <= 200 { v.push(format!("ops;plan={p};e={e};k={}", rng.pick(&[10usize, 16, 17, 31, 32, 33, 64, 65, 100]))); }
            }
            if p.depth() > 1 {
                let k = if n <= 120 && rng.chance(1, 3) { *rng.pick(&[7usize, 8, 16, 17, 33, 64, 65, 100]) } else if n <= 500 { rng.range(1, 4) } else { 1 };
                for e in 0..3 { v.push(format!("blocks;plan={p};e={e};k={k};ip={};op={}", rng.below(2) * rng.below(2 * n + 5), rng.below(2) * rng.below(2 * n + 5))); }
            }
        }
        for k in 1..=(if t { 200 } else { 60 }) { v.push(format!("ops;plan=R{};e={};k={k}", 1 << rng.range(0, 7), rng.below(3))); }
        shuffle(&mut v, &mut rng);
        big.extend(v);
        big
    }
    /// upper bound on adds+muls+negs for one block; roughly twice what the decomposition needs
    pub fn bound(p: &Plan) -> f64 {
        match p {
            N(n) | Q { n, .. } => 5.0 * (*n as f64) * (*n as f64) + 4.0,
            B(n) => [(1usize, 2.0), (2, 6.0), (3, 24.0), (4, 24.0), (5, 60.0), (6, 60.0), (8, 64.0), (9, 120.0), (16, 200.0)].iter().find(|b| b.0 == *n).unwrap().1,
            R(n) => 3.5 * *n as f64 * (1.0 + (*n as f64).log2()),
            S(q, h) => bound(h) + 2.0 * bound(q) + 12.0 * p.len() as f64,
            M(w, h) => h.len() as f64 * bound(w) + w.len() as f64 * bound(h) + 16.0 * p.len() as f64,
            X(_, h) => (p.len() / h.len().max(1)) as f64 * bound(h) + 16.0 * p.len() as f64,
            A(i) => 2.0 * bound(i) + 16.0 * p.len() as f64,
            P { inner, .. } | W(inner) => bound(inner),
        }
    }
    fn blocks_needed(p: &Plan) -> u64 {
        // probes sit around every inner transform
        match p {
            S(q, h) => 3 + blocks_needed(h) + 2 * blocks_needed(q),
            M(w, h) => (w.len() + h.len()) as u64 + h.len() as u64 * blocks_needed(w) + w.len() as u64 * blocks_needed(h),
            X(k, h) => *k as u64 * (1 + blocks_needed(h)),
            A(i) => 2 * (1 + blocks_needed(i)),
            P { inner, .. } | W(inner) => blocks_needed(inner),
            _ => 0,
        }
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p0 = s.plan();
        let (e, k) = (s.num("e"), s.num("k"));
        let p = if s.kind() == "blocks" { p0.probed(s.num("ip"), s.num("op")) } else { p0.clone() };
        let n = p.len();
        let mut rng = Rng::new(s.seed());
        let d = make::<Cnt>(&p)?;
        st.plan_seen(&p0);
        let x: Vec<Cnt> = if rng.chance(1, 8) { garbage(n * k, 1 + rng.below(FILLS - 1), &mut rng) } else { to_t(&signal(if rng.chance(1, 2) { 0 } else { rng.below(SIGNALS) }, n * k, &mut rng)) };
        OPS_ADD.with(|c| c.set(0));
        OPS_MUL.with(|c| c.set(0));
        probe::BLOCKS.with(|c| c.set(0));
        probe::CALLS.with(|c| c.set(0));
        call(&*d, e, &x, 0, &mut rng)?;
        let (ad, mu) = (OPS_ADD.with(|c| c.get()), OPS_MUL.with(|c| c.get()));
        if s.kind() == "blocks" {
            let (got, want) = (probe::BLOCKS.with(|c| c.get()), k as u64 * blocks_needed(&p0));
            if got > want { return Err(format!("{p0} via {} (batch {k}): {got} inner blocks transformed, the decomposition needs {want}", ENTRIES[e])); }
            st.inc("inner_blocks_counted", got);
            st.eval(key(&[s.0]), got > 0, got);
            return Ok(());
        }
        let tot = (ad + mu) as f64;
        let b = bound(&p) * k as f64;
        if tot > b { return Err(format!("{p} via {} (batch {k}): {ad} additions + {mu} multiplications exceed the bound {b:.0} for this decomposition", ENTRIES[e])); }
        if n >= 64 {
            let ratio = tot / (k as f64 * n as f64 * (n as f64).log2());
            match p { R(_) => {
                if ratio > 3.0 { return Err(format!("{p}: {ratio:.2} operations per N*log2(N)")); }
                st.maxf("radix4_ops_per_nlogn", ratio)
            } , S(..) => st.maxf("split_ops_per_nlogn", ratio), _ => {} }
        }
        st.maxf(&format!("ops_over_bound_{}{}", p.top(), if let B(n) = p { n.to_string() } else { String::new() }), tot / b);
        st.inc("arithmetic_operations_observed", ad + mu);
        st.eval(key(&[s.0]), n > 2, ad + mu);
        if n > 500 { st.sample(|| format!("{} -> {ad} additions, {mu} multiplications, bound {b:.0}", s.0)); }
        Ok(())
    }
}
pub mod c15 {
    use super::*;
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 115));
        let t = o.thorough();
        let mut big = Vec::new();
        for p in big_catalog(t, &mut rng) {
            if p.len() > if t { 1_100_000 } else { 140_000 } { continue; }
            big.push(format!("elem;plan={p};ty={};k=1;seed={}", rng.pick(&["fat", "byte4", "dual", "cnt", "swp8", "tag16", "tri12", "odd9"]), rng.next()));
        }
        big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len()));
        let mut v = Vec::new();
        for p in workload(o, &mut rng, if t { 3000 } else { 1000 }, if t { 40_000 } else { 8000 }) {
            for ty in ["fat", "byte4", "dual", "swp8", "tag16", "tri12", "odd9"] {
                if p.len() > 2000 && rng.chance(1, 2) { continue; }
                v.push(format!("elem;plan={p};ty={ty};k={};seed={}", if p.len() < 500 { rng.range(1, 3) } else { 1 }, rng.next()));
            }
            for _ in 0..3 { v.push(format!("elem;plan={p};ty={};k={};seed={}", rng.pick(&SIZED), if p.len() < 500 { rng.range(1, 3) } else { 1 }, rng.next())); }
        }
        for p in catalog(1) { if p.len() <= 400 { for ty in SIZED { v.push(format!("elem;plan={p};ty={ty};k={};seed={}", rng.range(1, 3), rng.next())); } }         }
        shuffle(&mut v, &mut rng);
        big.extend(v);
        big
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> {
        match s.get("ty") {
            "dual" => dual(s, st),
            t => tysz!(t, T => go::<T>(s, st)),
        }
    }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let (n, k) = (p.len(), s.num("k"));
        let mut rng = Rng::new(s.seed());
        FAT_BAD.with(|c| c.set(0));
        let d = make::<T>(&p)?;
        let df = make::<f64>(&p)?;
        st.plan_seen(&p);
        let x: Vec<T> = to_t(&signal(if rng.chance(1, 3) { rng.below(SIGNALS) } else { 0 }, n * k, &mut rng));
        let xf = to_d(&x);
        let sc = norm(&xf) * (n as f64).sqrt();
        let tol = 8.0 * p.budget() * T::EPS * 1.5;
        for e in 0..3 {
            let y = call(&*d, e, &x, rng.below(FILLS), &mut rng)?;
            let yf = call(&*df, e, &xf, 0, &mut rng)?;
            let (l, _, i) = err(&to_d(&y), &yf, sc);
            if l > tol { return Err(format!("{p} over {} via {} (batch {k}) differs from the f64 instantiation by {l:.3e} relative (allowed {tol:.3e}); index {i}: {:?} vs {:?}", T::NAME, ENTRIES[e], y[i].d(), yf[i])); }
            let bad = FAT_BAD.with(|c| c.get());
            if bad > 0 { return Err(format!("{p} over {} via {}: {bad} torn or reinterpreted elements used in arithmetic", T::NAME, ENTRIES[e])); }
            st.maxf(&format!("difference_over_tolerance_{}", T::NAME), l / tol);
            st.inc(&format!("calls_{}", T::NAME), 1);
            st.eval(key(&[s.0, ENTRIES[e]]), n > 1, (n * k) as u64);
        }
        if n > 100 { st.sample(|| format!("{} -> equals f64 within {:.1e}", s.0, tol)); }
        Ok(())
    }
    fn dual(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let (n, k) = (p.len(), s.num("k"));
        let mut rng = Rng::new(s.seed());
        let d = make::<Dual>(&p)?;
        let df = make::<f64>(&p)?;
        let (v, e0) = (signal(0, n * k, &mut rng), signal(0, n * k, &mut rng));
        let x: Vec<Dual> = v.iter().zip(&e0).map(|(&v, &e)| Dual { v, e }).collect();
        let tol = 12.0 * p.budget() * f64::EPSILON;
        for e in 0..3 {
            let y = call(&*d, e, &x, rng.below(5), &mut rng)?;
            for part in 0..2 {
                let src = if part == 0 { &v } else { &e0 };
                let want = call(&*df, e, src, 0, &mut rng)?;
                let got: Vec<f64> = y.iter().map(|q| if part == 0 { q.v } else { q.e }).collect();
                let (l, _, i) = err(&got, &want, norm(src) * (n as f64).sqrt());
                if l > tol { return Err(format!("{p} over dual numbers via {} (batch {k}): {} part differs from the f64 instantiation by {l:.3e} (allowed {tol:.3e}); index {i}: {:?} vs {:?}", ENTRIES[e], ["value", "derivative"][part], got[i], want[i])); }
                st.maxf("difference_over_tolerance_dual", l / tol);
            }
            st.inc("calls_dual", 1);
            st.eval(key(&[s.0, ENTRIES[e]]), n > 1, 2 * (n * k) as u64);
        }
        Ok(())
    }
    #[allow(dead_code)]
    fn _unused(s: &Spec) { ty2!(s.get("ty"), T => { let _: Option<T> = None; }) }
}
