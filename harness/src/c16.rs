//! C16 memory: everything allocated is given back, tables and scratch stay linear in the length.
use crate::c01::workload;
use crate::engine::{clear_last_panic, lib, Opts, Spec, Stats};
use crate::mem;
use crate::nums::*;
use crate::plan::Plan::*;
use crate::plan::*;
use crate::probe;
use crate::rng::{mix, Rng};
use crate::ty;
use crate::util::*;
use rustdht::Dht;
use rustfft::Length;
use std::sync::Arc;

pub fn cases(o: &Opts) -> Vec<String> {
    let mut rng = Rng::new(mix(o.seed, 116));
    let t = o.thorough();
    let mut big = Vec::new();
    for p in big_catalog(t, &mut rng) {
        if p.len() > if t { 4_200_000 } else { 1_100_000 } { continue; }
        big.push(format!("life;plan={p};ty={};k=1;seed={}", rng.pick(&["f64", "f32"]), rng.next()));
    }
    big.sort_by_key(|c| std::cmp::Reverse(Spec(c).plan().len()));
    let mut v = Vec::new();
    for p in workload(o, &mut rng, if t { 3000 } else { 1100 }, if t { 20_000 } else { 2500 }) {
        let n = p.len();
        for ty in ["f64", "f32", *rng.pick(&["bomb", "fat", "byte4", "odd9"])] {
            v.push(format!("life;plan={p};ty={ty};k={};seed={}", if n <= 500 { rng.range(1, 6) } else { 1 }, rng.next()));
        }
        if n <= 400 {
            v.push(format!("fault;plan={p};seed={}", rng.next()));
            if p.depth() > 1 && rng.chance(1, 3) { v.push(format!("life;plan={};ty=f64;k=2;seed={}", p.adapted(&mut rng), rng.next())); }
            if p.depth() > 1 { v.push(format!("life;plan={};ty=f64;k=2;seed={}", p.probed(rng.below(2 * n + 2), rng.below(2 * n + 2)), rng.next())); }
        }
    }
    for n in (0..200).chain([1000, 4095, 4097, 65535]) { v.push(format!("ctor;n={n};seed={}", rng.next())); }
    shuffle(&mut v, &mut rng);
    big.extend(v);
    big
}
/// elements (of the larger of T and usize) an instance may keep, several times what its tables need
fn keep_bound(p: &Plan, sz: usize) -> f64 {
    let own = 4.0 * p.len() as f64 * sz.max(8) as f64 + 2048.0;
    own + match p {
        S(q, h) => keep_bound(q, sz) + keep_bound(h, sz),
        M(w, h) => keep_bound(w, sz) + keep_bound(h, sz),
        X(_, i) | A(i) => keep_bound(i, sz),
        P { inner, .. } | W(inner) => keep_bound(inner, sz),
        _ => 0.0,
    }
}
fn scratch_bound(p: &Plan) -> usize {
    2 * p.len() + 16 + match p {
        S(q, h) => scratch_bound(q) + scratch_bound(h),
        M(w, h) => scratch_bound(w) + scratch_bound(h),
        X(_, i) | A(i) => scratch_bound(i),
        P { inner, ip, op } => scratch_bound(inner) + ip + op,
        W(inner) => scratch_bound(inner),
        Q { ip, op, .. } => ip + op,
        _ => 0,
    }
}
pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> {
    // first panics and first uses of thread-locals may allocate in the runtime: not the crate's business
    WARM.with(|w| if !w.replace(true) {
        let _ = lib(|| { let d = B(2).build::<f64>(); d.process(&mut [1.0]) });
        let _ = lib(|| a(N(3)).build::<f32>());
        probe::take_contract();
        clear_last_panic();
    });
    probe::CONTRACT.with(|c| *c.borrow_mut() = Vec::new());
    match s.kind() {
        "life" => ty!(s.get("ty"), T => life::<T>(s, st)),
        "ctor" => ctor(s, st),
        _ => fault(s, st),
    }
}
thread_local! { static WARM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

fn settle() -> i64 {
    probe::CONTRACT.with(|c| *c.borrow_mut() = Vec::new());
    clear_last_panic();
    mem::live()
}
/// construction, calls of every kind, misuse, drop: the heap must be back where it was at each step
fn life<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
    let p = s.plan();
    let (n, k) = (p.len(), s.num("k"));
    let mut rng = Rng::new(s.seed());
    let sz = std::mem::size_of::<T>();
    st.plan_seen(&p);
    let x: Vec<T> = to_t(&signal(0, n * k, &mut rng));
    let rounds = if n <= 4000 { 3 } else { 1 };
    for round in 0..rounds {
        let l0 = settle();
        mem::reset_peak();
        let d = make::<T>(&p)?;
        let kept = settle() - l0;
        let (build_peak, keep_b) = ((mem::peak() - l0) as f64, keep_bound(&p, sz));
        if kept as f64 > keep_b { return Err(format!("{p} over {}: an instance keeps {kept} bytes of heap, allowed {keep_b:.0} for this decomposition", T::NAME)); }
        if build_peak > 4.0 * keep_b { return Err(format!("{p} over {}: construction needed {build_peak} bytes at its peak, allowed {:.0}", T::NAME, 4.0 * keep_b)); }
        st.maxf(&format!("kept_over_bound_{}", p.top()), kept as f64 / keep_b);
        st.maxf("build_peak_over_bound", build_peak / (4.0 * keep_b));
        let (ip, op) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
        let sb = scratch_bound(&p);
        for (w, v) in [("in-place", ip), ("out-of-place", op)] {
            if v > sb { return Err(format!("{p}: reports {v} elements of {w} scratch, allowed {sb} for this decomposition")); }
            st.maxf(&format!("scratch_over_bound_{}", p.top()), v as f64 / sb as f64);
        }
        // what the instance came to keep during calls (caches filled on first use, say) counts as kept by it
        let mut kept = kept;
        for e in 0..3 {
            let mut b = x.clone();
            let mut out = garbage::<T>(if e == 2 { n * k } else { 0 }, 4, &mut rng);
            let mut sc = garbage::<T>(match e { 0 => 0, 1 => ip, _ => op }, 4, &mut rng);
            let mut misuse = vec![T::one(); n * k + 1];
            let before = settle();
            mem::reset_peak();
            let r = lib(|| match e { 0 => d.process(&mut b), 1 => d.process_with_scratch(&mut b, &mut sc), _ => d.process_outofplace_with_scratch(&mut b, &mut out, &mut sc) });
            let pk = mem::peak() - before;
            r.map_err(|m| format!("{p}: {m}"))?;
            let after = settle();
            kept += after - before;
            if kept as f64 > keep_b { return Err(format!("{p} over {} via {} (batch {k}): {} bytes of heap more after the call than before", T::NAME, ENTRIES[e], after - before)); }
            if e == 0 && !plan_allocates(&p) && pk - (after - before) > (ip * sz + 256) as i64 { return Err(format!("{p} over {} via process (batch {k}): {pk} bytes of heap in use during the call, the reported scratch is {} bytes", T::NAME, ip * sz)); }
            st.eval(key(&[s.0, ENTRIES[e], &round.to_string()]), n > 1, 1);
            if n > 1 {
                let before = settle();
                let r = lib(|| match e { 0 => d.process(&mut misuse), 1 => d.process_with_scratch(&mut misuse, &mut sc), _ => d.process_outofplace_with_scratch(&mut misuse, &mut out, &mut sc) });
                drop(r);
                let after = settle();
                kept += after - before;
                if kept as f64 > keep_b { return Err(format!("{p} over {} via {}: {} bytes of heap more after a call with a wrongly sized buffer than before", T::NAME, ENTRIES[e], after - before)); }
                st.inc("panicking_calls_balanced", 1);
            }
        }
        // only what happens inside the crate counts, so each step is bracketed on its own
        let before = settle();
        drop(d);
        let rest = kept + settle() - before;
        if rest != 0 { return Err(format!("{p} over {}: {rest} bytes of heap remain after the instance was dropped (round {round})", T::NAME)); }
        st.inc("lifecycles_balanced", 1);
        st.eval(key(&[s.0, "life", &round.to_string()]), kept > 0, 1);
        if n > 100 { st.sample(|| format!("{} -> kept {kept} bytes, returned all of them", s.0)); }
    }
    Ok(())
}
/// the harness's own user-written transforms allocate during calls
fn plan_allocates(p: &Plan) -> bool {
    match p {
        S(q, h) | M(q, h) => plan_allocates(q) || plan_allocates(h),
        X(_, i) | A(i) => plan_allocates(i),
        P { inner, .. } => plan_allocates(inner),
        Q { .. } | W(_) => true,
        _ => false,
    }
}
/// panics injected into construction and calls: unwinding must give everything back
fn fault(s: &Spec, st: &mut Stats) -> Result<(), String> {
    let p = s.plan();
    let n = p.len();
    let mut rng = Rng::new(s.seed());
    let big = 1u64 << 60;
    let x: Vec<Bomb> = to_t(&signal(0, n, &mut rng));
    let bare = p.clone();
    for i in 0..12 {
        // the last rounds: the inner transforms panic, not the arithmetic
        let p = if i >= 8 { if bare.depth() < 2 { break; } bare.probed(rng.below(2) * rng.below(2 * n + 2), rng.below(2) * rng.below(2 * n + 2)) } else { bare.clone() };
        let l0 = settle();
        FUSE.with(|f| f.set(big));
        let d = make::<Bomb>(&p)?;
        let ops_new = big - FUSE.with(|f| f.replace(0));
        let kept = settle() - l0;
        if i < 8 && i % 2 == 0 && ops_new > 0 {
            drop(d);
            FUSE.with(|f| f.set(1 + rng.below(ops_new as usize) as u64));
            let r = make::<Bomb>(&p);
            FUSE.with(|f| f.set(0));
            drop(r);
            let l1 = settle();
            if l1 != l0 { return Err(format!("{p}: {} bytes of heap remain after a construction that panicked", l1 - l0)); }
            st.inc("aborted_constructions_balanced", 1);
        } else {
            let before = settle();
            if i < 8 { FUSE.with(|f| f.set(1 + rng.below(4 * n + 2) as u64)); } else { probe::CALL_FUSE.with(|f| f.set(1 + rng.below(4) as u64)); }
            let mut b = x.clone();
            let e = rng.below(4);
            let r = if e < 2 { lib(|| d.process(&mut b)) } else if e == 2 {
                let mut sc = vec![Bomb::f(0.0); d.get_inplace_scratch_len()];
                lib(|| d.process_with_scratch(&mut b, &mut sc))
            } else {
                let mut out = x.clone();
                let mut sc = vec![Bomb::f(0.0); d.get_outofplace_scratch_len()];
                lib(|| d.process_outofplace_with_scratch(&mut b, &mut out, &mut sc))
            };
            FUSE.with(|f| f.set(0));
            probe::CALL_FUSE.with(|f| f.set(0));
            let died = r.is_err();
            drop(r);
            drop(b);
            let after = settle();
            let grown = after - before;
            drop(d);
            let rest = kept + grown + settle() - after;
            if rest != 0 { return Err(format!("{p}: {rest} bytes of heap remain after a call that panicked in {} and the drop of the instance", if i < 8 { "the arithmetic" } else { "an inner transform" })); }
            if (kept + grown) as f64 > keep_bound(&p, std::mem::size_of::<Bomb>()) { return Err(format!("{p}: {grown} bytes of heap more after a call that panicked than before")); }
            if died && i >= 8 { st.inc("aborted_inner_calls_balanced", 1); }
            if died { st.inc("aborted_calls_balanced", 1); }
        }
        st.eval(key(&[s.0, &i.to_string()]), true, 1);
    }
    Ok(())
}
/// rejected parameters leave nothing behind, and the inner transforms handed over are released
fn ctor(s: &Spec, st: &mut Stats) -> Result<(), String> {
    use rustdht::scalar::*;
    let n = s.num("n");
    let noop = |l: usize| -> Arc<dyn Dht<f32>> { Arc::new(crate::c04::c08::Noop(l)) };
    for i in 0..6 {
        let (a1, b1) = (noop(n), noop(2 * n + i));
        let (w1, w2) = (Arc::downgrade(&a1), Arc::downgrade(&b1));
        let (what, r): (&str, Result<bool, String>) = match i {
            0 => ("Radix4", lib(|| Radix4::<f32>::new(n).len() > 0)),
            1 => ("Raders", lib(|| RadersAlgorithm::new(a1.clone()).len() > 0)),
            2 => ("MixedRadix", lib(|| MixedRadix::new(a1.clone(), noop(3)).len() > 0)),
            3 => ("MixedRadix2xn", lib(|| MixedRadix2xn::new(b1.clone()).len() > 0)),
            _ => ("SplitRadix", lib(|| SplitRadix::new(a1.clone(), b1.clone()).len() > 0)),
        };
        st.inc(if r.is_ok() { "constructions_accepted" } else { "constructions_rejected" }, 1);
        let (c1, c2) = (Arc::strong_count(&a1), Arc::strong_count(&b1));
        if c1 != 1 || c2 != 1 { return Err(format!("{what} over length {n}: still holds {c1}/{c2} references to its inner transforms after it was dropped or rejected")); }
        drop((a1, b1));
        if w1.upgrade().is_some() || w2.upgrade().is_some() { return Err(format!("{what} over length {n}: inner transform not released")); }
        drop((w1, w2));
        st.eval(key(&[s.0, &i.to_string()]), true, 1);
    }
    let l0 = settle();
    for _ in 0..2 {
        let _ = lib(|| Radix4::<f32>::new(n).len() > 0);
        let _ = lib(|| RadersAlgorithm::new(noop(n)).len());
        let _ = lib(|| SplitRadix::new(noop(n), noop(n + 1)).len());
        let l1 = settle();
        if l1 != l0 { return Err(format!("{} bytes of heap remain after constructing (or rejecting) transforms of length {n}", l1 - l0)); }
    }
    Ok(())
}
