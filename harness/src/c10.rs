//! C10 concurrent use, C11 histories and faults.
use crate::engine::{lib, Opts, Spec, Stats};
use crate::nums::*;
use crate::plan::Plan::*;
use crate::plan::*;
use crate::probe;
use crate::rng::{mix, Rng};
use crate::util::*;
use crate::{ty, ty2};
use rustdht::scalar::*;
use rustdht::Dht;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

/// kernel-side view of one worker thread: CPU seconds used and whether it is blocked (neither running nor runnable)
#[cfg(not(miri))]
fn thread_state(tid: i32) -> Option<(f64, bool)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
    let ticks = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some((ticks / 100.0, matches!(*f.first()?, "S" | "D")))
}

/// run `f(tid)` on `t` threads that start together; None = they do not come to an end. That verdict is never taken from
/// the clock on the wall: either every unfinished thread was found blocked at each of many successive looks without
/// having used any CPU in between, or one of them has burnt minutes of CPU time on work that takes milliseconds.
fn together<R: Send + 'static>(t: usize, f: impl Fn(usize) -> R + Send + Sync + 'static) -> Option<Vec<R>> {
    // cases with very many threads run one at a time
    static BIG: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = if t > 8 { Some(BIG.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
    let f = Arc::new(f);
    let gate = Arc::new(AtomicUsize::new(0));
    let tids: Arc<Vec<std::sync::atomic::AtomicI32>> = Arc::new((0..t).map(|_| Default::default()).collect());
    let (tx, rx) = std::sync::mpsc::channel();
    let mut hs = Vec::new();
    for i in 0..t {
        let (f, gate, tx, tids) = (f.clone(), gate.clone(), tx.clone(), tids.clone());
        hs.push(std::thread::spawn(move || {
            #[cfg(not(miri))]
            tids[i].store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, Ordering::Relaxed);
            let _ = &tids;
            gate.fetch_add(1, Ordering::Relaxed);
            let mut w = 0u32;
            while gate.load(Ordering::Relaxed) < t {
                w += 1;
                if cfg!(miri) || w % 64 == 0 { std::thread::yield_now() } else { std::hint::spin_loop() }
            }
            let r = f(i);
            let _ = tx.send((i, r));
        }));
    }
    drop(tx);
    let mut out: Vec<Option<R>> = (0..t).map(|_| None).collect();
    let mut left = t;
    #[cfg(not(miri))]
    let (mut still, mut last) = (0u32, vec![-1.0f64; t]);
    while left > 0 {
        #[cfg(miri)]
        let got = rx.recv().ok();
        #[cfg(not(miri))]
        let got = match rx.recv_timeout(std::time::Duration::from_millis(500)) {
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => panic!("harness: a worker thread ended without a result"),
            g => g.ok(),
        };
        if let Some((i, r)) = got {
            out[i] = Some(r);
            left -= 1;
            #[cfg(not(miri))]
            { still = 0; }
            continue;
        }
        #[cfg(miri)]
        return None;
        #[cfg(not(miri))]
        {
            let mut blocked = true;
            for i in 0..t {
                if out[i].is_some() { continue; }
                match thread_state(tids[i].load(Ordering::Relaxed)) {
                    Some((cpu, asleep)) => {
                        if !asleep || cpu != last[i] { blocked = false; }
                        last[i] = cpu;
                        if cpu > 150.0 { return None; }
                    }
                    // not started yet, or it ended without a result (the harness closure never panics)
                    None => blocked = false,
                }
            }
            still = if blocked { still + 1 } else { 0 };
            if still >= 60 { return None; }
        }
    }
    for h in hs { let _ = h.join(); }
    out.into_iter().collect()
}

pub mod c10 {
    use super::*;
    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 110));
        let t = o.thorough();
        let mut v = Vec::new();
        if cfg!(miri) {
            let ps = [B(4), B(16), N(5), R(64), x(2, N(4)), x(3, B(4)), x(4, B(3)), x(5, B(3)), x(6, B(2)), m(N(3), B(4)), s(B(2), B(4)), a(B(4)), a(B(6)), split_chain(32)];
            for (i, p) in ps.iter().enumerate() {
                v.push(format!("conc;plan={p};ty={};t=2;rounds=2;seed={}", ["f64", "f32", "yld"][i % 3], rng.next()));
            }
            v.push(format!("share;plan=N4;ty=f64;t=3;rounds=2;seed={}", rng.next()));
            for p in [R(16), a(B(4)), x(3, N(3)), s(B(2), B(4))] { v.push(format!("build;plan={p};ty=f32;t=2;rounds=1;seed={}", rng.next())); }
            if t { for _ in 0..40 { let n = rng.range(2, 40); v.push(format!("conc;plan={};ty=f64;t=3;rounds=2;seed={}", rand_plan(n, &mut rng, 16), rng.next())); } }
            return v;
        }
        let tsan = o.profile == "tsan";
        let cat = catalog(1);
        let cnt = match (t, tsan) { (false, false) => 4000, (false, true) => 900, (true, false) => 60_000, (true, true) => 8000 };
        for i in 0..cnt {
            let p = match rng.below(4) {
                0 => rng.pick(&cat).clone(),
                1 => { let n = rng.range(2, 300); rand_plan(n, &mut rng, 24) }
                2 => { let n = rng.range(2, 60); rand_plan(n, &mut rng, 12) }
                _ => { let n = rng.range(100, 2500); fast_plan(n, &mut rng) }
            };
            let p = match rng.below(8) { 0..=3 => p.probed(0, 0), 4 => p.adapted(&mut rng), _ => p };
            let ty = *rng.pick(&["f64", "f32", "yld", "yld"]);
            let th = *rng.pick(&[2usize, 2, 3, 4, 6, 8]);
            let th = if i % 40 == 7 { *rng.pick(&[12usize, 16, 17, 24, 33, 40]) } else if i % 150 == 11 && !tsan { *rng.pick(&[65usize, 80, 130]) } else { th };
            if i % 9 == 5 {
                v.push(format!("build;plan={p};ty={};t={th};rounds={};seed={}", rng.pick(&["f64", "f32"]), rng.range(1, 3), rng.next()));
            } else if i % 5 == 4 {
                let q = *rng.pick(&[1usize, 2, 4, 6, 10, 12, 16, 18, 22, 28, 30, 36, 40, 100]);
                v.push(format!("share;plan={};ty={ty};t={th};rounds={};seed={}", rand_plan(q, &mut rng, 16), rng.range(1, 4), rng.next()));
            } else {
                v.push(format!("conc;plan={p};ty={ty};t={th};rounds={};seed={}", rng.range(1, 5), rng.next()));
            }
        }
        for p in [R(4096), R(16384), split_chain(8192), m(R(64), R(64)), a(R(256)), x(3, R(1024)), x(5, x(5, x(5, B(5)))), a(R(65536))] {
            v.insert(0, format!("conc;plan={p};ty=f64;t=8;rounds=3;seed={}", rng.next()));
            v.insert(0, format!("build;plan={p};ty=f64;t=8;rounds=1;seed={}", rng.next()));
        }
        v
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> {
        if s.kind() == "build" { return ty2!(s.get("ty"), T => build::<T>(s, st)); }
        match s.get("ty") { "yld" => go::<Yld>(s, st), t => ty2!(t, T => go::<T>(s, st)) }
    }
    /// threads that each build (and use, and drop) instances at the same time, of this and of related configurations
    fn build<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let (t, rounds) = (s.num("t"), s.num("rounds"));
        let p0 = s.plan();
        let mut rng = Rng::new(s.seed());
        let mut ps = vec![p0.clone()];
        for _ in 0..3 { let n = *rng.pick(&[p0.len(), 2 * p0.len(), p0.len().max(2) / 2 + 1, p0.len() + 1]); ps.push(fast_plan(n.max(1), &mut rng)); }
        let work: Vec<Vec<(usize, usize, Vec<T>)>> = (0..t).map(|_| (0..rounds).map(|_| {
            let i = if rng.chance(1, 2) { 0 } else { rng.below(ps.len()) };
            (i, rng.below(3), to_t(&signal(0, ps[i].len(), &mut rng)))
        }).collect()).collect();
        let (ps, work) = (Arc::new(ps), Arc::new(work));
        let (p2, w2) = (ps.clone(), work.clone());
        let base = s.seed();
        let res = together(t, move |tid| {
            let mut rng = Rng::new(mix(base, 55 + tid as u64));
            w2[tid].iter().map(|(i, e, x)| {
                let d = make::<T>(&p2[*i])?;
                let own = call(&*d, *e, x, rng.below(FILLS), &mut rng)?;
                Ok((d, own))
            }).collect::<Result<Vec<_>, String>>()
        });
        let Some(res) = res else { hang(s) };
        for (tid, r) in res.into_iter().enumerate() {
            let r = r.map_err(|m| format!("thread {tid} of {t} building at the same time as others: {m}"))?;
            for (j, (d, own)) in r.into_iter().enumerate() {
                let (i, e, x) = &work[tid][j];
                let want = call(&*make::<T>(&ps[*i])?, *e, x, 0, &mut Rng::new(1))?;
                let later = call(&*d, *e, x, 0, &mut Rng::new(1))?;
                for (w, y) in [("right away", &own), ("later", &later)] {
                    if let Some(q) = same_bits(y, &want) { return Err(format!("{} over {} via {}: built on thread {tid} while {t} threads were building, used {w}: element {q} is {:?}, an instance built alone gives {:?}", ps[*i], T::NAME, ENTRIES[*e], y[q].d(), want[q].d())); }
                }
                let (r, sc) = refer(x);
                judge(&ps[*i], ENTRIES[*e], &want, &r, sc, 8.0 * ps[*i].budget() * T::EPS)?;
                st.eval(key(&[s.0, &tid.to_string(), &j.to_string()]), true, x.len() as u64);
            }
        }
        st.inc("concurrent_constructions", (t * rounds) as u64);
        Ok(())
    }
    fn hang(s: &Spec) -> ! {
        println!("HANG {}", s.0);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(77);
    }
    fn instances<T: Hn>(s: &Spec) -> Result<Vec<(String, Plan, Arc<dyn Dht<T>>)>, String> {
        let p = s.plan();
        if s.kind() == "conc" { return Ok(vec![(p.to_string(), p.clone(), make::<T>(&p)?)]); }
        // several composites sharing one and the same inner instance (and, for mixed radix, using it twice)
        let n = p.len();
        let sh = make::<T>(&p.probed(0, 0))?;
        let mut v: Vec<(String, Plan, Arc<dyn Dht<T>>)> = Vec::new();
        let mut add = |pl: Plan, f: &dyn Fn(Arc<dyn Dht<T>>) -> Arc<dyn Dht<T>>| -> Result<(), String> {
            let d = lib(|| f(sh.clone())).map_err(|m| format!("constructing {pl} over a shared inner transform panicked: {m}"))?;
            v.push((format!("{pl}[shared inner]"), pl, d));
            Ok(())
        };
        add(p.clone(), &|i| i)?;
        add(x(2, p.clone()), &|i| Arc::new(MixedRadix2xn::new(i)))?;
        add(x(3, p.clone()), &|i| Arc::new(MixedRadix3xn::new(i)))?;
        add(x(4, p.clone()), &|i| Arc::new(MixedRadix4xn::new(i)))?;
        add(x(5, p.clone()), &|i| Arc::new(MixedRadix5xn::new(i)))?;
        add(x(6, p.clone()), &|i| Arc::new(MixedRadix6xn::new(i)))?;
        add(m(p.clone(), p.clone()), &|i| Arc::new(MixedRadix::new(i.clone(), i)))?;
        if n % 2 == 0 { add(s_(N(n / 2), p.clone()), &|i| Arc::new(SplitRadix::new(N(n / 2).build(), i)))?; }
        add(s_(p.clone(), x(2, p.clone())), &|i| Arc::new(SplitRadix::new(i.clone(), Arc::new(MixedRadix2xn::new(i)))))?;
        if is_prime(n + 1) && n > 1 { add(a(p.clone()), &|i| Arc::new(RadersAlgorithm::new(i)))?; }
        Ok(v)
    }
    fn s_(q: Plan, h: Plan) -> Plan { crate::plan::s(q, h) }
    fn go<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let (t, rounds) = (s.num("t"), s.num("rounds"));
        let mut rng = Rng::new(s.seed());
        let inst = Arc::new(instances::<T>(s)?);
        for (_, p, _) in inst.iter() { st.plan_seen(p); }
        // work lists: (instance, entry, batch, input)
        type Job<T> = (usize, usize, Vec<T>);
        let mut jobs: Vec<Vec<Job<T>>> = Vec::new();
        let wild = !cfg!(miri) && rng.chance(1, 3);
        for _ in 0..t {
            jobs.push((0..rounds).map(|_| {
                let i = rng.below(inst.len());
                let k = if inst[i].1.len() <= 300 { rng.range(1, 3) } else { 1 };
                // now and then a wrongly sized call, whose panic is that thread's own business
                let e = rng.below(3) + if wild && inst[i].1.len() > 1 && rng.chance(1, 4) { 10 } else { 0 };
                (i, e, to_t(&signal(0, inst[i].1.len() * k + (e >= 10) as usize, &mut rng)))
            }).collect());
        }
        let jobs = Arc::new(jobs);
        let base = s.seed();
        let meet = Arc::new(probe::Meet::default());
        let meet2 = meet.clone();
        let (i2, j2) = (inst.clone(), jobs.clone());
        let res = together(t, move |tid| {
            probe::MEET.with(|m| *m.borrow_mut() = Some(meet2.clone()));
            probe::TID.with(|m| m.set(tid as u64 + 1));
            YLD.with(|y| y.set(mix(base, tid as u64) | 1));
            let y0 = YIELDS.with(|y| y.get());
            let mut rng = Rng::new(mix(base, 77 + tid as u64));
            let r: Result<Vec<Vec<T>>, String> = j2[tid].iter().map(|(i, e, x)| if *e >= 10 {
                match call(&*i2[*i].2, *e - 10, x, 0, &mut rng) { Err(_) => Ok(Vec::new()), Ok(_) => Err(format!("{}: a wrongly sized call returned", i2[*i].0)) }
            } else { call(&*i2[*i].2, *e, x, rng.below(FILLS), &mut rng) }).collect();
            YLD.with(|y| y.set(0));
            (r, YIELDS.with(|y| y.get()) - y0, probe::take_contract())
        });
        let Some(res) = res else { hang(s) };
        st.inc("overlapping_inner_calls", meet.overlaps.load(Ordering::Relaxed));
        // distinct interleavings of inner-transform entries/exits actually observed
        let ord = meet.order.load(Ordering::Relaxed);
        if ord != 0 { st.distinct_orders.insert(mix(ord, crate::rng::hash_str(s.0))); }
        // sequential golden from a fresh, unshared instance of the same configuration
        let fresh = instances::<T>(s)?;
        for (tid, (r, y, cv)) in res.into_iter().enumerate() {
            st.inc("injected_yields", y);
            if let (Some(c), false) = (cv.first(), wild) { return Err(format!("thread {tid}: {c}")); }
            let r = r.map_err(|m| format!("thread {tid} of {t}: {m}"))?;
            for (j, got) in r.iter().enumerate() {
                let (i, e, x) = &jobs[tid][j];
                if *e >= 10 { st.inc("panicking_calls_next_to_others", 1); continue; }
                let want = call(&*fresh[*i].2, *e, x, 0, &mut Rng::new(1))?;
                if let Some(q) = same_bits(got, &want) {
                    return Err(format!("{} over {} via {} called from {t} threads at once: thread {tid}, call {j}: element {q} is {:?}, alone it is {:?}", fresh[*i].0, T::NAME, ENTRIES[*e], got[q].d(), want[q].d()));
                }
                // and from the shared instance, now quiet
                let again = call(&*inst[*i].2, *e, x, 0, &mut Rng::new(1))?;
                if let Some(q) = same_bits(&again, &want) {
                    return Err(format!("{} over {} via {}: after concurrent use element {q} is {:?}, a fresh instance gives {:?}", fresh[*i].0, T::NAME, ENTRIES[*e], again[q].d(), want[q].d()));
                }
                st.eval(key(&[s.0, &tid.to_string(), &j.to_string()]), true, got.len() as u64);
            }
        }
        st.inc("concurrent_rounds", 1);
        st.maxf("max_threads", t as f64);
        st.sample(|| format!("{} -> every call bit-identical to the sequential result", s.0));
        Ok(())
    }
}

pub mod c11 {
    use super::*;
    use std::collections::HashMap;
    trait Obj { fn run(&self, e: usize, k: usize, iseed: u64, sig: usize) -> Result<Vec<u64>, String>; fn check(&self, p: &Plan, e: usize, k: usize, iseed: u64, sig: usize) -> Result<(), String>; fn misuse(&self, rng: &mut Rng); fn n(&self) -> usize; }
    struct H<T: Hn>(Arc<dyn Dht<T>>);
    impl<T: Hn> H<T> {
        fn input(&self, k: usize, iseed: u64, sig: usize) -> Vec<T> { to_t(&signal(sig, self.0.len() * k, &mut Rng::new(mix(iseed, self.0.len() as u64)))) }
    }
    impl<T: Hn> Obj for H<T> {
        fn n(&self) -> usize { self.0.len() }
        fn run(&self, e: usize, k: usize, iseed: u64, sig: usize) -> Result<Vec<u64>, String> {
            let x = self.input(k, iseed, sig);
            let mut r = Rng::new(iseed);
            Ok(bits_of(&call(&*self.0, e, &x, 4, &mut r)?))
        }
        fn check(&self, p: &Plan, e: usize, k: usize, iseed: u64, sig: usize) -> Result<(), String> {
            let x = self.input(k, iseed, sig);
            let y = call(&*self.0, e, &x, 4, &mut Rng::new(iseed))?;
            let n = self.0.len();
            for b in 0..k {
                let (r, sc) = refer(&x[b * n..(b + 1) * n]);
                judge(p, ENTRIES[e], &y[b * n..(b + 1) * n], &r, sc, 8.0 * p.budget() * T::EPS)?;
            }
            Ok(())
        }
        fn misuse(&self, rng: &mut Rng) {
            let n = self.0.len();
            let d = &self.0;
            let mut b = vec![T::one(); n + rng.below(n + 2)];
            let mut o = vec![T::one(); rng.below(2 * n + 2)];
            let mut sc = vec![T::one(); rng.below(2 * n + 2)];
            let _ = match rng.below(3) {
                0 => lib(|| d.process(&mut b)),
                1 => lib(|| d.process_with_scratch(&mut b, &mut sc)),
                _ => lib(|| d.process_outofplace_with_scratch(&mut b, &mut o, &mut sc)),
            };
        }
    }
    fn mk(p: &Plan, ty: &str) -> Result<Box<dyn Obj>, String> { Ok(ty!(ty, T => Box::new(H::<T>(make::<T>(p)?)) as Box<dyn Obj>)) }

    pub fn cases(o: &Opts) -> Vec<String> {
        let mut rng = Rng::new(mix(o.seed, 111));
        let t = o.thorough();
        let mut v = Vec::new();
        for p in [B(1), B(2), B(3), B(4), B(5), B(6), B(8), B(9), B(16), N(3), R(4), R(8), R(32), x(2, B(2)), x(3, B(2)), x(4, B(1)), x(5, B(1)), x(6, B(1)), m(B(2), B(2)), s(B(1), B(2)), a(B(2)), a(B(4))] {
            v.push(format!("many;plan={p};ty={};calls={};seed={}", rng.pick(&["f64", "f32"]), if t { 1_100_000 } else { 70_000 }, rng.next()));
        }
        // lengths that collide modulo 2^8 / 2^16, built one after the other
        for (a1, b1) in [(3usize, 65539usize), (64, 65600), (16, 65552), (100, 65636), (37, 37 + 256), (12, 12 + 256), (5, 261), (128, 384), (1024, 66560), (7, 65543), (4, 65540), (2, 65538), (25, 65561), (4096, 69632), (48, 304)] {
            v.push(format!("collide;a={};b={};seed={}", fast_plan(a1, &mut rng), fast_plan(b1, &mut rng), rng.next()));
            v.push(format!("collide;a={};b={};seed={}", fast_plan(b1, &mut rng), fast_plan(a1, &mut rng), rng.next()));
        }
        for _ in 0..(if t { 60 } else { 8 }) { v.push(format!("mass;count={};seed={}", if t { 12_000 } else { 3000 }, rng.next())); }
        for p in [B(1), B(2), B(3), B(4), B(5), B(6), B(8), B(9), B(16), N(6), R(16), R(128), x(2, B(4)), x(3, B(4)), x(4, B(3)), x(5, B(2)), x(6, B(2)), m(B(4), B(3)), s(B(2), B(4)), a(B(4)), a(B(6)), split_chain(32)] {
            for kind in 0..6 { v.push(format!("faults;plan={p};kind={kind};count={};seed={}", if t { 70_000 } else { 3000 }, rng.next())); }
        }
        // calls on inputs that resemble the previous ones
        let cat1 = catalog(1);
        for i in 0..(if t { 12_000 } else { 1500 }) {
            let p = if i % 2 == 0 { rng.pick(&cat1).clone() } else { let n = rng.range(2, 150); rand_plan(n, &mut rng, 24) };
            v.push(format!("alike;plan={p};ty={};calls=24;seed={}", rng.pick(&["f64", "f32"]), rng.next()));
        }
        let head = v.len();
        for _ in 0..(if t { 40_000 } else { 4000 }) { v.push(format!("hist;steps={};seed={}", rng.range(40, 160), rng.next())); }
        let cat = catalog(1);
        for i in 0..(if t { 12_000 } else { 1800 }) {
            let p = if i % 2 == 0 { rng.pick(&cat).clone() } else { let n = rng.range(2, 200); rand_plan(n, &mut rng, 16) };
            v.push(format!("bomb;plan={p};e={};tries={};seed={}", rng.below(3), if t { 60 } else { 20 }, rng.next()));
            if i % 3 == 0 { v.push(format!("cbomb;plan={p};tries={};seed={}", if t { 40 } else { 12 }, rng.next())); }
            if p.depth() > 1 { v.push(format!("fuse;plan={};e={};seed={}", p.probed(rng.below(2) * rng.below(3 * p.len()), rng.below(2) * rng.below(3 * p.len())), rng.below(3), rng.next())); }
        }
        // the same tables rebuilt must come out the same, whatever was built before
        let mut mid = v.split_off(head);
        shuffle(&mut mid, &mut rng);
        v.extend(mid);
        v
    }
    pub fn run(s: &Spec, st: &mut Stats) -> Result<(), String> {
        match s.kind() {
            "many" => many(s, st),
            "collide" => collide(s, st),
            "hist" => hist(s, st),
            "bomb" => bomb(s, st),
            "mass" => mass(s, st),
            "cbomb" => cbomb(s, st),
            "faults" => faults(s, st),
            "alike" => ty2!(s.get("ty"), T => alike::<T>(s, st)),
            _ => fuse(s, st),
        }
    }
    fn many(s: &Spec, st: &mut Stats) -> Result<(), String> { ty2!(s.get("ty"), T => many_t::<T>(s, st)) }
    fn many_t<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let d = make::<T>(&p)?;
        let mut rng = Rng::new(s.seed());
        let x: Vec<T> = to_t(&signal(0, n, &mut rng));
        let (ip, op) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
        let gold = [call(&*d, 0, &x, 0, &mut rng)?, call(&*d, 1, &x, 0, &mut rng)?, call(&*d, 2, &x, 0, &mut rng)?];
        let (r, sc) = refer(&x);
        for (e, g) in gold.iter().enumerate() { judge(&p, ENTRIES[e], g, &r, sc, 8.0 * p.budget() * T::EPS)?; }
        let mut s1 = vec![T::zero(); ip];
        let mut s2 = vec![T::zero(); op];
        let (mut b, mut out) = (x.clone(), x.clone());
        for c in 0..s.num("calls") {
            let e = c % 3;
            b.copy_from_slice(&x);
            let r = match e { 0 => lib(|| d.process(&mut b)), 1 => lib(|| d.process_with_scratch(&mut b, &mut s1)), _ => lib(|| d.process_outofplace_with_scratch(&mut b, &mut out, &mut s2)) };
            r.map_err(|m| format!("{p}: call number {c} panicked: {m}"))?;
            let y = if e == 2 { &out } else { &b };
            if let Some(i) = same_bits(y, &gold[e]) { return Err(format!("{p} over {} via {}: call number {c} gives {:?} at {i}, the first call gave {:?}", T::NAME, ENTRIES[e], y[i].d(), gold[e][i].d())); }
        }
        st.plan_seen(&p);
        st.inc("repeated_calls_on_one_instance", s.num("calls") as u64);
        st.eval(key(&[s.0]), true, s.num("calls") as u64);
        Ok(())
    }
    /// a sequence of calls whose inputs differ from the previous one in a detail; same buffers throughout
    fn alike<T: Hn>(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let mut rng = Rng::new(s.seed());
        let d = make::<T>(&p)?;
        let twin = make::<T>(&p)?;
        let (ip, op) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
        let (mut b, mut o, mut sc) = (vec![T::zero(); n], vec![T::zero(); n], vec![T::zero(); ip.max(op)]);
        let sg = rng.below(SIGNALS);
        let mut cur = signal(sg, n, &mut rng);
        let e0 = rng.below(3);
        for c in 0..s.num("calls") {
            let v = alike_step(&mut cur, sg, &mut rng);
            let x: Vec<T> = to_t(&cur);
            let e = if rng.chance(3, 4) { e0 } else { rng.below(3) };
            let who = if rng.chance(5, 6) { &d } else { &twin };
            b.copy_from_slice(&x);
            let r = match e { 0 => lib(|| who.process(&mut b)), 1 => lib(|| who.process_with_scratch(&mut b, &mut sc)), _ => lib(|| who.process_outofplace_with_scratch(&mut b, &mut o, &mut sc)) };
            r.map_err(|m| format!("{p}: call {c} panicked: {m}"))?;
            let y = if e == 2 { &o } else { &b };
            let (r, scl) = refer(&x);
            judge(&p, ENTRIES[e], y, &r, scl, 8.0 * p.budget() * T::EPS).map_err(|m| format!("call {c} of a sequence of similar inputs (change {v}): {m}"))?;
            st.eval(key(&[s.0, &c.to_string()]), c > 0, n as u64);
        }
        st.plan_seen(&p);
        st.inc("calls_on_similar_inputs", s.num("calls") as u64);
        Ok(())
    }
    /// one instance that has seen thousands of panicking calls of one kind
    fn faults(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let q = if p.depth() > 1 { p.probed(0, 0) } else { p.clone() };
        let (kind, count) = (s.num("kind"), s.num("count"));
        let mut rng = Rng::new(s.seed());
        let d = make::<Bomb>(&q)?;
        let x: Vec<Bomb> = to_t(&signal(0, n, &mut rng));
        let gold: Vec<Vec<Bomb>> = (0..3).map(|e| call(&*d, e, &x, 0, &mut rng)).collect::<Result<_, _>>()?;
        let (ip, op) = (d.get_inplace_scratch_len(), d.get_outofplace_scratch_len());
        let (mut b, mut o, mut s1, mut s2) = (vec![Bomb::f(1.0); n + 1], vec![Bomb::f(1.0); n + 1], vec![Bomb::f(0.0); ip], vec![Bomb::f(0.0); op]);
        let mut died = 0;
        for c in 1..=count {
            let e = match kind { 3 | 4 => rng.below(3), k => k % 3 };
            if kind == 3 || kind == 5 { FUSE.with(|f| f.set(1 + rng.below(2 * n) as u64)); }
            if kind == 4 { probe::CALL_FUSE.with(|f| f.set(1)); }
            let l = if kind < 3 { n + 1 - rng.below(2) * (2 - (n == 1) as usize) } else { n };
            let r = match e {
                0 => lib(|| d.process(&mut b[..l])),
                1 => lib(|| d.process_with_scratch(&mut b[..l], &mut s1)),
                _ => lib(|| d.process_outofplace_with_scratch(&mut b[..l], &mut o[..l], &mut s2)),
            };
            FUSE.with(|f| f.set(0));
            probe::CALL_FUSE.with(|f| f.set(0));
            probe::take_contract();
            died += r.is_err() as u64;
            if kind >= 3 { for (i, v) in x.iter().enumerate() { b[i] = *v; } }
            if c.is_power_of_two() || c % 500 == 0 || c == count {
                for e in 0..3 {
                    let y = call(&*d, e, &x, 0, &mut rng).map_err(|m| format!("{p} via {}: after {died} panicking calls: {m}", ENTRIES[e]))?;
                    if let Some(j) = same_bits(&y, &gold[e]) { return Err(format!("{p} via {}: after {died} panicking calls the result is {:?} at {j}, before it was {:?}", ENTRIES[e], y[j].d(), gold[e][j].d())); }
                    st.eval(key(&[s.0, &c.to_string(), ENTRIES[e]]), died > 0, n as u64);
                }
            }
        }
        st.plan_seen(&p);
        st.inc("panics_on_one_instance", died);
        Ok(())
    }
    fn collide(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let (pa, pb) = (Plan::parse(s.get("a")).unwrap(), Plan::parse(s.get("b")).unwrap());
        let da = [mk(&pa, "f32")?, mk(&pa, "f64")?];
        let ra: Vec<_> = [0, 1].iter().map(|&i: &usize| da[i].run(i + 1, 1, 9, 0)).collect::<Result<_, _>>()?;
        let db = [mk(&pb, "f64")?, mk(&pb, "f32")?];
        for (i, d) in db.iter().enumerate() { d.check(&pb, 1 + i, 1, 3, 0)?; d.check(&pb, 2 - i, 1, 4, 0)?; }
        for (i, d) in da.iter().enumerate() {
            d.check(&pa, 1 + i, 1, 9, 0)?;
            if d.run(i + 1, 1, 9, 0)? != ra[i] { return Err(format!("{pa}: result changed after {pb} was built and used")); }
        }
        let again = [mk(&pa, "f32")?, mk(&pa, "f64")?];
        for i in 0..2 { if again[i].run(i + 1, 1, 9, 0)? != ra[i] { return Err(format!("{pa}: an instance built after {pb} gives a different result")); } }
        st.plan_seen(&pa);
        st.plan_seen(&pb);
        st.inc("length_collision_pairs", 1);
        st.eval(key(&[s.0]), true, (pa.len() + pb.len()) as u64);
        Ok(())
    }
    /// a random history over a pool of instances; every observation (configuration, entry, input) -> output must be functional
    fn hist(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let mut rng = Rng::new(s.seed());
        let base = rng.range(2, 40);
        // few configurations, many repetitions; lengths related to each other
        let mut confs: Vec<(Plan, &'static str)> = Vec::new();
        for _ in 0..6 {
            let n = match rng.below(7) { 0 => base, 1 => base * 2, 2 => base * 4, 3 => base + 1, 4 => base * base.min(20), 5 => base + 256, _ => rng.range(1, 120) };
            let p = rand_plan(n, &mut rng, 24);
            let p = if p.depth() > 1 && rng.chance(1, 3) { p.probed(rng.below(2) * n, 0) } else if rng.chance(1, 4) { p.adapted(&mut rng) } else { p };
            confs.push((p.clone(), if rng.chance(1, 2) { "f64" } else { "f32" }));
            if rng.chance(1, 2) { confs.push((p, *rng.pick(&["f32", "f64", "fat", "byte4", "bomb"]))); }
            if rng.chance(1, 2) { confs.push((rand_plan(n, &mut rng, 24), *rng.pick(&["f64", "f32"]))); }
        }
        let mut pool: Vec<(usize, Box<dyn Obj>)> = Vec::new();
        let mut seen: HashMap<(usize, usize, usize, u64, usize), (Vec<u64>, usize)> = HashMap::new();
        let mut log: Vec<String> = Vec::new();
        for step in 0..s.num("steps") {
            let act = rng.below(12);
            if pool.is_empty() || (act < 3 && pool.len() < 10) {
                let c = rng.below(confs.len());
                pool.push((c, mk(&confs[c].0, confs[c].1).map_err(|m| format!("step {step}: {m}"))?));
                st.inc("hist_constructions", 1);
                log.push(format!("new {}:{}", confs[c].0, confs[c].1));
            } else if act == 3 {
                let i = rng.below(pool.len());
                pool.swap_remove(i);
                st.inc("hist_drops", 1);
                log.push("drop".into());
            } else if act == 4 {
                let i = rng.below(pool.len());
                pool[i].1.misuse(&mut rng);
                probe::take_contract();
                st.inc("hist_misuse_calls", 1);
                log.push(format!("misuse {}", confs[pool[i].0].0));
            } else if act == 5 {
                // failing constructions
                let _ = match rng.below(3) {
                    0 => lib(|| { let _ = a(N(rng.pick(&[3usize, 5, 7, 8, 9, 14]).clone())).build::<f64>(); }),
                    1 => lib(|| { let _ = Radix4::<f32>::new(3 * rng.range(1, 40)); }),
                    _ => lib(|| { let _ = s_(N(3), N(5)).build::<f64>(); }),
                };
                st.inc("hist_failed_constructions", 1);
                log.push("failed construction".into());
            } else if act == 6 {
                // a panic in the middle of a transform
                let i = rng.below(pool.len());
                let n = pool[i].1.n();
                if confs[pool[i].0].1 == "bomb" { FUSE.with(|f| f.set(1 + rng.below(n * 6 + 2) as u64)); }
                probe::CALL_FUSE.with(|f| f.set(1 + rng.below(4) as u64));
                let r = pool[i].1.run(rng.below(3), 1, 1, 0);
                FUSE.with(|f| f.set(0));
                probe::CALL_FUSE.with(|f| f.set(0));
                if r.is_err() { st.inc("hist_injected_panics", 1); }
                log.push(format!("injected fault in {}", confs[pool[i].0].0));
            } else {
                let i = rng.below(pool.len());
                let c = pool[i].0;
                let k = if rng.chance(1, 3) { *rng.pick(&[2usize, 2, 3, 5, 8]) } else { 1 };
                let (e, iseed, sig) = (rng.below(3), rng.below(2) as u64, if rng.chance(1, 4) { 7 } else { 0 });
                let r = pool[i].1.run(e, k, iseed, sig).map_err(|m| format!("step {step}: {}:{}: {m}; history: {}", confs[c].0, confs[c].1, tail(&log)))?;
                // identical configurations may appear twice in `confs`
                let ck = confs.iter().position(|q| q.1 == confs[c].1 && q.0 == confs[c].0).unwrap();
                match seen.get(&(ck, e, k, iseed, sig)) {
                    None => {
                        pool[i].1.check(&confs[c].0, e, k, iseed, sig).map_err(|m| format!("step {step}: {m}; history: {}", tail(&log)))?;
                        seen.insert((ck, e, k, iseed, sig), (r.clone(), step));
                    }
                    Some((old, at)) => {
                        if *old != r { return Err(format!("step {step}: {} over {} via {} gave a different result for the same input than at step {at}; history: {}", confs[c].0, confs[c].1, ENTRIES[e], tail(&log))); }
                        st.inc("hist_repeat_observations", 1);
                    }
                }
                st.eval(key(&[s.0, &step.to_string()]), step > 0, r.len() as u64);
                log.push(format!("call {} {}", confs[c].0, e));
            }
        }
        // a virgin thread and virgin instances must see the same
        let items: Vec<_> = seen.into_iter().collect();
        let confs2 = confs.clone();
        let r: Result<u64, String> = std::thread::spawn(move || {
            let mut cnt = 0;
            for ((c, e, k, iseed, sig), (old, at)) in items {
                let d = mk(&confs2[c].0, confs2[c].1)?;
                if d.run(e, k, iseed, sig)? != old { return Err(format!("{} over {} via {}: a fresh instance on a fresh thread disagrees with the result recorded at step {at}", confs2[c].0, confs2[c].1, ENTRIES[e])); }
                cnt += 1;
            }
            Ok(cnt)
        }).join().map_err(|_| "dhtmon: fresh thread died".to_string())?;
        st.inc("fresh_thread_comparisons", r?);
        st.sample(|| format!("{} -> {}", s.0, tail(&log)));
        Ok(())
    }
    fn s_(q: Plan, h: Plan) -> Plan { crate::plan::s(q, h) }
    fn tail(l: &[String]) -> String { l[l.len().saturating_sub(14)..].join(" | ") }
    /// a panic inside the arithmetic at chosen points, then the same call again
    fn bomb(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let e = s.num("e");
        let mut rng = Rng::new(s.seed());
        let d = make::<Bomb>(&p)?;
        st.plan_seen(&p);
        let x: Vec<Bomb> = to_t(&signal(0, n, &mut rng));
        let big = 1u64 << 60;
        FUSE.with(|f| f.set(big));
        let gold = call(&*d, e, &x, 0, &mut rng)?;
        let ops = big - FUSE.with(|f| f.get());
        FUSE.with(|f| f.set(0));
        if ops == 0 { return Ok(()); }
        let tries = s.num("tries") as u64;
        let pts: Vec<u64> = if ops <= tries { (1..=ops).collect() } else { (0..tries).map(|i| match i { 0 => 1, 1 => ops, _ => 1 + rng.below(ops as usize) as u64 }).collect() };
        let other = make::<Bomb>(&p)?;
        for pt in pts {
            FUSE.with(|f| f.set(pt));
            let r = call(&*d, e, &x, rng.below(5), &mut rng);
            let left = FUSE.with(|f| f.replace(0));
            if r.is_ok() || left != 0 { return Err(format!("{p} via {}: an arithmetic panic at operation {pt} of {ops} did not surface as a panic", ENTRIES[e])); }
            st.inc("injected_arithmetic_panics", 1);
            for (w, q) in [("the same instance", &d), ("another instance", &other)] {
                let y = call(&**q, e, &x, 0, &mut rng).map_err(|m| format!("{p} via {}: after a panic at operation {pt} of {ops}, {w}: {m}", ENTRIES[e]))?;
                if let Some(i) = same_bits(&y, &gold) { return Err(format!("{p} via {}: after a panic at operation {pt} of {ops}, {w} gives {:?} at {i}, before it gave {:?}", ENTRIES[e], y[i].d(), gold[i].d())); }
            }
            st.eval(key(&[s.0, &pt.to_string()]), true, 2 * n as u64);
        }
        Ok(())
    }
    /// very many live instances; every one of them, old or new, keeps its function
    fn mass(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let mut rng = Rng::new(s.seed());
        let mut pool: Vec<(Plan, &'static str, Box<dyn Obj>, usize, Vec<u64>)> = Vec::new();
        for i in 0..s.num("count") {
            let n = match rng.below(3) { 0 => rng.range(1, 40), 1 => rng.range(1, 400), _ => 1 + i % 1500 };
            let p = fast_plan(n, &mut rng);
            let ty = *rng.pick(&["f64", "f32"]);
            let d = mk(&p, ty)?;
            let e = rng.below(3);
            let r = d.run(e, 1, 5, 0)?;
            if i % 40 == 0 { d.check(&p, e, 1, 5, 0)?; }
            pool.push((p, ty, d, e, r));
            if i % 16 == 15 {
                // revisit an old one, both the object and a newly built twin
                let j = rng.below(pool.len());
                let (p, ty, d, e, r) = &pool[j];
                if d.run(*e, 1, 5, 0)? != *r { return Err(format!("{p} over {ty} via {}: instance number {j} changed its result after {i} instances were built", ENTRIES[*e])); }
                if mk(p, ty)?.run(*e, 1, 5, 0)? != *r { return Err(format!("{p} over {ty} via {}: an instance built after {i} others differs from instance number {j}", ENTRIES[*e])); }
                st.eval(key(&[s.0, &i.to_string()]), true, 2 * p.len() as u64);
            }
        }
        for (j, (p, ty, d, e, r)) in pool.iter().enumerate() {
            if d.run(*e, 1, 5, 0)? != *r { return Err(format!("{p} over {ty} via {}: instance number {j} changed its result once all were built", ENTRIES[*e])); }
        }
        st.inc("instances_alive_together", pool.len() as u64);
        Ok(())
    }
    /// a panic in the arithmetic or in an inner call while a transform is being constructed
    fn cbomb(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let mut rng = Rng::new(s.seed());
        let x: Vec<Bomb> = to_t(&signal(0, n, &mut rng));
        let q = if p.depth() > 1 { p.probed(0, 0) } else { p.clone() };
        let big = 1u64 << 60;
        FUSE.with(|f| f.set(big));
        probe::CALLS.with(|c| c.set(0));
        let d = make::<Bomb>(&q)?;
        let ops = big - FUSE.with(|f| f.replace(0));
        let calls = probe::CALLS.with(|c| c.get());
        st.plan_seen(&p);
        let gold: Vec<Vec<Bomb>> = (0..3).map(|e| call(&*d, e, &x, 0, &mut rng)).collect::<Result<_, _>>()?;
        for i in 0..s.num("tries") {
            let inner = calls > 0 && (ops == 0 || i % 3 == 2);
            if !inner && ops == 0 { break; }
            let pt = 1 + rng.below(if inner { calls } else { ops } as usize) as u64;
            if inner { probe::CALL_FUSE.with(|f| f.set(pt)) } else { FUSE.with(|f| f.set(pt)) }
            let r = make::<Bomb>(&q);
            FUSE.with(|f| f.set(0));
            probe::CALL_FUSE.with(|f| f.set(0));
            if r.is_ok() { return Err(format!("{p}: a panic in {} {pt} of its construction did not surface", if inner { "inner call" } else { "operation" })); }
            st.inc("injected_construction_panics", 1);
            let e = rng.below(3);
            let fresh = make::<Bomb>(&q).map_err(|m| format!("{p}: construction after an aborted construction: {m}"))?;
            for (w, o) in [("an older instance", &d), ("a newly built instance", &fresh)] {
                let y = call(&**o, e, &x, 0, &mut rng).map_err(|m| format!("{p} via {}: after an aborted construction, {w}: {m}", ENTRIES[e]))?;
                if let Some(j) = same_bits(&y, &gold[e]) { return Err(format!("{p} via {}: after a construction aborted at point {pt}, {w} gives {:?} at {j}, before it was {:?}", ENTRIES[e], y[j].d(), gold[e][j].d())); }
            }
            st.eval(key(&[s.0, &i.to_string()]), true, 2 * n as u64);
        }
        Ok(())
    }
    /// a panic out of every inner call in turn, then the same call again
    fn fuse(s: &Spec, st: &mut Stats) -> Result<(), String> {
        let p = s.plan();
        let n = p.len();
        let e = s.num("e");
        let mut rng = Rng::new(s.seed());
        let d = make::<f64>(&p)?;
        st.plan_seen(&p);
        let x: Vec<f64> = signal(0, n, &mut rng);
        probe::CALLS.with(|c| c.set(0));
        let gold = call(&*d, e, &x, 0, &mut rng)?;
        let calls = probe::CALLS.with(|c| c.get());
        for pt in 1..=calls.min(40) {
            probe::CALL_FUSE.with(|f| f.set(pt));
            let r = call(&*d, e, &x, rng.below(FILLS), &mut rng);
            let left = probe::CALL_FUSE.with(|f| f.replace(0));
            if r.is_ok() || left != 0 { return Err(format!("{p} via {}: a panic in inner call {pt} of {calls} did not surface", ENTRIES[e])); }
            st.inc("injected_inner_panics", 1);
            let y = call(&*d, e, &x, 0, &mut rng).map_err(|m| format!("{p} via {}: after a panic in inner call {pt} of {calls}: {m}", ENTRIES[e]))?;
            if let Some(i) = same_bits(&y, &gold) { return Err(format!("{p} via {}: after a panic in inner call {pt} of {calls} the result is {:?} at {i}, before it was {:?}", ENTRIES[e], y[i].d(), gold[i].d())); }
            st.eval(key(&[s.0, &pt.to_string()]), true, n as u64);
        }
        Ok(())
    }
}
