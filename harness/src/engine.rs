//! Case execution: worker threads, crash slots, CPU-time watchdog, statistics, verdict files.
use crate::rng::hash_str;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let inlib = IN_LIB.with(|c| c.get());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} [{loc}]"));
        if inlib == 0 { eprintln!("dhtmon internal panic: {msg} [{loc}]"); }
    }));
}
pub fn clear_last_panic() { LAST_PANIC.with(|p| *p.borrow_mut() = String::new()) }
/// run code of the crate under test; Err = it panicked (with the message)
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    IN_LIB.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|c| c.set(c.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub struct Spec<'a>(pub &'a str);
impl<'a> Spec<'a> {
    pub fn kind(&self) -> &'a str { self.0.split(';').next().unwrap() }
    pub fn get(&self, k: &str) -> &'a str {
        self.opt(k).unwrap_or_else(|| panic!("dhtmon: case lacks {k}: {}", self.0))
    }
    pub fn opt(&self, k: &str) -> Option<&'a str> {
        self.0.split(';').skip(1).find_map(|f| f.strip_prefix(k).and_then(|r| r.strip_prefix('=')))
    }
    pub fn num(&self, k: &str) -> usize { self.get(k).parse().unwrap() }
    pub fn seed(&self) -> u64 { self.opt("seed").map(|v| v.parse().unwrap()).unwrap_or_else(|| hash_str(self.0)) }
    pub fn plan(&self) -> crate::plan::Plan { crate::plan::Plan::parse(self.get("plan")).expect("dhtmon: bad plan") }
}

#[derive(Default)]
pub struct Stats {
    /// library calls whose effect a monitor judged
    pub evals: u64,
    /// individual observations compared (elements, events)
    pub obs: u64,
    pub distinct: HashSet<u64>,
    /// distinct cross-thread orders of inner-transform events
    pub distinct_orders: HashSet<u64>,
    pub count: BTreeMap<String, u64>,
    pub max: BTreeMap<String, f64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn inc(&mut self, k: &str, by: u64) { 
        if let Some(v) = self.count.get_mut(k) { *v += by } else { self.count.insert(k.to_string(), by); }
    }
    pub fn maxf(&mut self, k: &str, v: f64) {
        if let Some(o) = self.max.get_mut(k) { if v > *o { *o = v } } else { self.max.insert(k.to_string(), v); }
    }
    /// one judged execution; `key` identifies it, `nontrivial` by the rule of the check
    pub fn eval(&mut self, key: u64, nontrivial: bool, obs: u64) {
        self.evals += 1;
        self.obs += obs;
        if nontrivial { self.distinct.insert(key); }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 { self.samples.push(s()); }
    }
    pub fn plan_seen(&mut self, p: &crate::plan::Plan) {
        let mut k = Vec::new();
        p.kinds(&mut k);
        k.sort();
        k.dedup();
        for x in k { self.inc(&format!("plans_with_{x}"), 1); }
        self.maxf("max_length", p.len() as f64);
        self.maxf("max_depth", p.depth() as f64);
    }
    #[cfg_attr(miri, allow(dead_code))]
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.obs += o.obs;
        self.distinct.extend(o.distinct);
        self.distinct_orders.extend(o.distinct_orders);
        for (k, v) in o.count { *self.count.entry(k).or_default() += v; }
        for (k, v) in o.max { let e = self.max.entry(k).or_insert(v); if v > *e { *e = v } }
        for s in o.samples { if self.samples.len() < 8 { self.samples.push(s) } }
    }
    pub fn json(&self, cases: usize, done: usize, extra: &[(&str, String)]) -> String {
        let q = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push(' '), c if (c as u32) < 32 => {}, c => o.push(c) } }
            o.push('"');
            o
        };
        let mut s = String::from("{");
        s += &format!("\"evaluations\":{},\"observations\":{},\"distinct_nontrivial\":{},\"cases\":{},\"cases_done\":{}", self.evals, self.obs, self.distinct.len(), cases, done);
        if !self.distinct_orders.is_empty() { s += &format!(",\"distinct_interleavings_observed\":{}", self.distinct_orders.len()); }
        for (k, v) in extra { s += &format!(",{}:{}", q(k), q(v)); }
        s += ",\"counters\":{";
        s += &self.count.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",");
        s += "},\"maxima\":{";
        s += &self.max.iter().map(|(k, v)| format!("{}:{}", q(k), if v.is_finite() { format!("{:e}", v) } else { "1e308".into() })).collect::<Vec<_>>().join(",");
        s += "},\"samples\":[";
        s += &self.samples.iter().map(|v| q(v)).collect::<Vec<_>>().join(",");
        s += "]}";
        s
    }
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub profile: String,
    pub out: String,
    pub threads: usize,
    pub only: Option<Vec<String>>, // explicit case specs (replay)
    pub budget_s: f64,
    pub hang_s: f64,
}
impl Opts { pub fn thorough(&self) -> bool { self.tier == "thorough" } }

pub type RunFn = fn(&Spec, &mut Stats) -> Result<(), String>;

#[cfg(not(miri))]
pub fn execute(o: &Opts, cases: Vec<String>, run: RunFn) -> i32 {
    use std::io::Write;
    use std::sync::atomic::{AtomicBool, AtomicUsize, AtomicU64, Ordering};
    use std::sync::Mutex;
    use std::time::Instant;
    const MAXT: usize = 64;
    static CUR: [AtomicUsize; MAXT] = [const { AtomicUsize::new(0) }; MAXT];
    static START: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
    static CLK: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
    fn cpu(clk: libc::clockid_t) -> u64 {
        unsafe {
            let mut t: libc::timespec = std::mem::zeroed();
            libc::clock_gettime(clk, &mut t);
            t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
        }
    }
    let start = Instant::now();
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let finished = AtomicBool::new(false);
    let harness_err = AtomicBool::new(false);
    let total = Mutex::new(Stats::default());
    let viol = Mutex::new(Vec::<(String, String)>::new());
    let vpath = format!("{}.viol", o.out);
    let spath = format!("{}.slots", o.out);
    let _ = std::fs::remove_file(&vpath);
    let _ = std::fs::remove_file(&o.out);
    // crash slots: one line per thread in a pre-sized file, rewritten when a case starts
    let slots = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&spath).expect("slots");
    let nt = o.threads.min(MAXT).max(1);
    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for t in 0..nt {
            let (next, done, stop, total, viol, harness_err, cases, slots, vpath) = (&next, &done, &stop, &total, &viol, &harness_err, &cases, &slots, &vpath);
            hs.push(sc.spawn(move || {
                use std::os::unix::fs::FileExt;
                unsafe {
                    let mut c: libc::clockid_t = 0;
                    libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
                    CLK[t].store(c as i64 as u64, Ordering::SeqCst);
                }
                let mut st = Stats::default();
                loop {
                    if stop.load(Ordering::Relaxed) || start.elapsed().as_secs_f64() > o.budget_s { break; }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases.len() { break; }
                    let mut line = format!("{}", i + 1);
                    while line.len() < 15 { line.push(' ') }
                    line.push('\n');
                    let _ = slots.write_all_at(line.as_bytes(), (t * 16) as u64);
                    START[t].store(cpu(CLK[t].load(Ordering::SeqCst) as i64 as libc::clockid_t), Ordering::SeqCst);
                    CUR[t].store(i + 1, Ordering::SeqCst);
                    let heap0 = crate::mem::HEAP_BAD.load(Ordering::Relaxed);
                    let r = catch_unwind(AssertUnwindSafe(|| run(&Spec(&cases[i]), &mut st)));
                    CUR[t].store(0, Ordering::SeqCst);
                    let mut msg = match r {
                        Ok(Ok(())) => None,
                        Ok(Err(m)) => Some(m),
                        Err(_) => {
                            eprintln!("dhtmon: harness error in case {}", cases[i]);
                            harness_err.store(true, Ordering::SeqCst);
                            stop.store(true, Ordering::SeqCst);
                            None
                        }
                    };
                    if msg.is_none() && crate::mem::HEAP_BAD.load(Ordering::Relaxed) != heap0 {
                        msg = Some("heap red zone corrupted (out-of-bounds write next to a heap block)".into());
                    }
                    done.fetch_add(1, Ordering::Relaxed);
                    if let Some(m) = msg {
                        let mut g = viol.lock().unwrap();
                        g.push((cases[i].clone(), m.clone()));
                        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(vpath) {
                            let _ = writeln!(f, "{}\t{}", cases[i], m.replace(['\n', '\t'], " "));
                        }
                        if g.len() >= 8 { stop.store(true, Ordering::SeqCst); }
                    }
                }
                let _ = slots.write_all_at(b"0              \n", (t * 16) as u64);
                total.lock().unwrap().merge(st);
            }));
        }
        // watchdog: CPU time of one case, not wall time; a case that stays asleep for very long while
        // using next to no CPU (and has no threads of its own) is blocked on a lock
        let (finished, cases) = (&finished, &cases);
        let wd = sc.spawn(move || {
            let (mut seen, mut looks) = (vec![(0usize, 0u64); nt], vec![0u64; nt]);
            while !finished.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for t in 0..nt {
                    let c = CUR[t].load(Ordering::SeqCst);
                    if c == 0 { continue; }
                    let s = START[t].load(Ordering::SeqCst);
                    let now = cpu(CLK[t].load(Ordering::SeqCst) as i64 as libc::clockid_t);
                    // looks at the same case, not wall time: a sandbox that is paused does not count
                    if seen[t] == (c, s) { looks[t] += 1 } else { seen[t] = (c, s); looks[t] = 0 }
                    let used = now.saturating_sub(s) as f64 / 1e9;
                    let asleep = looks[t] as f64 * 0.05 > 2.0 * o.hang_s && used < 0.2 && o.prop != "C10";
                    if CUR[t].load(Ordering::SeqCst) == c && START[t].load(Ordering::SeqCst) == s && (used > o.hang_s || asleep) {
                        println!("HANG {}", cases[c - 1]);
                        let _ = std::io::stdout().flush();
                        unsafe { libc::_exit(77) };
                    }
                }
            }
        });
        for h in hs { let _ = h.join(); }
        finished.store(true, Ordering::SeqCst);
        let _ = wd.join();
    });
    let st = total.into_inner().unwrap();
    let nd = done.load(Ordering::SeqCst);
    let js = st.json(cases.len(), nd, &[("profile", o.profile.clone())]);
    std::fs::write(&o.out, js).expect("write stats");
    if harness_err.load(Ordering::SeqCst) { return 3; }
    let nv = viol.into_inner().unwrap().len();
    if nv > 0 { 10 } else { 0 }
}

#[cfg(miri)]
pub fn execute(_o: &Opts, cases: Vec<String>, run: RunFn) -> i32 {
    let mut st = Stats::default();
    let mut bad = 0;
    for c in &cases {
        eprintln!("CASE {c}");
        if let Err(m) = run(&Spec(c), &mut st) {
            println!("MIRIVIOL {c}\t{m}");
            bad += 1;
        }
    }
    println!("MIRISTATS {}", st.json(cases.len(), cases.len(), &[]));
    if bad > 0 { 10 } else { 0 }
}
