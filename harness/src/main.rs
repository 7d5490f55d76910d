//! dhtmon: drives the real RustDHT code under instrumentation and judges every execution.
mod c01;
mod c04;
mod c09;
mod c10;
mod c16;
mod engine;
mod mem;
mod nums;
mod plan;
mod probe;
mod refdd;
mod refdht;
mod rng;
mod util;

#[global_allocator]
static ALLOC: mem::Mon = mem::Mon;

fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut o = engine::Opts {
        prop: String::new(), tier: "quick".into(), seed: 1, profile: "release".into(), out: "/dev/null".into(),
        threads: 8, only: None, budget_s: 1e9, hang_s: 120.0,
    };
    let mut list = false;
    let mut shard = (0usize, 1usize);
    let mut i = 0;
    while i < args.len() {
        let v = || args[i + 1].clone();
        match args[i].as_str() {
            "--tier" => { o.tier = v(); i += 1 }
            "--seed" => { o.seed = v().parse().unwrap(); i += 1 }
            "--profile" => { o.profile = v(); i += 1 }
            "--out" => { o.out = v(); i += 1 }
            "--threads" => { o.threads = v().parse().unwrap(); i += 1 }
            "--budget" => { o.budget_s = v().parse().unwrap(); i += 1 }
            "--hang" => { o.hang_s = v().parse().unwrap(); i += 1 }
            "--case" => { o.only.get_or_insert_with(Vec::new).push(v()); i += 1 }
            "--shard" => { let t = v(); let (a, b) = t.split_once('/').unwrap(); shard = (a.parse().unwrap(), b.parse().unwrap()); i += 1 }
            "--list" => list = true,
            p => o.prop = p.to_string(),
        }
        i += 1;
    }
    let (cases, run): (fn(&engine::Opts) -> Vec<String>, engine::RunFn) = match o.prop.as_str() {
        "C01" => (c01::c01::cases, c01::c01::run),
        "C02" => (c01::c02::cases, c01::c02::run),
        "C03" => (c01::c03::cases, c01::c03::run),
        "C04" => (c04::c04::cases, c04::c04::run),
        "C05" => (c04::c05::cases, c04::c05::run),
        "C06" => (c04::c06::cases, c04::c06::run),
        "C07" => (c04::c07::cases, c04::c07::run),
        "C08" => (c04::c08::cases, c04::c08::run),
        "C09" => (c09::c09::cases, c09::c09::run),
        "C10" => (c10::c10::cases, c10::c10::run),
        "C11" => (c10::c11::cases, c10::c11::run),
        "C12" => (c01::c12::cases, c01::c12::run),
        "C13" => (c09::c13::cases, c09::c13::run),
        "C14" => (c09::c14::cases, c09::c14::run),
        "C15" => (c09::c15::cases, c09::c15::run),
        "C16" => (c16::cases, c16::run),
        p => { eprintln!("dhtmon: unknown property {p}"); std::process::exit(3) }
    };
    if !cfg!(miri) {
        if let Err(m) = refdht::self_test().and_then(|_| refdd::self_test()) { eprintln!("dhtmon: {m}"); std::process::exit(3) }
    }
    mem::HEAPBUF.store(o.profile == "asan" || o.profile == "msan", std::sync::atomic::Ordering::Relaxed);
    let cs = o.only.take().unwrap_or_else(|| cases(&o));
    let cs: Vec<String> = cs.into_iter().enumerate().filter(|(i, _)| i % shard.1 == shard.0).map(|(_, c)| c).collect();
    if list { for c in &cs { println!("{c}") } return; }
    let rc = engine::execute(&o, cs, run);
    std::process::exit(rc);
}
