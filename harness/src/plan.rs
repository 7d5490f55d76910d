//! Transform trees ("plans"): textual form, construction with the real crate, generators.
use crate::nums::Hn;
use crate::probe::{Adapter, Probe, UserDht};
use crate::rng::Rng;
use rustdht::scalar::*;
use rustdht::Dht;
use std::fmt;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Plan {
    N(usize),                 // direct transform
    B(usize),                 // fixed-size kernel
    R(usize),                 // Radix4
    S(Box<Plan>, Box<Plan>),  // SplitRadix(quarter, half)
    M(Box<Plan>, Box<Plan>),  // MixedRadix(width, height)
    X(usize, Box<Plan>),      // MixedRadix{2..6}xn
    A(Box<Plan>),             // Raders
    /// monitoring wrapper: contract checks, garbling, extra scratch demand, yielding
    P { ip: usize, op: usize, inner: Box<Plan> },
    /// user-written adapter: asks for no scratch and delegates to the convenience call of the transform it wraps
    W(Box<Plan>),
    /// user-written transform with its own scratch demands
    Q { n: usize, ip: usize, op: usize },
}
use Plan::*;
pub const BSIZES: [usize; 9] = [1, 2, 3, 4, 5, 6, 8, 9, 16];

impl fmt::Display for Plan {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            N(n) => write!(f, "N{n}"),
            B(n) => write!(f, "B{n}"),
            R(n) => write!(f, "R{n}"),
            S(a, b) => write!(f, "S({a},{b})"),
            M(a, b) => write!(f, "M({a},{b})"),
            X(r, a) => write!(f, "X{r}({a})"),
            A(a) => write!(f, "A({a})"),
            W(a) => write!(f, "W({a})"),
            P { ip, op, inner } => write!(f, "P{ip}:{op}({inner})"),
            Q { n, ip, op } => write!(f, "Q{n}:{ip}:{op}"),
        }
    }
}
pub fn bx(p: Plan) -> Box<Plan> { Box::new(p) }
pub fn m(a: Plan, b: Plan) -> Plan { M(bx(a), bx(b)) }
pub fn s(a: Plan, b: Plan) -> Plan { S(bx(a), bx(b)) }
pub fn x(r: usize, a: Plan) -> Plan { X(r, bx(a)) }
pub fn a(p: Plan) -> Plan { A(bx(p)) }
pub fn w(p: Plan) -> Plan { W(bx(p)) }
pub fn p(ip: usize, op: usize, q: Plan) -> Plan { P { ip, op, inner: bx(q) } }

impl Plan {
    pub fn parse(t: &str) -> Option<Plan> {
        let b = t.as_bytes();
        let mut i = 0;
        let r = Self::parse_at(b, &mut i)?;
        if i == b.len() { Some(r) } else { None }
    }
    fn num(b: &[u8], i: &mut usize) -> Option<usize> {
        let st = *i;
        while *i < b.len() && b[*i].is_ascii_digit() { *i += 1; }
        std::str::from_utf8(&b[st..*i]).ok()?.parse().ok()
    }
    fn eat(b: &[u8], i: &mut usize, c: u8) -> Option<()> {
        if *i < b.len() && b[*i] == c { *i += 1; Some(()) } else { None }
    }
    fn parse_at(b: &[u8], i: &mut usize) -> Option<Plan> {
        let c = *b.get(*i)?;
        *i += 1;
        Some(match c {
            b'N' => N(Self::num(b, i)?),
            b'B' => B(Self::num(b, i)?),
            b'R' => R(Self::num(b, i)?),
            b'S' | b'M' => {
                Self::eat(b, i, b'(')?;
                let l = Self::parse_at(b, i)?;
                Self::eat(b, i, b',')?;
                let r = Self::parse_at(b, i)?;
                Self::eat(b, i, b')')?;
                if c == b'S' { s(l, r) } else { m(l, r) }
            }
            b'X' => {
                let r = Self::num(b, i)?;
                Self::eat(b, i, b'(')?;
                let l = Self::parse_at(b, i)?;
                Self::eat(b, i, b')')?;
                x(r, l)
            }
            b'A' | b'W' => {
                Self::eat(b, i, b'(')?;
                let l = Self::parse_at(b, i)?;
                Self::eat(b, i, b')')?;
                if c == b'A' { a(l) } else { w(l) }
            }
            b'P' => {
                let ip = Self::num(b, i)?;
                Self::eat(b, i, b':')?;
                let op = Self::num(b, i)?;
                Self::eat(b, i, b'(')?;
                let l = Self::parse_at(b, i)?;
                Self::eat(b, i, b')')?;
                p(ip, op, l)
            }
            b'Q' => {
                let n = Self::num(b, i)?;
                Self::eat(b, i, b':')?;
                let ip = Self::num(b, i)?;
                Self::eat(b, i, b':')?;
                let op = Self::num(b, i)?;
                Q { n, ip, op }
            }
            _ => return None,
        })
    }
    /// length according to the documentation
    pub fn len(&self) -> usize {
        match self {
            N(n) | B(n) | R(n) => *n,
            Q { n, .. } => *n,
            S(q, _) => 4 * q.len(),
            M(w, h) => w.len() * h.len(),
            X(r, h) => r * h.len(),
            A(i) => i.len() + 1,
            P { inner, .. } | W(inner) => inner.len(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            N(_) | B(_) | R(_) | Q { .. } => 1,
            S(l, r) | M(l, r) => 1 + l.depth().max(r.depth()),
            X(_, i) | A(i) => 1 + i.depth(),
            P { inner, .. } | W(inner) => inner.depth(),
        }
    }
    pub fn kinds(&self, out: &mut Vec<&'static str>) {
        match self {
            N(_) => out.push("DhtNaive"),
            B(_) => out.push("Butterfly"),
            R(_) => out.push("Radix4"),
            Q { .. } => out.push("user-written"),
            S(l, r) => { out.push("SplitRadix"); l.kinds(out); r.kinds(out) }
            M(l, r) => { out.push("MixedRadix"); l.kinds(out); r.kinds(out) }
            X(k, i) => { out.push(match k { 2 => "MixedRadix2xn", 3 => "MixedRadix3xn", 4 => "MixedRadix4xn", 5 => "MixedRadix5xn", _ => "MixedRadix6xn" }); i.kinds(out) }
            A(i) => { out.push("Raders"); i.kinds(out) }
            P { inner, .. } | W(inner) => inner.kinds(out),
        }
    }
    pub fn top(&self) -> &'static str {
        let mut v = Vec::new();
        self.kinds(&mut v);
        v[0]
    }
    /// model of the rms rounding error on random data, in units of epsilon (independent errors per level)
    pub fn rms(&self) -> f64 {
        match self {
            N(n) | Q { n, .. } => 0.4 + 0.16 * (*n as f64).sqrt(),
            B(_) => 0.45,
            R(n) => 0.35 * (1.0 + (*n as f64).log2().max(1.0)).sqrt(),
            S(q, h) => (0.16 + q.rms().powi(2).max(h.rms().powi(2))).sqrt(),
            M(w, h) => (0.20 + w.rms().powi(2) + h.rms().powi(2)).sqrt(),
            X(_, h) => (0.30 + h.rms().powi(2)).sqrt(),
            A(i) => (1.5 + 6.0 * i.rms().powi(2)).sqrt(),
            P { inner, .. } | W(inner) => inner.rms(),
        }
    }
    /// generous per-plan rounding allowance in units of epsilon, also for adversarial (biased) data
    pub fn budget(&self) -> f64 {
        match self {
            N(n) => 2.0 + 0.5 * *n as f64,
            Q { n, .. } => 2.0 + 0.5 * *n as f64,
            B(_) => 3.0,
            R(n) => 1.0 + (*n as f64).log2().max(1.0),
            S(q, h) => 2.0 + q.budget().max(h.budget()),
            M(w, h) => 2.0 + w.budget() + h.budget(),
            X(_, h) => 3.0 + h.budget(),
            A(i) => 4.0 + 3.0 * i.budget(),
            P { inner, .. } | W(inner) => inner.budget(),
        }
    }
    pub fn build<T: Hn>(&self) -> Arc<dyn Dht<T>> {
        match self {
            N(n) => Arc::new(DhtNaive::new(*n)),
            B(1) => Arc::new(Butterfly1::new()),
            B(2) => Arc::new(Butterfly2::new()),
            B(3) => Arc::new(Butterfly3::new()),
            B(4) => Arc::new(Butterfly4::new()),
            B(5) => Arc::new(Butterfly5::new()),
            B(6) => Arc::new(Butterfly6::new()),
            B(8) => Arc::new(Butterfly8::new()),
            B(9) => Arc::new(Butterfly9::new()),
            B(16) => Arc::new(Butterfly16::new()),
            B(n) => panic!("dhtmon: no butterfly {n}"),
            R(n) => Arc::new(Radix4::new(*n)),
            S(q, h) => Arc::new(SplitRadix::new(q.build(), h.build())),
            M(w, h) => Arc::new(MixedRadix::new(w.build(), h.build())),
            X(2, h) => Arc::new(MixedRadix2xn::new(h.build())),
            X(3, h) => Arc::new(MixedRadix3xn::new(h.build())),
            X(4, h) => Arc::new(MixedRadix4xn::new(h.build())),
            X(5, h) => Arc::new(MixedRadix5xn::new(h.build())),
            X(6, h) => Arc::new(MixedRadix6xn::new(h.build())),
            X(n, _) => panic!("dhtmon: no radix {n}"),
            A(i) => Arc::new(RadersAlgorithm::new(i.build())),
            P { ip, op, inner } => Arc::new(Probe::new(inner.build(), *ip, *op)),
            Q { n, ip, op } => Arc::new(UserDht::new(*n, *ip, *op)),
            W(inner) => Arc::new(Adapter::new(inner.build())),
        }
    }
    /// wrap some inner transforms in user-written adapters
    pub fn adapted(&self, rng: &mut Rng) -> Plan {
        let mut f = |q: &Plan| { let i = q.adapted(rng); if rng.chance(1, 2) { w(i) } else { i } };
        match self {
            S(q, h) => s(f(q), f(h)),
            M(l, r) => m(f(l), f(r)),
            X(k, i) => x(*k, f(i)),
            A(i) => a(f(i)),
            P { ip, op, inner } => p(*ip, *op, f(inner)),
            W(i) => f(i),
            o => o.clone(),
        }
    }
    /// wrap every inner transform (not the root) in a monitoring probe
    pub fn probed(&self, ip: usize, op: usize) -> Plan {
        let w = |q: &Plan| p(ip, op, q.probed(ip, op));
        match self {
            S(q, h) => s(w(q), w(h)),
            M(l, r) => m(w(l), w(r)),
            X(k, i) => x(*k, w(i)),
            A(i) => a(w(i)),
            P { inner, .. } | W(inner) => inner.probed(ip, op),
            o => o.clone(),
        }
    }
}

pub fn is_prime(n: usize) -> bool {
    if n < 2 { return false; }
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 { return false; }
        d += 1;
    }
    true
}
pub fn divisors(n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    let mut d = 1;
    while d * d <= n {
        if n % d == 0 {
            v.push(d);
            if d * d != n { v.push(n / d); }
        }
        d += 1;
    }
    v.sort();
    v
}
/// random legal tree for exactly this length; `naive_max` bounds the direct transform
pub fn rand_plan(n: usize, rng: &mut Rng, naive_max: usize) -> Plan {
    if n == 0 { return N(0); }
    if BSIZES.contains(&n) && rng.chance(1, 2) { return B(n); }
    if n <= naive_max && rng.chance(1, 6) { return N(n); }
    if n.is_power_of_two() && rng.chance(1, 4) { return R(n); }
    let mut opts: Vec<usize> = Vec::new(); // 0=M 2..6=X 7=S 8=A
    for k in 2..=6 { if n % k == 0 && n / k >= 1 && n > k { opts.push(k); } }
    if n % 4 == 0 && n >= 4 { opts.push(7); opts.push(7); }
    let dv: Vec<usize> = divisors(n).into_iter().filter(|&d| d > 1 && d < n).collect();
    if !dv.is_empty() { opts.push(0); opts.push(0); }
    if is_prime(n) && n > 2 { opts.push(8); }
    if n == 2 || n == 1 { return if n == 2 { if rng.chance(1, 2) { B(2) } else { N(2) } } else { N(1) }; }
    if opts.is_empty() { return N(n); }
    match *rng.pick(&opts) {
        0 => {
            let w = *rng.pick(&dv);
            m(rand_plan(w, rng, naive_max), rand_plan(n / w, rng, naive_max))
        }
        7 => s(rand_plan(n / 4, rng, naive_max), rand_plan(n / 2, rng, naive_max)),
        8 => {
            if n <= naive_max && rng.chance(1, 5) { N(n) } else { a(rand_plan(n - 1, rng, naive_max)) }
        }
        k => x(k, rand_plan(n / k, rng, naive_max)),
    }
}
/// sensible tree for a (possibly huge) length: kernels and fast algorithms only, direct only for tiny leftovers
pub fn fast_plan(n: usize, rng: &mut Rng) -> Plan {
    if BSIZES.contains(&n) { return B(n); }
    if n < 16 && !is_prime(n) { return N(n); }
    if is_prime(n) {
        return if n < 12 && rng.chance(1, 2) { N(n) } else { a(fast_plan(n - 1, rng)) };
    }
    if n.is_power_of_two() {
        return match rng.below(4) {
            0 => R(n),
            1 => split_chain(n),
            2 => x(4, fast_plan(n / 4, rng)),
            _ => x(2, fast_plan(n / 2, rng)),
        };
    }
    let mut opts = Vec::new();
    for k in 2..=6 { if n % k == 0 { opts.push(k); } }
    if n % 4 == 0 { opts.push(7); }
    let dv: Vec<usize> = divisors(n).into_iter().filter(|&d| d > 1 && d < n).collect();
    opts.push(0);
    match *rng.pick(&opts) {
        0 => {
            let w = dv[dv.len() / 2 - if rng.chance(1, 2) && dv.len() >= 2 { 1 } else { 0 }];
            m(fast_plan(w, rng), fast_plan(n / w, rng))
        }
        7 => s(fast_plan(n / 4, rng), fast_plan(n / 2, rng)),
        k => x(k, fast_plan(n / k, rng)),
    }
}
pub fn split_chain(n: usize) -> Plan {
    match n {
        1 | 2 | 4 | 8 | 16 => B(n),
        _ => s(split_chain(n / 4), split_chain(n / 2)),
    }
}
pub fn xchain(k: usize, n: usize) -> Plan {
    if n == 1 || (BSIZES.contains(&n) && (n % k == 0 || n < k)) { return B(n); }
    x(k, xchain(k, n / k))
}
pub fn mchain(parts: &[usize]) -> Plan {
    let leaf = |n: usize| if BSIZES.contains(&n) { B(n) } else if n.is_power_of_two() { R(n) } else { N(n) };
    if parts.len() == 1 { leaf(parts[0]) } else { m(leaf(parts[0]), mchain(&parts[1..])) }
}

/// the systematic catalogue: every algorithm over every small inner length, plus characteristic nestings
pub fn catalog(scale: usize) -> Vec<Plan> {
    let mut v = Vec::new();
    for b in BSIZES { v.push(B(b)); }
    for n in 1..=(40 * scale) { v.push(N(n)); }
    for n in [97, 128, 211, 243, 360] { v.push(N(n)); }
    for e in 0..=11 { v.push(R(1 << e)); }
    for k in 2..=6 {
        for h in 1..=(24 * scale) { v.push(x(k, N(h))); }
        for b in BSIZES {
            v.push(x(k, B(b)));
            for k2 in 2..=6 { v.push(x(k, x(k2, B(b)))); }
        }
        for e in [1, 3, 5, 7, 8] { v.push(x(k, R(1 << e))); }
        v.push(x(k, a(B(4)))); v.push(x(k, a(B(16)))); v.push(x(k, a(R(256))));
        v.push(x(k, s(N(3), N(6)))); v.push(x(k, s(B(8), B(16))));
        v.push(x(k, m(B(3), B(4)))); v.push(x(k, m(N(7), B(5))));
    }
    for w in 1..=(10 + 6 * scale) { for h in 1..=(10 + 6 * scale) { v.push(m(N(w), N(h))); } }
    for w in BSIZES { for h in BSIZES { v.push(m(B(w), B(h))); } }
    for q in 1..=(28 * scale) { v.push(s(N(q), N(2 * q))); }
    for (q, h) in [(1, 2), (2, 4), (3, 6), (4, 8), (8, 16)] { v.push(s(B(q), B(h))); }
    for e in 5..=11 { v.push(split_chain(1 << e)); }
    for e in 2..=8 { v.push(s(R(1 << e), R(2 << e))); }
    for q in 1..=12 { for k in 2..=6 { v.push(s(x(k, N(q)), N(2 * k * q))); v.push(s(N(k * q), x(k, N(2 * q)))); } }
    for q in 1..=8 { for w in [2, 3, 5] { v.push(s(m(N(w), N(q)), m(N(2 * q), N(w)))); } }
    for pr in 3..=(110 * scale) { if is_prime(pr) { v.push(a(N(pr - 1))); } }
    v.push(a(B(1))); v.push(a(B(2))); v.push(a(B(4))); v.push(a(B(6))); v.push(a(B(16))); v.push(a(R(256)));
    v.push(a(a(N(1)))); v.push(a(x(2, N(3)))); v.push(a(x(2, a(N(4)))));
    v.push(a(x(2, a(x(2, a(B(4))))))); // 23 <- 11 <- 5
    for (w, h) in [(4, 7), (6, 5), (9, 16), (16, 16), (3, 25), (25, 3)] {
        v.push(m(N(w), a(B(4)))); v.push(m(a(B(6)), N(h))); v.push(m(x(2, N(w)), x(3, N(h))));
    }
    for (k, top) in [(2, 1024), (3, 2187), (4, 1024), (5, 3125), (6, 1296)] {
        let mut n = k;
        while n <= top { v.push(xchain(k, n)); n *= k; }
    }
    v.push(mchain(&[2, 3, 4, 5, 6])); v.push(mchain(&[6, 5, 4, 3, 2])); v.push(mchain(&[7, 8, 9])); v.push(mchain(&[16, 16, 3])); v.push(mchain(&[1, 5, 1])); v.push(mchain(&[11, 13]));
    v.push(m(split_chain(32), R(32))); v.push(m(R(64), split_chain(16)));
    v
}
/// long transforms
pub fn big_catalog(thorough: bool, rng: &mut Rng) -> Vec<Plan> {
    let mut v = vec![];
    for e in 12..=(if thorough { 22 } else { 18 }) { v.push(R(1 << e)); }
    v.push(R(1 << 20)); v.push(R(1 << 21));
    for e in [12, 13, 14, 15, 16, 17] { v.push(split_chain(1 << e)); }
    v.push(split_chain(1 << 20)); v.push(split_chain(1 << 19));
    for e in [12, 13, 16, 17] { v.push(xchain(4, 1 << e)); v.push(xchain(2, 1 << e)); }
    v.push(xchain(4, 1 << 20));
    v.push(xchain(3, 6561)); v.push(xchain(3, 59049)); v.push(xchain(3, 531441));
    v.push(xchain(5, 15625)); v.push(xchain(5, 78125)); v.push(xchain(5, 390625));
    v.push(xchain(6, 7776)); v.push(xchain(6, 46656)); v.push(xchain(6, 279936));
    for (w, h) in [(64, 64), (32, 27), (256, 243), (256, 512), (3, 2048), (2048, 3), (1024, 1024), (125, 128), (1, 4096), (4096, 1), (2, 65536), (65536, 2), (512, 1536)] {
        v.push(m(fast_plan(w, rng), fast_plan(h, rng)));
    }
    // prime lengths: Fermat, Proth, safe primes, primes with awkward p-1
    for pr in [4099, 7919, 8191, 10007, 12289, 16411, 17389, 40961, 65537, 65539, 65543, 65587, 114689, 131071, 147457, 163841, 786433] {
        v.push(a(fast_plan(pr - 1, rng)));
    }
    v.push(a(R(65536))); v.push(a(split_chain(65536))); v.push(a(xchain(4, 65536)));
    v.push(x(2, a(R(65536)))); v.push(m(B(3), a(R(65536)))); v.push(s(a(R(16)), x(2, a(R(16)))));
    for n in [10000, 30030, 44100, 48000, 65520, 65534, 65535, 65538, 99999, 131070, 250000, 262143, 262145, 510510, 1000000] { v.push(fast_plan(n, rng)); v.push(fast_plan(n, rng)); }
    if thorough {
        for n in [1 << 21, 1 << 22, 3 << 20, 1594323, 1953125, 1679616, 2097169, 4000000, 1 << 23] { v.push(fast_plan(n, rng)); v.push(fast_plan(n, rng)); }
        for _ in 0..60 { let n = rng.range(5000, 600000); v.push(fast_plan(n, rng)); }
    }
    v
}

/// lengths on either side of the block sizes, page sizes and integer widths an implementation may switch at
pub const EDGES: [usize; 12] = [512, 768, 1000, 1024, 1536, 2048, 3072, 4096, 8192, 16384, 32768, 65536];
/// every algorithm with an inner transform whose length, or whose own length, lies near an edge
pub fn edge_grid(max_len: usize, rng: &mut Rng) -> Vec<Plan> {
    let mut v = Vec::new();
    for b in EDGES {
        for d in 0..5 {
            let h = b + d - 2;
            for k in 2..=6 {
                v.push(x(k, fast_plan(h, rng)));
                if d % 2 == 0 { v.push(x(k, fast_plan(h / k, rng))); }
            }
            v.push(s(fast_plan(h, rng), fast_plan(2 * h, rng)));
            v.push(s(fast_plan(h / 4, rng), fast_plan(2 * (h / 4), rng)));
            for w in [2, 3, 4, 5, 7, 8, 16, 31, 32, 33] {
                v.push(m(fast_plan(w, rng), fast_plan(h, rng)));
                v.push(m(fast_plan(h, rng), fast_plan(w, rng)));
            }
        }
        for dir in [0, 1] {
            let mut q = b + 1 - dir;
            while !is_prime(q) { if dir == 0 { q += 1 } else { q -= 1 } }
            v.push(a(fast_plan(q - 1, rng)));
        }
    }
    v.retain(|p| p.len() <= max_len);
    v
}
