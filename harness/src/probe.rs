//! User-side Dht implementations used as inner transforms. They observe every call the real
//! composite algorithms make, check the caller against the documented contract, trash all
//! memory the contract lets them trash, and can inject yields and panics.
use crate::nums::Hn;
use rustdht::Dht;
use rustfft::Length;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;

thread_local! {
    pub static CONTRACT: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
    pub static BLOCKS: Cell<u64> = const { Cell::new(0) };
    pub static SCRATCH_SEEN: Cell<u64> = const { Cell::new(0) };
    /// inner calls left until a probe panics (0 = disarmed)
    pub static CALL_FUSE: Cell<u64> = const { Cell::new(0) };
    /// rendezvous with other threads inside inner calls
    pub static MEET: RefCell<Option<Arc<Meet>>> = const { RefCell::new(None) };
    pub static TID: Cell<u64> = const { Cell::new(0) };
    pub static NOGARBLE: Cell<bool> = const { Cell::new(false) };
    /// user-written inner transforms that accept whatever they are given (they neither need nor check their scratch)
    pub static LAX: Cell<bool> = const { Cell::new(false) };
}
/// what the threads of one concurrent case share; relaxed atomics only, so that the monitor
/// does not add synchronisation that could hide a race
#[derive(Default)]
pub struct Meet {
    pub inside: AtomicUsize,
    pub overlaps: AtomicU64,
    /// rolling hash of the order in which threads entered/left inner transforms
    pub order: AtomicU64,
}
pub const PROBE_BOMB: &str = "dhtmon injected inner-transform panic";
pub const CONTRACT_MSG: &str = "dhtmon contract violation towards inner transform";

pub fn take_contract() -> Vec<String> { CONTRACT.with(|c| std::mem::take(&mut *c.borrow_mut())) }
fn contract_fail(msg: String) -> ! {
    CONTRACT.with(|c| c.borrow_mut().push(msg.clone()));
    panic!("{CONTRACT_MSG}: {msg}");
}
fn order_event(m: &Meet, tag: u64) {
    let t = TID.with(|t| t.get());
    let mut h = m.order.load(Ordering::Relaxed);
    while let Err(cur) = m.order.compare_exchange_weak(h, (h ^ (t * 4 + tag)).wrapping_mul(0x0000_0100_0000_01b3), Ordering::Relaxed, Ordering::Relaxed) { h = cur; }
}
fn enter() {
    CALLS.with(|c| c.set(c.get() + 1));
    CALL_FUSE.with(|c| {
        let x = c.get();
        if x > 0 {
            c.set(x - 1);
            if x == 1 { panic!("{PROBE_BOMB}") }
        }
    });
    MEET.with(|m| if let Some(m) = &*m.borrow() {
        order_event(m, 1);
        let before = m.inside.fetch_add(1, Ordering::Relaxed);
        let mut met = before > 0;
        // wait (bounded) until some other thread is in the middle of a transform as well
        for i in 0..60 {
            if m.inside.load(Ordering::Relaxed) > 1 { met = true; break; }
            if i % 8 == 7 { std::thread::yield_now() } else { std::hint::spin_loop() }
        }
        if met { m.overlaps.fetch_add(1, Ordering::Relaxed); }
    });
}
fn leave() {
    MEET.with(|m| if let Some(m) = &*m.borrow() {
        m.inside.fetch_sub(1, Ordering::Relaxed);
        order_event(m, 2);
    });
}
/// really reads the elements (an inner transform may look at any memory it is given: uninitialised elements are a fault of the caller,
/// which the undefined-behaviour interpreter reports here)
fn look<T: Hn>(v: &[T]) {
    if !cfg!(any(miri, feature = "look")) { return; }
    let mut h = 0u64;
    for e in v { h ^= e.bits(); }
    if h == 0x1234_5678_9abc_def1 { std::hint::black_box(h); }
}
fn garble<T: Hn>(v: &mut [T]) {
    if NOGARBLE.with(|g| g.get()) { return; }
    for (i, e) in v.iter_mut().enumerate() {
        *e = T::f(match i % 3 { 0 => f64::NAN, 1 => f64::INFINITY, _ => -1.0e30 });
    }
}
fn check_ip<T>(me: &dyn Dht<T>, what: &str, buf: usize, scr: usize) where T: Hn {
    let n = me.len();
    if n == 0 { return; }
    if buf < n || buf % n != 0 {
        contract_fail(format!("{what}: in-place buffer of {buf} elements for an inner transform of length {n}"));
    }
    if scr < me.get_inplace_scratch_len() {
        contract_fail(format!("{what}: {scr} elements of in-place scratch, inner transform of length {n} asked for {}", me.get_inplace_scratch_len()));
    }
    BLOCKS.with(|c| c.set(c.get() + (buf / n) as u64));
    SCRATCH_SEEN.with(|c| c.set(c.get().max(scr as u64)));
}
fn check_oop<T>(me: &dyn Dht<T>, what: &str, i: usize, o: usize, scr: usize) where T: Hn {
    let n = me.len();
    if n == 0 { return; }
    if i != o || i < n || i % n != 0 {
        contract_fail(format!("{what}: out-of-place input/output of {i}/{o} elements for an inner transform of length {n}"));
    }
    if scr < me.get_outofplace_scratch_len() {
        contract_fail(format!("{what}: {scr} elements of out-of-place scratch, inner transform of length {n} asked for {}", me.get_outofplace_scratch_len()));
    }
    BLOCKS.with(|c| c.set(c.get() + (i / n) as u64));
    SCRATCH_SEEN.with(|c| c.set(c.get().max(scr as u64)));
}

/// wraps a real transform; asks for at least `ip`/`op` scratch
pub struct Probe<T: Hn> { inner: Arc<dyn Dht<T>>, ip: usize, op: usize }
impl<T: Hn> Probe<T> {
    pub fn new(inner: Arc<dyn Dht<T>>, ip: usize, op: usize) -> Self {
        let ip = ip.max(inner.get_inplace_scratch_len());
        let op = op.max(inner.get_outofplace_scratch_len());
        Probe { inner, ip, op }
    }
}
impl<T: Hn> Length for Probe<T> { fn len(&self) -> usize { self.inner.len() } }
impl<T: Hn> Dht<T> for Probe<T> {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        check_ip(self, "process_with_scratch", buffer.len(), scratch.len());
        enter();
        look(scratch);
        self.inner.process_with_scratch(buffer, &mut scratch[..self.inner.get_inplace_scratch_len()]);
        garble(scratch);
        leave();
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        check_oop(self, "process_outofplace_with_scratch", input.len(), output.len(), scratch.len());
        enter();
        look(scratch);
        look(output);
        garble(output);
        self.inner.process_outofplace_with_scratch(input, output, &mut scratch[..self.inner.get_outofplace_scratch_len()]);
        garble(scratch);
        garble(input);
        leave();
    }
    fn get_inplace_scratch_len(&self) -> usize { self.ip }
    fn get_outofplace_scratch_len(&self) -> usize { self.op }
}

/// a user-written adapter around a real transform: it asks for no scratch at all and uses the convenience call inside its own
/// calls, so that a call of the crate runs inside another call of the crate on the same thread
pub struct Adapter<T: Hn> { inner: Arc<dyn Dht<T>> }
impl<T: Hn> Adapter<T> { pub fn new(inner: Arc<dyn Dht<T>>) -> Self { Adapter { inner } } }
impl<T: Hn> Length for Adapter<T> { fn len(&self) -> usize { self.inner.len() } }
impl<T: Hn> Dht<T> for Adapter<T> {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        check_ip(self, "process_with_scratch", buffer.len(), scratch.len());
        enter();
        look(scratch);
        garble(scratch);
        self.inner.process(buffer);
        leave();
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        check_oop(self, "process_outofplace_with_scratch", input.len(), output.len(), scratch.len());
        enter();
        look(scratch);
        look(output);
        garble(scratch);
        output.copy_from_slice(input);
        garble(input);
        self.inner.process(output);
        leave();
    }
    fn get_inplace_scratch_len(&self) -> usize { 0 }
    fn get_outofplace_scratch_len(&self) -> usize { 0 }
}

/// a user-written transform: direct evaluation in T arithmetic, with arbitrary scratch demands,
/// really using whatever scratch it asked for
pub struct UserDht<T: Hn> { n: usize, ip: usize, op: usize, tab: Vec<T> }
impl<T: Hn> UserDht<T> {
    pub fn new(n: usize, ip: usize, op: usize) -> Self {
        let tab = (0..n).map(|j| { let (c, s) = crate::refdht::cis(j, n); T::f(c + s) }).collect();
        UserDht { n, ip, op, tab }
    }
    fn one(&self, inp: &[T], out: &mut [T]) {
        for (k, o) in out.iter_mut().enumerate() {
            let mut s = T::zero();
            let mut j = 0;
            for &v in inp {
                s = s + v * self.tab[j];
                j += k;
                if j >= self.n { j -= self.n; }
            }
            *o = s;
        }
    }
}
impl<T: Hn> Length for UserDht<T> { fn len(&self) -> usize { self.n } }
impl<T: Hn> Dht<T> for UserDht<T> {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        if LAX.with(|l| l.get()) {
            if self.n > 0 { let mut tmp = vec![T::zero(); self.n]; for blk in buffer.chunks_exact_mut(self.n) { self.one(blk, &mut tmp); blk.copy_from_slice(&tmp); } }
            return;
        }
        check_ip(self, "process_with_scratch", buffer.len(), scratch.len());
        if self.n == 0 { return; }
        enter();
        look(scratch);
        let mut tmp = vec![T::zero(); self.n];
        for blk in buffer.chunks_exact_mut(self.n) {
            // touch all requested scratch for real
            for e in scratch[..self.ip].iter_mut() { *e = T::f(f64::NAN); }
            self.one(blk, &mut tmp);
            blk.copy_from_slice(&tmp);
        }
        garble(scratch);
        leave();
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        if LAX.with(|l| l.get()) {
            if self.n > 0 { for (i, o) in input.chunks_exact_mut(self.n).zip(output.chunks_exact_mut(self.n)) { self.one(i, o); } }
            return;
        }
        check_oop(self, "process_outofplace_with_scratch", input.len(), output.len(), scratch.len());
        if self.n == 0 { return; }
        enter();
        look(scratch);
        look(output);
        for (i, o) in input.chunks_exact_mut(self.n).zip(output.chunks_exact_mut(self.n)) {
            for e in scratch[..self.op].iter_mut() { *e = T::f(f64::NAN); }
            self.one(i, o);
        }
        garble(scratch);
        garble(input);
        leave();
    }
    fn get_inplace_scratch_len(&self) -> usize { self.ip }
    fn get_outofplace_scratch_len(&self) -> usize { self.op }
}

/// an erratic but safe transform: the scratch it asks for differs from one question to the next. Composites may panic or
/// give nonsense with it, but must not touch memory they do not own.
pub struct Liar { n: usize, mode: usize, step: AtomicUsize }
thread_local! { pub static LIE: Cell<bool> = const { Cell::new(false) }; }
impl Liar {
    pub fn new(n: usize, mode: usize) -> Self { Liar { n, mode, step: AtomicUsize::new(0) } }
    fn drift(&self, honest: usize, what: usize) -> usize {
        if !LIE.with(|l| l.get()) || self.mode & what == 0 { return honest; }
        let i = self.step.fetch_add(1, Ordering::Relaxed);
        let h = crate::rng::mix(self.mode as u64 * 31 + self.n as u64, i as u64);
        match h % 6 { 0 => honest, 1 => honest + 1, 2 => honest * 2, 3 => honest / 2, 4 => honest.saturating_sub(1), _ => 3 * honest + 2 }
    }
}
impl Length for Liar { fn len(&self) -> usize { self.n } }
impl<T: Hn> Dht<T> for Liar {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) { garble(scratch); for e in buffer.iter_mut() { *e = T::f(0.5); } }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        garble(scratch);
        for (o, i) in output.iter_mut().zip(input.iter_mut()) { *o = *i; *i = T::f(2.5); }
    }
    fn get_inplace_scratch_len(&self) -> usize { self.drift(self.n, 2) }
    fn get_outofplace_scratch_len(&self) -> usize { self.drift(self.n / 2, 4) }
}
