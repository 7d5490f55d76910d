//! Allocation monitor (counting, poisoning, red zones) and guard-page buffers.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    pub static ALLOCS: Cell<u64> = const { Cell::new(0) };
    pub static FREES: Cell<u64> = const { Cell::new(0) };
    pub static BYTES: Cell<u64> = const { Cell::new(0) };
    /// bytes allocated minus bytes freed by this thread, and the highest value since it was last reset
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
    pub static PEAK: Cell<i64> = const { Cell::new(0) };
}
pub fn live() -> i64 { LIVE.with(|c| c.get()) }
pub fn reset_peak() { PEAK.with(|c| c.set(live())) }
pub fn peak() -> i64 { PEAK.with(|c| c.get()) }
/// red-zone corruptions noticed when a block was freed
pub static HEAP_BAD: AtomicU64 = AtomicU64::new(0);
pub struct Mon;
/// no monitored execution needs blocks anywhere near this; refusing them turns a runaway request into an abort that is attributed to its case
const LARGEST: usize = 4 << 30;
#[inline]
fn count_alloc(n: usize) {
    let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
}
#[inline]
fn count_free(n: usize) {
    let _ = FREES.try_with(|c| c.set(c.get() + 1));
    let _ = LIVE.try_with(|c| c.set(c.get() - n as i64));
}

// (the interpreter must see uninitialised memory as such and blocks of their true size)
#[cfg(any(feature = "plainalloc", miri))]
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > LARGEST { return std::ptr::null_mut() } count_alloc(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if l.size() > LARGEST { return std::ptr::null_mut() } count_alloc(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { count_free(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > LARGEST { return std::ptr::null_mut() } count_free(l.size()); count_alloc(n); System.realloc(p, l, n) }
}
#[cfg(not(any(feature = "plainalloc", miri)))]
mod zones {
    use super::*;
    const RZ: usize = 64;
    const CANARY: u8 = 0xC7;
    fn head(l: &Layout) -> usize { RZ.max(l.align()) }
    fn outer(l: &Layout) -> Option<Layout> {
        Layout::from_size_align(head(l).checked_add(l.size())?.checked_add(RZ)?, l.align()).ok()
    }
    unsafe fn fill(p: *mut u8, l: &Layout) {
        std::ptr::write_bytes(p, CANARY, head(l));
        std::ptr::write_bytes(p.add(head(l) + l.size()), CANARY, RZ);
    }
    unsafe fn intact(p: *const u8, l: &Layout) -> bool {
        let h = std::slice::from_raw_parts(p, head(l));
        let t = std::slice::from_raw_parts(p.add(head(l) + l.size()), RZ);
        h.iter().all(|&b| b == CANARY) && t.iter().all(|&b| b == CANARY)
    }
    unsafe impl GlobalAlloc for Mon {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if l.size() > LARGEST { return std::ptr::null_mut(); }
            count_alloc(l.size());
            let Some(o) = outer(&l) else { return std::ptr::null_mut() };
            let p = System.alloc(o);
            if p.is_null() { return p; }
            fill(p, &l);
            // fresh memory is NaN in every float format: reads of uninitialised elements show up in results
            std::ptr::write_bytes(p.add(head(&l)), 0xFF, l.size());
            p.add(head(&l))
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if l.size() > LARGEST { return std::ptr::null_mut(); }
            count_alloc(l.size());
            let Some(o) = outer(&l) else { return std::ptr::null_mut() };
            let p = System.alloc_zeroed(o);
            if p.is_null() { return p; }
            fill(p, &l);
            p.add(head(&l))
        }
        unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
            count_free(l.size());
            let p = q.sub(head(&l));
            if !intact(p, &l) { HEAP_BAD.fetch_add(1, Ordering::Relaxed); }
            // freed memory is NaN as well
            std::ptr::write_bytes(q, 0xFE, l.size());
            System.dealloc(p, outer(&l).unwrap())
        }
    }
}

/// A typed buffer whose end (or start) abuts an inaccessible page; the slack on the other side is canary bytes.
pub struct GBuf<T: Copy> {
    base: *mut u8,
    total: usize,
    data: *mut T,
    n: usize,
    slack: (usize, usize), // offset, length of canary area inside the accessible part
    heap: Option<Vec<T>>,
}
/// plain exact-size heap buffers instead of guard pages (under ASan and Miri, which watch the heap themselves)
pub static HEAPBUF: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const GCAN: u8 = 0x9D;
const POOL_MAX: usize = 1 << 17;
thread_local! {
    static POOL: std::cell::RefCell<[Vec<*mut u8>; 18]> = const { std::cell::RefCell::new([const { Vec::new() }; 18]) };
}
impl<T: Copy> GBuf<T> {
    pub fn new(src: &[T], right: bool) -> Self {
        if cfg!(miri) || HEAPBUF.load(Ordering::Relaxed) {
            let mut v = src.to_vec();
            v.shrink_to_fit();
            return GBuf { base: std::ptr::null_mut(), total: 0, data: v.as_mut_ptr(), n: src.len(), slack: (0, 0), heap: Some(v) };
        }
        unsafe {
            let page = 4096usize;
            let bytes = std::mem::size_of_val(src);
            let inner = (bytes + page - 1) / page * page;
            // small regions come in power-of-two sizes and are recycled per thread: mapping calls are slow
            let inner = if inner <= POOL_MAX { inner.max(page).next_power_of_two() } else { inner };
            let total = inner + 2 * page;
            let pooled = if inner <= POOL_MAX { POOL.with(|p| p.borrow_mut()[inner.trailing_zeros() as usize].pop()) } else { None };
            let base = match pooled {
                Some(b) => b,
                None => {
                    let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
                    assert!(base as isize != -1, "dhtmon: mmap failed");
                    libc::mprotect(base as *mut _, page, libc::PROT_NONE);
                    libc::mprotect(base.add(page + inner) as *mut _, page, libc::PROT_NONE);
                    base
                }
            };
            let (off, slack) = if right {
                // element sizes here divide the page size or are multiples of their alignment
                let off = (inner - bytes) / std::mem::align_of::<T>() * std::mem::align_of::<T>();
                (off, (0, off))
            } else {
                (0, (bytes, inner - bytes))
            };
            std::ptr::write_bytes(base.add(page + slack.0), GCAN, slack.1);
            let data = base.add(page + off) as *mut T;
            std::ptr::copy_nonoverlapping(src.as_ptr(), data, src.len());
            GBuf { base, total, data, n: src.len(), slack, heap: None }
        }
    }
    pub fn slice(&mut self) -> &mut [T] { match &mut self.heap { Some(v) => v, None => unsafe { std::slice::from_raw_parts_mut(self.data, self.n) } } }
    pub fn intact(&self) -> bool {
        if self.heap.is_some() { return true; }
        unsafe {
            let s = std::slice::from_raw_parts(self.base.add(4096 + self.slack.0), self.slack.1);
            s.iter().all(|&b| b == GCAN)
        }
    }
}
impl<T: Copy> Drop for GBuf<T> {
    fn drop(&mut self) {
        if self.heap.is_some() { return; }
        let inner = self.total - 2 * 4096;
        if inner <= POOL_MAX { POOL.with(|p| p.borrow_mut()[inner.trailing_zeros() as usize].push(self.base)); return; }
        unsafe { libc::munmap(self.base as *mut _, self.total); }
    }
}
