//! An allocator that observes what a single thread does with the heap.  A checker installs it with
//! `#[global_allocator] static A: Watch = Watch;` and switches it on around the calls it explores.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Watch;

/// Where an allocation of the guarded kinds is put: against the end or the start of its pages.
/// The page before and the page after are inaccessible.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    End,
    Start,
}
#[derive(Clone, Copy)]
pub struct Mode {
    count: bool,
    guard: Option<(Place, u8)>,
}
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode { count: false, guard: None }) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

// Guarded allocations live in one reserved range of addresses, so that `dealloc` can tell.
// It is passed through once and then again from the start: it has to be long enough that what is
// alive is never met.
const SIZES: [usize; 3] = [128 << 30, 32 << 30, 8 << 30];
static ARENA: AtomicUsize = AtomicUsize::new(0);
const PAGE: usize = 4096;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);

fn base() -> usize {
    let b = BASE.load(Ordering::Acquire);
    if b > 1 {
        return b;
    }
    // One thread reserves the range, the others wait: two reservations might not fit the limit.
    if BASE.compare_exchange(0, 1, Ordering::AcqRel, Ordering::Acquire).is_err() {
        while BASE.load(Ordering::Acquire) <= 1 {
            std::thread::yield_now();
        }
        return BASE.load(Ordering::Acquire);
    }
    unsafe {
        for size in SIZES {
            let p = libc::mmap(
                std::ptr::null_mut(),
                size,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            if p != libc::MAP_FAILED {
                ARENA.store(size, Ordering::Relaxed);
                BASE.store(p as usize, Ordering::Release);
                return p as usize;
            }
        }
        // Nothing can be decided: not the crash of a case.
        libc::_exit(3)
    }
}
fn pages(size: usize) -> usize {
    size.div_ceil(PAGE) * PAGE
}
fn inside(p: *mut u8) -> bool {
    let b = BASE.load(Ordering::Acquire);
    b > 1 && (p as usize) >= b && (p as usize) < b + ARENA.load(Ordering::Relaxed)
}
unsafe fn guarded(l: Layout, place: Place, fill: u8) -> *mut u8 {
    let b = base();
    let len = pages(l.size());
    let total = len + 2 * PAGE;
    let arena = ARENA.load(Ordering::Relaxed);
    if l.size() > 2 << 30 {
        return std::ptr::null_mut();
    }
    // Addresses are used again only once the whole range went by: what lay there was given back
    // long ago.
    let at = loop {
        let cur = NEXT.load(Ordering::Relaxed);
        let at = if cur + total > arena { 0 } else { cur };
        if NEXT.compare_exchange(cur, at + total, Ordering::Relaxed, Ordering::Relaxed).is_ok() {
            break at;
        }
    };
    let start = b + at + PAGE;
    if libc::mprotect(start as *mut _, len, libc::PROT_READ | libc::PROT_WRITE) != 0 {
        return std::ptr::null_mut();
    }
    let p = match place {
        Place::Start => start,
        Place::End => (start + len - l.size()) & !(l.align() - 1),
    };
    std::ptr::write_bytes(start as *mut u8, fill, len);
    p as *mut u8
}
unsafe fn unguard(p: *mut u8, l: Layout) {
    let start = (p as usize) & !(PAGE - 1);
    let len = pages(l.size());
    // The memory stays inaccessible: a later access through a stale pointer dies.
    libc::mmap(
        start as *mut _,
        len,
        libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED,
        -1,
        0,
    );
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let m = MODE.with(|m| m.get());
        if m.count {
            CALLS.with(|c| c.set(c.get() + 1));
            LIVE.with(|c| c.set(c.get() + l.size() as i64));
        }
        match m.guard {
            Some((place, fill)) if l.align() <= PAGE => guarded(l, place, fill),
            _ => System.alloc(l),
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if MODE.with(|m| m.get()).guard.is_some() {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        if MODE.with(|m| m.get()).count {
            CALLS.with(|c| c.set(c.get() + 1));
            LIVE.with(|c| c.set(c.get() + l.size() as i64));
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if MODE.with(|m| m.get()).count {
            LIVE.with(|c| c.set(c.get() - l.size() as i64));
        }
        if inside(p) {
            unguard(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
}

struct Restore(Mode);
impl Drop for Restore {
    fn drop(&mut self) {
        MODE.with(|m| m.set(self.0));
    }
}
/// Reserves the range of addresses, which else happens with the first guarded allocation.
pub fn reserve() {
    base();
}
/// For the limit of the address space, in GB: the range and what the process may need besides.
pub const LIMIT_GB: usize = 148;
pub const OFF: Mode = Mode { count: false, guard: None };
/// What is switched on for this thread.
pub fn mode() -> Mode {
    MODE.with(|m| m.get())
}
/// Runs `f` under `mode`, on whatever thread.
pub fn with<R>(mode: Mode, f: impl FnOnce() -> R) -> R {
    let r = Restore(MODE.with(|m| m.replace(mode)));
    let out = f();
    drop(r);
    out
}
/// (result, number of allocations made by this thread during `f`).
pub fn allocations<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let before = CALLS.with(|c| c.get());
    let guard = MODE.with(|m| m.get()).guard;
    let r = with(Mode { count: true, guard }, f);
    (r, CALLS.with(|c| c.get()) - before)
}
/// Bytes this thread holds more than before, `f` being the only thing that is counted.
pub fn growth<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let before = LIVE.with(|c| c.get());
    let guard = MODE.with(|m| m.get()).guard;
    let r = with(Mode { count: true, guard }, f);
    (r, LIVE.with(|c| c.get()) - before)
}
/// Runs `f` with every allocation of this thread between inaccessible pages, initially filled
/// with `fill`.
pub fn fenced<R>(place: Place, fill: u8, f: impl FnOnce() -> R) -> R {
    with(Mode { count: false, guard: Some((place, fill)) }, f)
}
