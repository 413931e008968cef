//! A counting allocator: peak of live bytes and largest block of the current thread, while asked to.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static SUM: Cell<usize> = const { Cell::new(0) };
}
fn up(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|l| {
                l.set(l.get() + n as isize);
                PEAK.with(|p| p.set(p.get().max(l.get())));
            });
            BIGGEST.with(|b| b.set(b.get().max(n)));
            SUM.with(|b| b.set(b.get() + n));
        }
    });
}
fn down(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            LIVE.with(|l| l.set(l.get() - n as isize));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        down(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // while it moves, both blocks exist
        up(n);
        let q = System.realloc(p, l, n);
        down(l.size());
        q
    }
}
pub fn start() {
    LIVE.with(|x| x.set(0));
    PEAK.with(|x| x.set(0));
    BIGGEST.with(|x| x.set(0));
    SUM.with(|x| x.set(0));
    ON.with(|x| x.set(true));
}
/// Peak of live bytes since `start`, and the largest block asked for.
pub fn stop() -> (usize, usize) {
    ON.with(|x| x.set(false));
    (PEAK.with(|x| x.get()).max(0) as usize, BIGGEST.with(|x| x.get()))
}
/// Bytes allocated and not freed since `start`.
pub fn kept() -> isize {
    LIVE.with(|x| x.get())
}
/// All bytes asked for since `start`, freed or not.
pub fn sum() -> usize {
    SUM.with(|x| x.get())
}
