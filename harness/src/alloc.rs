//! A counting allocator: live bytes, their peak, and the number of live blocks, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
fn add(n: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
        }
    });
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64), -1);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64, 0);
        }
        q
    }
}
#[global_allocator]
static A: Counting = Counting;

/// (live bytes, live blocks) of this thread.
pub fn live() -> (i64, i64) {
    (LIVE.with(|l| l.get()), BLOCKS.with(|l| l.get()))
}
/// Start a new peak at what is live now.
pub fn mark() {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
/// Bytes asked for since the thread began.
pub fn total() -> u64 {
    TOTAL.with(|t| t.get())
}
