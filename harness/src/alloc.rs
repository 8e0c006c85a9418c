//! The allocator the harness runs under: it counts, per thread, the blocks and
//! bytes that are live, and can fill fresh and released memory with a pattern.
//! Layouts are those the caller passes, so a block released with another size
//! than it was allocated with shows as an imbalance.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub struct Counting;

thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FILL: Cell<u8> = const { Cell::new(0) };
}
/// Filling costs time: only the memory check switches it on.
static ARMED: AtomicBool = AtomicBool::new(false);

pub fn arm() {
    ARMED.store(!cfg!(miri), Ordering::Relaxed);
}
/// The byte fresh memory of this thread is filled with.
pub fn set_fill(b: u8) {
    FILL.with(|f| f.set(b));
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Live {
    pub blocks: i64,
    pub bytes: i64,
    pub allocs: u64,
}
pub fn live() -> Live {
    Live { blocks: BLOCKS.with(|b| b.get()), bytes: BYTES.with(|b| b.get()), allocs: ALLOCS.with(|a| a.get()) }
}

fn count(blocks: i64, bytes: i64) {
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
    if blocks > 0 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            count(1, l.size() as i64);
            if ARMED.load(Ordering::Relaxed) {
                let b = FILL.try_with(|f| f.get()).unwrap_or(0);
                std::ptr::write_bytes(p, b, l.size());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            count(1, l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1, -(l.size() as i64));
        if ARMED.load(Ordering::Relaxed) {
            std::ptr::write_bytes(p, 0xDB, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if ARMED.load(Ordering::Relaxed) {
            // always move, so that a pointer kept from before is stale
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            return q;
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            count(0, new as i64 - l.size() as i64);
        }
        q
    }
}
