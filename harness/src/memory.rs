//! An allocator that limits what one case may hold, so that a runaway reader dies at once.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub const LIMIT: i64 = 3 << 30;

thread_local! {
    static HELD: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Limited;

fn add(count: i64) -> bool {
    HELD.try_with(|held| {
        let now = held.get() + count;
        if now > LIMIT {
            return false;
        }
        held.set(now);
        let _ = PEAK.try_with(|peak| {
            if now > peak.get() {
                peak.set(now);
            }
        });
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !add(layout.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if !add(layout.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(layout)
    }
    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        add(-(layout.size() as i64));
        System.dealloc(pointer, layout)
    }
    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        if !add(size as i64 - layout.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(pointer, layout, size)
    }
}

/// Start counting afresh on this thread.
pub fn start() {
    HELD.with(|held| held.set(0));
    PEAK.with(|peak| peak.set(0));
}

pub fn peak() -> u64 {
    PEAK.with(|peak| peak.get().max(0) as u64)
}

/// What this thread holds, from which on the peak is to be measured.
pub fn mark() -> i64 {
    let held = HELD.with(|held| held.get());
    PEAK.with(|peak| peak.set(held));
    held
}

pub fn held() -> i64 {
    HELD.with(|held| held.get())
}

/// Do something, and tell how much more has been held in the meantime, and how much more is held afterwards.
pub fn weigh<T>(body: impl FnOnce() -> T) -> (T, u64, i64) {
    let before = mark();
    let result = body();
    let peak = PEAK.with(|peak| peak.get()) - before;
    (result, peak.max(0) as u64, held() - before)
}
