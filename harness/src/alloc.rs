//! Counts the bytes and blocks that are allocated by this thread and not yet freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}

fn count(bytes: i64, blocks: i64) {
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            count(l.size() as i64, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64), -1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            count(l.size() as i64, 1);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            count(n as i64 - l.size() as i64, 0);
        }
        q
    }
}

/// (bytes, blocks) now live
pub fn live() -> (i64, i64) {
    (BYTES.with(|b| b.get()), BLOCKS.with(|b| b.get()))
}
