//! Counts what each thread has allocated and not yet freed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
}

fn add(blocks: i64, bytes: i64) {
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
    let _ = BYTES.try_with(|c| c.set(c.get() + bytes));
}

/// blocks and bytes now held by this thread
pub fn live() -> (i64, i64) { (BLOCKS.with(|c| c.get()), BYTES.with(|c| c.get())) }

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { add(1, l.size() as i64) } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-1, -(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); if !p.is_null() { add(1, l.size() as i64) } p }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let q = System.realloc(p, l, n); if !q.is_null() { add(0, n as i64 - l.size() as i64) } q }
}
