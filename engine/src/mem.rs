//! What a thread has allocated, so that a job can be stopped before it takes all memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static USED: Cell<isize> = const { Cell::new(0) }; }

pub struct Counting;

fn add(n: isize) {
    let _ = USED.try_with(|u| u.set(u.get() + n));
}

/// Bytes this thread allocated and did not free.
pub fn used() -> isize {
    USED.with(|u| u.get())
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
