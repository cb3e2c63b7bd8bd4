//! The system allocator, except that an absurd request inside an execution ends the simulated process,
//! as it would end the real one.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Guard;
const MAX: usize = 4 << 30;

fn absurd(n: usize) {
    if n > MAX && rt::active() {
        rt::proc_abort(134);
    }
}

/// Memory that ran out inside an execution ends the simulated process.
fn out(p: *mut u8) -> *mut u8 {
    if p.is_null() && rt::active() {
        rt::proc_abort(134);
    }
    p
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX {
            absurd(l.size());
        }
        out(System.alloc(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX {
            absurd(l.size());
        }
        out(System.alloc_zeroed(l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX {
            absurd(n);
        }
        out(System.realloc(p, l, n))
    }
}
