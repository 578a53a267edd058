//! Wakers that count how often each task was woken.

use std::task::{RawWaker, RawWakerVTable, Waker};

pub const TASKS: usize = 64;

/// Different wakers of one task.
const GENS: usize = 16;
static mut WOKEN: [u32; TASKS * GENS] = [0; TASKS * GENS];
static mut GEN: [u8; TASKS] = [0; TASKS];
static mut MOVING: bool = false;

static VTABLE: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake, w_drop);

unsafe fn w_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VTABLE)
}
unsafe fn w_wake(p: *const ()) {
    let p = p as *mut u32;
    *p = (*p).wrapping_add(1);
}
unsafe fn w_drop(_: *const ()) {}

/// From here on every waker is a new one, and only the last one of a task wakes it.
pub fn moving() {
    unsafe { MOVING = true }
}
fn last(i: usize) -> usize {
    unsafe { i * GENS + GEN[i] as usize }
}
/// The waker of task `i`.
pub fn waker(i: usize) -> Waker {
    unsafe {
        if MOVING {
            GEN[i] = (GEN[i] + 1) % GENS as u8;
        }
        let p = std::ptr::addr_of_mut!(WOKEN[last(i)]) as *const ();
        Waker::from_raw(RawWaker::new(p, &VTABLE))
    }
}

pub fn woken(i: usize) -> u32 {
    unsafe { WOKEN[last(i)] }
}

pub fn reset() {
    unsafe {
        WOKEN = [0; TASKS * GENS];
        GEN = [0; TASKS];
        MOVING = false;
    }
}
