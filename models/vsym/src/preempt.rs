//! Threads: at certain points of a call another thread may run.
//!
//! The points are where a lock is about to be taken or was just released (and where the harness's
//! transport is entered).  The harness says what the other thread does.  While a lock is held
//! nothing else runs: whoever needs that lock would wait, and whoever does not need it could
//! as well have run before.

static mut ON: bool = false;
static mut CALLBACK: Option<fn()> = None;
static mut NESTED: bool = false;
static mut THREAD: u8 = 0;
static mut HELD: [usize; 8] = [0; 8];
static mut NHELD: usize = 0;
/// locks held that are not followed one by one
static mut HOLDS: u32 = 0;
/// lock held, lock taken then, by which thread
static mut EDGES: [(usize, usize, u8); 64] = [(0, 0, 0); 64];
static mut NEDGES: usize = 0;

pub fn install(f: fn()) {
    unsafe { CALLBACK = Some(f) }
}
pub fn on(b: bool) {
    unsafe { ON = b }
}
/// Whether another call is interrupted.
pub fn nested() -> bool {
    unsafe { NESTED }
}
/// Which thread runs now.
pub fn thread(t: u8) -> u8 {
    unsafe { std::mem::replace(&mut *std::ptr::addr_of_mut!(THREAD), t) }
}
#[inline(never)]
pub fn point() {
    unsafe {
        if ON && NHELD == 0 && HOLDS == 0 {
            if let Some(f) = CALLBACK {
                ON = false;
                NESTED = true;
                f();
                NESTED = false;
                ON = true;
            }
        }
    }
}
#[inline(never)]
pub fn lock(a: usize) {
    point();
    unsafe {
        for i in 0..NHELD {
            crate::check(HELD[i] != a, "no task waits for a lock it holds itself");
        }
    }
    locked(a)
}
pub fn locked(a: usize) {
    unsafe {
        for i in 0..NHELD {
            let h = HELD[i];
            let mut known = false;
            for k in 0..NEDGES {
                let (x, y, t) = EDGES[k];
                crate::check(
                    THREAD == 0 || t == THREAD || !(x == a && y == h),
                    "two threads do not take the same locks in opposite orders",
                );
                known |= (x, y, t) == (h, a, THREAD);
            }
            if !known && THREAD != 0 && NEDGES < EDGES.len() {
                EDGES[NEDGES] = (h, a, THREAD);
                NEDGES += 1;
            }
        }
        if NHELD < HELD.len() {
            HELD[NHELD] = a;
            NHELD += 1;
        }
    }
}
#[inline(never)]
pub fn unlock(a: usize) {
    unsafe {
        let mut i = NHELD;
        while i > 0 {
            i -= 1;
            if HELD[i] == a {
                for k in i + 1..NHELD {
                    HELD[k - 1] = HELD[k];
                }
                NHELD -= 1;
                break;
            }
        }
    }
    point();
}

/// A lock is held until this is dropped.
pub struct Held;
#[inline(never)]
pub fn hold() -> Held {
    unsafe { HOLDS += 1 }
    Held
}
impl Drop for Held {
    fn drop(&mut self) {
        unsafe { HOLDS -= 1 }
    }
}
