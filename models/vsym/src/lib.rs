//! Support for the symbolic harnesses.
//!
//! With `--cfg vsym_symbolic` the primitives below are external functions that the symbolic
//! executor interprets.  In every other build they read a recorded solver assignment and test
//! the assertions for real, so that a harness is at the same time the replay of its own
//! counterexamples against natively compiled code.

pub mod preempt;
pub mod wake;

#[cfg(vsym_symbolic)]
mod imp {
    extern "C" {
        fn vsym_sym(width: u32, name: *const u8, len: usize) -> u64;
        fn vsym_assume(c: bool);
        fn vsym_check(c: bool, name: *const u8, len: usize);
        fn vsym_witness(c: bool, name: *const u8, len: usize);
        fn vsym_concrete(v: u64) -> u64;
        fn vsym_opaque(n: u64) -> *mut u8;
        fn vsym_mark(p: *mut u8, off: u64, there: bool);
        fn vsym_marked(p: *const u8, n: u64) -> u64;
        fn vsym_dbg(v: u64);
        fn vsym_lengths(on: bool);
        fn vsym_refuse(on: bool);
        fn vsym_heap() -> u64;
    }
    #[inline(never)]
    pub fn sym(w: u32, name: &str) -> u64 {
        unsafe { vsym_sym(w, name.as_ptr(), name.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { vsym_assume(c) }
    }
    #[inline(never)]
    pub fn check(c: bool, name: &str) {
        unsafe { vsym_check(c, name.as_ptr(), name.len()) }
    }
    #[inline(never)]
    pub fn witness(c: bool, name: &str) {
        unsafe { vsym_witness(c, name.as_ptr(), name.len()) }
    }
    pub fn concrete(v: u64) -> u64 {
        unsafe { vsym_concrete(v) }
    }
    /// From here on buffers of symbolic size have no tracked content.
    pub fn lengths_mode() {
        unsafe { vsym_lengths(true) }
    }
    /// Blocks of memory allocated and not freed.
    pub fn heap() -> u64 {
        unsafe { vsym_heap() }
    }
    /// While this is on a panic is an answer: the path ends well.
    pub fn may_refuse(on: bool) {
        unsafe { vsym_refuse(on) }
    }
    pub fn dbg(v: u64) {
        unsafe { vsym_dbg(v) }
    }
    /// A vector of `n` bytes whose content is not tracked.
    #[inline(never)]
    pub fn opaque_vec(n: usize) -> Vec<u8> {
        unsafe { Vec::from_raw_parts(vsym_opaque(n as u64), n, n) }
    }
    /// Mark one byte of a buffer whose content is not tracked.
    pub fn mark(b: &mut [u8], off: u64, there: bool) {
        unsafe { vsym_mark(b.as_mut_ptr(), off, there) }
    }
    /// Where the marked byte is, plus 1; or 0.
    pub fn marked(b: &[u8]) -> u64 {
        unsafe { vsym_marked(b.as_ptr(), b.len() as u64) }
    }
}

#[cfg(not(vsym_symbolic))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        static VALS: RefCell<VecDeque<(u32, u64)>> = RefCell::new(VecDeque::new());
    }
    pub const EXIT_VIOLATED: i32 = 42;
    pub const EXIT_DIVERGED: i32 = 43;

    pub fn load(v: Vec<(u32, u64)>) {
        VALS.with(|q| *q.borrow_mut() = v.into());
    }
    fn diverged(s: &str) -> ! {
        println!("VSYM-DIVERGED {s}");
        std::process::exit(EXIT_DIVERGED)
    }
    pub fn sym(w: u32, name: &str) -> u64 {
        match VALS.with(|q| q.borrow_mut().pop_front()) {
            Some((rw, v)) if rw == w => v,
            Some(_) => diverged("width of a value"),
            None => diverged(&format!("no value for {name}")),
        }
    }
    pub fn assume(c: bool) {
        if !c {
            diverged("assumption")
        }
    }
    pub fn check(c: bool, name: &str) {
        if !c {
            println!("VSYM-VIOLATED {name}");
            std::process::exit(EXIT_VIOLATED)
        }
    }
    pub fn witness(c: bool, name: &str) {
        if c {
            println!("VSYM-WITNESS {name}");
        }
    }
    pub fn concrete(v: u64) -> u64 {
        v
    }
    pub fn lengths_mode() {}
    struct Counting;
    thread_local! {
        static LIVE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    }
    unsafe impl std::alloc::GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            let _ = LIVE.try_with(|n| n.set(n.get().wrapping_add(1)));
            std::alloc::System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            let _ = LIVE.try_with(|n| n.set(n.get().wrapping_sub(1)));
            std::alloc::System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
            std::alloc::System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static ALLOC: Counting = Counting;
    pub fn heap() -> u64 {
        LIVE.with(|n| n.get())
    }
    pub fn may_refuse(on: bool) {
        if on {
            std::panic::set_hook(Box::new(|_| {
                println!("VSYM-DONE");
                std::process::exit(0)
            }));
        } else {
            let _ = std::panic::take_hook();
        }
    }
    pub fn dbg(v: u64) {
        println!("VSYM-DBG {v:#x}");
    }
    pub fn opaque_vec(n: usize) -> Vec<u8> {
        vec![0; n]
    }
    pub fn mark(b: &mut [u8], off: u64, there: bool) {
        if there {
            b[off as usize] = 1
        }
    }
    pub fn marked(b: &[u8]) -> u64 {
        b.iter().rposition(|x| *x == 1).map_or(0, |i| i as u64 + 1)
    }
}
pub use imp::*;

pub fn u8(n: &str) -> u8 {
    sym(8, n) as u8
}
pub fn u16(n: &str) -> u16 {
    sym(16, n) as u16
}
pub fn u32(n: &str) -> u32 {
    sym(32, n) as u32
}
pub fn u64(n: &str) -> u64 {
    sym(64, n)
}
pub fn bool(n: &str) -> bool {
    sym(1, n) != 0
}
/// A symbolic value in `0..n`.
pub fn below(n: u64, name: &str) -> u64 {
    let w = 64 - (n - 1).max(1).leading_zeros();
    let v = sym(w, name);
    if !n.is_power_of_two() || n == 1 {
        assume(v < n);
    }
    v
}
/// One of `0..n`, one path for each.
pub fn choice(n: usize, name: &str) -> usize {
    if n == 1 {
        return 0;
    }
    concrete(below(n as u64, name)) as usize
}
pub fn flip(name: &str) -> bool {
    choice(2, name) == 1
}
/// `lo..=hi`
pub fn range(lo: u64, hi: u64, name: &str) -> u64 {
    let v = sym(32, name);
    assume(lo <= v && v <= hi);
    v
}
