//! Tasks that run only when they were woken.
use crate::world::*;

/// What every waiting task waits for: the sizes of the pending calls.
pub const ASK: u32 = 1 << 21;

impl World {
    pub fn runnable_conn(&self) -> bool {
        matches!(self.park_conn, Some(n) if wake::woken(self.base + T_CONN) > n)
    }
    pub fn runnable_open(&self) -> bool {
        matches!(self.park_open, Some(n) if wake::woken(self.base + T_OPEN) > n)
    }
    pub fn runnable_r(&self, i: usize) -> bool {
        matches!(self.park_r[i], Some(n) if wake::woken(self.tr(i)) > n)
    }
    pub fn runnable_w(&self, i: usize) -> bool {
        matches!(self.park_w[i], Some(n) if wake::woken(self.tw(i)) > n)
    }
    pub fn runnable_f(&self, i: usize) -> bool {
        matches!(self.park_f[i], Some(n) if wake::woken(self.tw(i)) > n)
    }
    /// Run woken tasks until none is left; everything else waits.
    pub fn quiesce(&mut self) {
        for _ in 0..64 {
            if self.runnable_conn() {
                self.poll();
                continue;
            }
            if self.runnable_open() {
                let _ = self.open();
                continue;
            }
            let mut some = false;
            for i in 0..self.streams.len() {
                if !self.live(i) {
                    continue;
                }
                if self.runnable_r(i) {
                    let _ = self.read_n(i, ASK);
                    some = true;
                }
                if self.runnable_w(i) {
                    let _ = self.write_n(i, ASK);
                    some = true;
                }
                if self.runnable_f(i) {
                    let _ = self.flush(i);
                    some = true;
                }
            }
            if !some {
                return;
            }
        }
        check(false, "the tasks come to rest");
    }
    /// Nothing can be done that a task was not woken for.
    pub fn judge_quiet(&mut self) {
        for i in 0..self.streams.len() {
            if !self.live(i) {
                continue;
            }
            if self.park_r[i].is_some() {
                witness(true, "a reader waits");
                check(self.read_n(i, ASK).is_pending(), "a reader that could go on was woken");
            }
            if self.park_w[i].is_some() {
                witness(true, "a writer waits");
                check(self.write_n(i, ASK).is_pending(), "a writer that could go on was woken");
            }
            if self.park_f[i].is_some() {
                check(self.flush(i).is_pending(), "a flush that could go on was woken");
            }
        }
        if self.park_open.is_some() {
            witness(true, "an opener waits");
            check(self.open().is_pending(), "a task that can open a stream was woken");
        }
        if self.park_conn.is_some() {
            let snap = |w: &World| {
                let n = w.n();
                (n.out.len(), n.delivered.len(), n.flushes > 0 && !n.dirty)
            };
            let a = snap(self);
            let k = self.ids.len();
            self.poll();
            check(a == snap(self) && k == self.ids.len(), "a connection that could go on was woken");
        }
    }
}
