//! C22: no data frame is longer than the configured size, and a write takes all that it can.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

fn history(client: bool, k: usize, inbound: bool) {
    vsym::lengths_mode();
    let mut c = Config::default();
    let split = vsym::u64("split");
    vsym::assume(split > 0);
    c.set_split_send_size(split as usize);
    let mut w = World::started(client, c, M_SIZE | M_CREDIT);
    w.n().mon.split = split;
    if inbound {
        w.step(&[PSynData, PSynWin]);
    } else {
        w.must_open();
    }
    for _ in 0..k {
        let id = w.ids[0];
        let a = w.ms(id).avail();
        let n = vsym::u32("write");
        if let Poll::Ready(Ok(x)) = w.write_n(0, n) {
            let x = x as u64;
            check(x <= n as u64 && x <= a && x <= split, "a write takes no more than was given, than the credit, and than the configured size");
            check(x > 0 || n == 0, "a write takes something");
            witness(x == split && split > CREDIT, "a long frame");
            witness(x == split && split == 1, "frames of one byte");
        }
        w.step(&[PWin(0), PAck(0), PData(0), PollC]);
        w.poll();
        let m = w.ms(id);
        check(m.data_out == m.wrote, "exactly what was accepted is sent");
    }
}
entry!(h_c22_out_c, history(true, 3, false));
entry!(h_c22_out_s, history(false, 3, false));
entry!(h_c22_in_c, history(true, 2, true));
entry!(h_c22_in_s, history(false, 3, true));
entry!(h_c22_deep, history(true, 4, false));
