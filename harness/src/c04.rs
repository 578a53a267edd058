//! C04: never more data than the credit the peer granted.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

fn config() -> Config {
    let mut c = Config::default();
    let n = vsym::u32("split");
    vsym::assume(n > 0);
    c.set_split_send_size(n as usize);
    c
}
fn end(w: &mut World) {
    w.settle();
    w.auto = true;
    // whatever credit is left can be used
    for i in 0..w.streams.len() {
        let _ = w.write_n(i, 1);
        w.poll();
    }
    let ids = w.ids.clone();
    for (k, id) in ids.into_iter().enumerate() {
        let m = w.n().mon.get(id).clone();
        if k == 0 {
            witness(m.credit == 0, "credit exhausted");
            witness(m.data_out > CREDIT, "more than the initial credit sent");
        }
    }
}
/// Our stream: writes and window updates of any size.
fn outbound(client: bool, k: usize) {
    vsym::lengths_mode();
    let c = config();
    let mut w = World::started(client, c, M_CREDIT | M_API);
    w.must_open();
    w.steps(k, &[Write(0), PWin(0)]);
    end(&mut w);
}
/// A stream of the peer, opened with any credit, or with data.
fn inbound(client: bool, k: usize) {
    vsym::lengths_mode();
    let c = config();
    let mut w = World::started(client, c, M_CREDIT | M_API);
    w.step(&[PSynWin, PSynData]);
    w.steps(k, &[Write(0), PWin(0)]);
    end(&mut w);
}
/// The connection is not polled after every call, the transport may be blocked, and other things
/// happen to the stream.
fn mixed(k: usize) {
    vsym::lengths_mode();
    let c = config();
    let mut w = World::started(true, c, M_CREDIT | M_API);
    w.must_open();
    w.auto = false;
    w.run(Write(0));
    w.steps(k, &[Write(0), PWin(0), PollC, PAck(0), PWinFin(0), CloseS(0), Read(0)]);
    end(&mut w);
}
/// Two streams: the credit of one is not that of the other.
fn two(k: usize) {
    vsym::lengths_mode();
    let c = config();
    let mut w = World::started(true, c, M_CREDIT | M_API);
    w.must_open();
    w.step(&[Open, PSynWin]);
    w.steps(k, &[Write(0), PWin(0), Write(1), PWin(1)]);
    end(&mut w);
}
entry!(h_c04_out_c, outbound(true, 6));
entry!(h_c04_out_s, outbound(false, 6));
entry!(h_c04_in_c, inbound(true, 5));
entry!(h_c04_in_s, inbound(false, 5));
entry!(h_c04_mixed, mixed(4));
entry!(h_c04_two, two(4));
entry!(h_c04_out_deep, outbound(true, 7));
entry!(h_c04_mixed_deep, mixed(5));
entry!(h_c04_two_deep, two(5));
