//! C08: reads, writes, half-close, end of stream and reset behave as the traffic says.
use crate::monitor::*;
use crate::ops::Op::*;
use crate::world::*;

fn wit(w: &mut World) {
    for id in w.ids.clone() {
        let m = w.ms(id);
        witness(m.fin_in > 0 && m.closed, "both directions ended");
        witness(m.rst_in > 0 && m.unread() > 0, "reset with data unread");
        witness(m.fin_in > 0 && m.unread() > 0, "end with data unread");
    }
}
fn outbound(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_API);
    w.must_open();
    w.run(Write(0));
    w.poll();
    w.steps(k, &[Write(0), Read(0), CloseS(0), PData(0), PDataFin(0), PWinFin(0), PWin(0), PRst(0)]);
    wit(&mut w);
}
fn inbound(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_API);
    w.step(&[PSynData, PSynWin]);
    w.steps(k, &[Write(0), Read(0), CloseS(0), PData(0), PDataFin(0), PWinFin(0), PWin(0), PRst(0)]);
    wit(&mut w);
}
/// The credit is used up, and a writer and a reader wait.
fn waiting(client: bool, k: usize, inbound: bool) {
    vsym::lengths_mode();
    let mut c = Config::default();
    c.set_split_send_size(1 << 20);
    let mut w = World::started(client, c, M_API);
    if inbound {
        w.step(&[PSynData]);
        let _ = w.packet(0);
    } else {
        w.must_open();
    }
    let r = w.write_n(0, CREDIT as u32);
    check(r == Poll::Ready(Ok(CREDIT as usize)), "a write takes all the credit");
    w.poll();
    check(w.write_n(0, 1).is_pending(), "a write without credit waits");
    check(w.packet(0).is_pending(), "a read without data waits");
    w.steps(k, &[Write(0), Packet(0), CloseS(0), PData(0), PDataFin(0), PWinFin(0), PWin(0), PRst(0), PGoAway]);
    wit(&mut w);
}
/// Data is taken by reads of any length and as whole packets.
fn mixing(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_API);
    w.step(&[PSynData, PSynWin]);
    w.steps(k, &[Packet(0), Read(0), PData(0), PDataFin(0), PWinFin(0), PRst(0)]);
    wit(&mut w);
}
/// The connection ends somewhere in the history.
fn ended(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(client, Config::default(), M_API);
    w.must_open();
    w.run(Write(0));
    w.poll();
    w.steps(k, &[Write(0), Read(0), CloseS(0), PData(0), PDataFin(0), PGoAway, Close, Flush(0)]);
    wit(&mut w);
}
/// The transport is blocked for part of the history.
fn blocked(k: usize) {
    vsym::lengths_mode();
    let mut w = World::started(true, Config::default(), M_API);
    w.must_open();
    w.run(Write(0));
    w.steps(k, &[Write(0), Read(0), CloseS(0), PData(0), PDataFin(0), PRst(0), Block, Unblock]);
    wit(&mut w);
}
/// Configured so that nothing can be read after the connection's end.
fn no_read(client: bool, k: usize) {
    vsym::lengths_mode();
    let mut c = Config::default();
    c.set_read_after_close(false);
    let mut w = World::started(client, c, M_API);
    w.no_read_after_close = true;
    w.must_open();
    w.run(Write(0));
    w.poll();
    w.steps(k, &[Read(0), PData(0), PDataFin(0), CloseS(0)]);
    match vsym::choice(3, "end") {
        0 => w.run(PGoAway),
        1 => w.run(Eof),
        _ => {
            let _ = w.close();
        }
    }
    w.poll();
    if w.end == End::Pending {
        w.end = End::None;
    }
    witness(w.ms(w.ids[0]).unread() > 0, "data unread at the connection's end");
    w.judge_finished();
}
entry!(h_c08_noread_c, no_read(true, 4));
entry!(h_c08_noread_s, no_read(false, 3));
entry!(h_c08_out_c, outbound(true, 4));
entry!(h_c08_out_s, outbound(false, 4));
entry!(h_c08_in_c, inbound(true, 4));
entry!(h_c08_in_s, inbound(false, 4));
entry!(h_c08_mixing_c, mixing(true, 4));
entry!(h_c08_mixing_s, mixing(false, 4));
entry!(h_c08_waiting_c, waiting(true, 4, false));
entry!(h_c08_waiting_s, waiting(false, 4, true));
entry!(h_c08_waiting_deep, waiting(false, 5, true));
entry!(h_c08_ended, ended(true, 4));
entry!(h_c08_blocked, blocked(4));
entry!(h_c08_out_deep, outbound(true, 5));
entry!(h_c08_ended_deep, ended(false, 5));
entry!(h_c08_blocked5, blocked(5));
entry!(h_c08_in_deep, inbound(false, 5));
