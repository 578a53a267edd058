"""Which entry points decide which property, within which bounds.

needs.json (tools/mkneeds.py) adds the situations each entry must reach and the length of its longest path."""
import json, os

_N = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "needs.json")))


def E(entry, bounds, **kw):
    n = _N.get(entry, {})
    d = dict(entry=entry, bounds=bounds, need=n.get("need", []), steps=max(3_000_000, 50 * n.get("steps", 0)))
    d.update(kw)
    return d


def CS(name, c, s=None, **kw):
    """The same situation as client and as server."""
    return [E(name + "_c", "client, " + c, **kw), E(name + "_s", "server, " + (s or c), **kw)]


PROPS = {
    "C01": {"quick":
        CS("h_c01_decode", "one header of 12 free bytes, followed by its content if short")
        + CS("h_c01_fields", "one header with version 0, free type, flags, identifier, length")
        + CS("h_c01_encode", "one stream of any identifier reached by the hook-free history, write of any length, window update, close, reset, go-away")
        + CS("h_c01_answer", "answers to a SYN of any identifier and to a ping of any value")},
    "C02": {"quick":
        CS("h_c02_cuts", "4 frames, 2 cuts at any byte", "4 frames, 1 cut and 1 pause at any byte")
        + [E("h_c02_stalls", "3 pauses at any byte"), E("h_c02_cuts3", "3 cuts at any byte"),
           E("h_c02_cuts_stall", "2 cuts and a pause at any byte"), E("h_c02_fail", "the read fails at any byte"),
           E("h_c02_oversize", "a header with a length above 1 MiB, any part of it arrived")]
        + CS("h_c02_eof", "the transport ends at any byte") + CS("h_c02_long", "contents of any length in chunks of any size")},
    "C03": {"quick":
        CS("h_c03_pieces", "2 partial writes at any byte, 3 frames", "1 partial write and 1 pause at any byte, 3 frames")
        + CS("h_c03_long", "a content of any length accepted in 3 pieces of any size")
        + CS("h_c03_broken", "a write fails, or accepts nothing, at any byte") + CS("h_c03_flush", "5 operations, flush pausing or failing at any of them"),
        "thorough": [E("h_c03_pieces3", "2 partial writes and a pause at any byte, 3 frames"), E("h_c03_long_c4", "4 pieces of any size")]},
    "C04": {"quick": [
        E("h_c04_out_c", "client, own stream, 6 operations, any lengths and credits"), E("h_c04_out_s", "server, own stream, 6 operations"),
        E("h_c04_in_c", "client, the peer's stream, 5 operations"), E("h_c04_in_s", "server, the peer's stream, 5 operations"),
        E("h_c04_mixed", "data received, read and written together, 4 operations"), E("h_c04_two", "two streams, 4 operations")],
        "thorough": [E("h_c04_out_deep", "client, own stream, 7 operations"), E("h_c04_mixed_deep", "data received, read and written together, 5 operations"),
            E("h_c04_two_deep", "two streams, 5 operations")]},
    "C05": {"quick": [
        E("h_c05_out_c", "client, own stream, 3 operations, then data of any length"), E("h_c05_out_s", "server, own stream, 3 operations, then data"),
        E("h_c05_in_c", "client, the peer's stream, 3 operations, then data"), E("h_c05_in_s", "server, the peer's stream, 3 operations, then data"),
        E("h_c05_grown_c", "window grown, 4 operations, then data"), E("h_c05_grown_s", "window grown, 3 operations, then data"),
        E("h_c05_two", "two streams, 3 operations, then data"), E("h_c05_blocked", "transport blocked, 3 operations, then data"),
        E("h_c05_first_c", "first frame of a stream with data of any length"), E("h_c05_first_s", "first frame of a stream with data of any length")],
        "thorough": [E("h_c05_grown_deep", "window grown, 5 operations, then data"), E("h_c05_out_deep", "client, own stream, 4 operations, then data"), E("h_c05_blocked_deep", "transport blocked, 4 operations, then data"),
            E("h_c05_two_deep", "two streams, 4 operations, then data")]},
    "C06": {"quick": [
        E("h_c06_out_c", "client, own stream, 4 operations"), E("h_c06_out_s", "server, own stream, 4 operations"),
        E("h_c06_in_c", "client, the peer's stream, 3 operations"), E("h_c06_in_s", "server, the peer's stream, 3 operations"),
        E("h_c06_lazy_c", "client, connection polled only when woken, 4 operations"), E("h_c06_lazy_s", "server, polled only when woken, 3 operations"),
        E("h_c06_bulk_c", "client, 4 rounds of a full window read in any pieces"), E("h_c06_bulk_s", "server, 4 rounds, window growing"),
        E("h_c06_packets", "read as packets, 5 operations"), E("h_c06_waiting", "a reader always waiting, 4 operations, transport blocked in between"),
        E("h_c06_bulk4", "4 rounds, window growing")],
        "thorough": [E("h_c06_lazy5", "polled only when woken, 5 operations"), E("h_c06_out_deep", "client, own stream, 5 operations"),
            E("h_c06_in_deep", "server, the peer's stream, 4 operations"), E("h_c06_bulk5", "5 rounds, window growing")]},
    "C07": {"quick": [
        E("h_c07_one_c", "client, one stream, 3 rounds, any limit, any times"), E("h_c07_one_s", "server, one stream, 3 rounds"),
        E("h_c07_two_c", "two streams, 4 rounds"), E("h_c07_two_s", "two streams, 4 rounds"), E("h_c07_three", "three streams, 4 rounds"),
        E("h_c07_reclaim_c", "a grown stream dropped, then another"), E("h_c07_reclaim_s", "a grown stream reset, then another"),
        E("h_c07_growth_c", "growth when the limit allows"), E("h_c07_growth_s", "growth when the limit allows"),
        E("h_c07_timing_c", "client, 2 rounds, any round-trip and elapsed time, measured again or not"),
        E("h_c07_timing_s", "server, 2 rounds, the same"), E("h_c07_timing_c", "the same", plain=True),
        E("h_c07_unlimited", "no limit, 4 rounds")],
        "thorough": [E("h_c07_one_deep", "one stream, 4 rounds"), E("h_c07_two_deep", "two streams, 5 rounds")]},
    "C08": {"quick": [
        E("h_c08_out_c", "client, own stream, 4 operations of both sides"), E("h_c08_out_s", "server, own stream, 4 operations"),
        E("h_c08_in_c", "client, the peer's stream, 4 operations"), E("h_c08_in_s", "server, the peer's stream, 4 operations"),
        E("h_c08_ended", "stream with its end received, 4 operations"), E("h_c08_blocked", "transport blocked, 4 operations"),
        E("h_c08_waiting_c", "credit used up, reader and writer waiting, 4 operations"), E("h_c08_waiting_s", "the same, read as packets, 4 operations"),
        E("h_c08_mixing_c", "client, data read in pieces and taken in chunks, mixed, 4 operations"), E("h_c08_mixing_s", "server, the same"),
        E("h_c08_noread_c", "read_after_close off, 4 operations"), E("h_c08_noread_s", "read_after_close off, 3 operations")],
        "thorough": [E("h_c08_out_deep", "5 operations"), E("h_c08_ended_deep", "5 operations"),
            E("h_c08_waiting_deep", "credit used up, reader and writer waiting, 5 operations"),
            E("h_c08_blocked5", "transport blocked, 5 operations"), E("h_c08_in_deep", "server, the peer's stream, 5 operations")]},
    "C09": {"quick": [
        E("h_c09_out_c", "client, own stream, 4 operations"), E("h_c09_out_s", "server, own stream, 5 operations"),
        E("h_c09_in_c", "client, the peer's stream, 4 operations"), E("h_c09_in_s", "server, the peer's stream, 4 operations"),
        E("h_c09_lazy_out", "polled only when woken, 4 operations"), E("h_c09_lazy_in", "polled only when woken, 4 operations"),
        E("h_c09_closing", "close of the connection after 5 operations"),
        E("h_c09_out_deep", "client, own stream, 5 operations"), E("h_c09_lazy_deep", "polled only when woken, 5 operations")],
        "thorough": [E("h_c09_lazy_in5", "polled only when woken, 5 operations"), E("h_c09_in_deep", "server, the peer's stream, 5 operations")]},
    "C10": {"quick": [
        E("h_c10_any_c", "client, 6 operations opening, closing and dropping"), E("h_c10_any_s", "server, 5 operations"),
        E("h_c10_peer_c", "client, a SYN of any identifier"), E("h_c10_peer_s", "server, a SYN of any identifier"),
        E("h_c10_end_c", "client, the last identifiers, 3 opened", hook=True), E("h_c10_end_s", "server, the last identifiers, 3 opened", hook=True)],
        "thorough": [E("h_c10_any_deep", "server, 6 operations")]},
    "C11": {"quick": [
        E("h_c11_one_c", "client, maximum 1, 5 operations"), E("h_c11_one_s", "server, maximum 1, 4 operations"),
        E("h_c11_two_c", "client, maximum 2, 4 operations"), E("h_c11_two_s", "server, maximum 2, 4 operations"),
        E("h_c11_lazy", "maximum 2, polled only when woken, 4 operations"), E("h_c11_lazy5", "maximum 2, polled only when woken, 5 operations")],
        "thorough": [E("h_c11_deep", "maximum 2, 5 operations"), E("h_c11_one_deep", "server, maximum 1, 5 operations"), E("h_c11_two_deep", "client, maximum 2, 5 operations")]},
    "C12": {"quick": [
        E("h_c12_full_c", "client, backlog full, 2 operations, opener waiting"), E("h_c12_full_s", "server, backlog full, 1 operation, opener waiting, with another waker each time"),
        E("h_c12_one_c", "client, one stream of either side, 4 operations"), E("h_c12_one_s", "server, one stream of either side, 4 operations")],
        "thorough": [E("h_c12_full_deep", "client, backlog full, 3 operations, opener waiting"), E("h_c12_one_deep", "client, one stream of either side, 5 operations")]},
    "C13": {"quick": [
        E("h_c13_c", "client, 5 operations among pings of any value, blocks, other frames"), E("h_c13_s", "server, 4 operations"),
        E("h_c13_lazy", "polled only when woken, 5 operations"), E("h_c13_any_c", "one ping of any flags, stream and value"),
        E("h_c13_any_s", "one ping of any flags, stream and value")],
        "thorough": [E("h_c13_deep", "server, 5 operations")]},
    "C14": {"quick":
        CS("h_c14", "2 frames of any header on a connection with streams of both sides")
        + CS("h_c14_pre", "1 operation, then 1 frame of any header") + CS("h_c14_pre2", "2 operations, then 1 frame of any header"),
        "thorough": CS("h_c14_deep", "3 frames of any header", "1 operation, then 2 frames of any header")},
    "C15": {"quick":
        CS("h_c15", "4 operations, then the close") + CS("h_c15_busy", "4 operations, close with the transport blocked", "3 operations, close with the transport blocked")
        + CS("h_c15_during", "3 operations during the close") + [E("h_c15_many", "6 streams with queued data")],
        "thorough": [E("h_c15_deep", "5 operations, then the close"), E("h_c15_during_deep", "4 operations during the close")]},
    "C16": {"quick": [
        E("h_c16_out_c", "client, own stream, 5 events"), E("h_c16_out_s", "server, own stream, 4 events"),
        E("h_c16_in_c", "client, the peer's stream, 3 events"), E("h_c16_in_s", "server, the peer's stream, 3 events"),
        E("h_c16_credit", "credit used up, 4 events"), E("h_c16_full", "queue full, 4 events"),
        E("h_c16_open_c", "openers, 5 events"), E("h_c16_open_s", "openers, 5 events"),
        E("h_c16_split", "reader and writer in different tasks, 5 events"), E("h_c16_split_full", "the same with the queue full, 3 events"),
        E("h_c16_moving_c", "tasks that come with another waker each time, no credit, 4 events"), E("h_c16_moving_s", "the same, queue full and transport blocked, 3 events")],
        "thorough": [E("h_c16_credit5", "credit used up, 5 events"), E("h_c16_full5", "queue full, 5 events"),
            E("h_c16_in_deep", "client, the peer's stream, 4 events"), E("h_c16_open6", "openers, 6 events"), E("h_c16_moving_deep", "other wakers, queue full, 4 events")]},
    "C17": {"quick": [
        E("h_c17_out_c", "client, own stream, 3 operations, drop"), E("h_c17_out_s", "server, own stream, 3 operations, drop"),
        E("h_c17_in_c", "client, the peer's stream, 2 operations, drop"), E("h_c17_in_s", "server, the peer's stream, 3 operations, drop"),
        E("h_c17_blocked_c", "drop while blocked"), E("h_c17_blocked_s", "drop while blocked"), E("h_c17_share_c", "client, limit reached by grown windows, any end, drop: the share is used again"), E("h_c17_share_s", "server, the same"),
        E("h_c17_leak_c", "client, six streams one after another, 2 operations each: memory in use does not grow"),
        E("h_c17_leak_s", "server, the same, 3 operations each"), E("h_c17_other", "another stream beside it")],
        "thorough": [E("h_c17_out_deep", "4 operations, drop"), E("h_c17_blocked_deep", "drop while blocked, 3 and 3 operations")]},
    "C18": {"quick": [
        E("h_c18_write_c", "two writers"), E("h_c18_write_s", "one writer"), E("h_c18_lazy", "two writers, polled only when woken"),
        E("h_c18_ping_c", "20 pings"), E("h_c18_ping_s", "20 pings"), E("h_c18_read_c", "4 windows read"), E("h_c18_read_s", "4 windows read"),
        E("h_c18_drop", "streams opened, written and dropped")]},
    "C19": {"quick": [
        E("h_c19_out_c", "4 writes on two streams, symbolic bytes"), E("h_c19_out_s", "3 writes, symbolic bytes"),
        E("h_c19_in_c", "4 operations, symbolic bytes"), E("h_c19_in_s", "3 operations, symbolic bytes"),
        E("h_c19_end_c", "the end after symbolic bytes"), E("h_c19_end_s", "the end after symbolic bytes")]
        + CS("h_c19_probe_out", "any byte by its position, 4 operations, writes of any lengths, any split size, the transport taking any part")
        + CS("h_c19_probe_in", "any byte by its position, 3 operations, frames and reads of any lengths, cut anywhere, read in pieces or chunks"),
        "thorough": CS("h_c19_probe_two", "any byte by its position, two streams, 3 operations")
            + [E("h_c19_probe_in4", "any byte by its position, 4 operations"), E("h_c19_probe_out5", "any byte by its position, 5 operations")] + [E("h_c19_out_deep", "5 writes"), E("h_c19_in_deep", "5 operations")]},
    "C20": {"quick": [
        E("h_c20_oo_c", "two own streams, 2 operations on one"), E("h_c20_oi_s", "one of each side"), E("h_c20_io_c", "one of each side"),
        E("h_c20_ii_s", "two of the peer's"), E("h_c20_stuck_c", "one out of credit and unread"), E("h_c20_stuck_s", "one out of credit and unread"),
        E("h_c20_blocked_c", "transport blocked, 2 operations on another stream"), E("h_c20_blocked_s", "transport blocked, 2 operations on another stream"),
        E("h_c20_unknown_c", "any frame for unknown streams"), E("h_c20_unknown_s", "any frame for unknown streams")],
        "thorough": [E("h_c20_blocked_deep", "transport blocked, 3 operations"), E("h_c20_oo_deep", "3 operations"), E("h_c20_ii_deep", "3 operations")]},
    "C21": {"quick": [
        E("h_c21_c", "client, 2 operations, every kind of end"), E("h_c21_s", "server, 2 operations, every kind of end"),
        E("h_c21_drop_c", "drops after the end"), E("h_c21_drop_s", "drops after the end"),
        E("h_c21_opener", "256 unacknowledged streams and a task that waits to open another, every kind of end"),
        E("h_c21_released_c", "client, 2 operations, every kind of end, everything dropped: no memory left in use"), E("h_c21_released_s", "server, the same"),
        E("h_c21_refused_c", "too many streams"), E("h_c21_refused_s", "too many streams")],
        "thorough": [E("h_c21_deep", "3 operations, every kind of end")]},
    "C22": {"quick": [
        E("h_c22_out_c", "client, own stream, 3 operations, any split size"), E("h_c22_out_s", "server, own stream, 3 operations"),
        E("h_c22_in_c", "client, the peer's stream, 2 operations"), E("h_c22_in_s", "server, the peer's stream, 3 operations")],
        "thorough": [E("h_c22_deep", "4 operations")]},
    "C23": {"quick": [
        E("h_c23_c", "client, 4 steps, clock moving by any amount"), E("h_c23_s", "server, 4 steps"), E("h_c23_lazy", "transport blocked in between, 3 steps"),
        E("h_c23_wrong_c", "a pong of any value"), E("h_c23_wrong_s", "a pong of any value"), E("h_c23_deep", "5 steps")]},
    "C24": {"quick": [
        E("h_c24_write_c", "client, write failure after 2 operations, 2 more"), E("h_c24_write_s", "server, write failure after 1 operation, 3 more"),
        E("h_c24_read_c", "client, read failure after 2 operations, 2 more"), E("h_c24_read_s", "server, read failure after 3 operations, 1 more"),
        E("h_c24_any_c", "client, 16 kinds of errors of reads, writes, flushes"), E("h_c24_any_s", "server, the same"),
        E("h_c24_recover", "errors of the kind that could be retried"), E("h_c24_closing", "failure during the close"),
        E("h_c24_opener", "failure with an opener waiting")]},
    "C25": {"quick": [
        E("h_c25_c", "client, 3 operations, then a go-away of any code, flags and stream"), E("h_c25_s", "server, the same")]},
    "C26": {"quick": [
        E("h_c26_one", "one stream, 2 windows, 1 MiB transport"), E("h_c26_tight", "one stream, 12-byte transport"),
        E("h_c26_tight2", "one stream, 30-byte transport"), E("h_c26_two", "two streams, one window"),
        E("h_c26_picks", "6 free choices of the next task"), E("h_c26_any", "any transport capacity"),
        E("h_c26_cross", "both directions, 30-byte transport"), E("h_c26_close", "close at several moments"),
        E("h_c26_close_tight", "close, 30-byte transport"), E("h_c26_close_both", "both close"),
        E("h_c26_close_both_tight", "both close, 30-byte transport"), E("h_c26_drop", "an end dropped at several moments"),
        E("h_c26_drop_tight", "an end dropped, 24-byte transport"), E("h_c26_gone", "an end closed and dropped, 2 windows"),
        E("h_c26_pause", "a reader that pauses"), E("h_c26_pause_tight", "a reader that pauses, small transport"),
        E("h_c26_content", "symbolic bytes, 3 moments"),
        E("h_c26_bytes", "any byte of either direction by its position, 2 windows"), E("h_c26_bytes_tight", "any byte by its position, 100 kB transport"),
        E("h_c26_bytes_two", "any byte of one of two streams, 2 free choices of the next task")],
        "thorough": [E("h_c26_drop_deep", "an end dropped, 30-byte transport, 3 moments"), E("h_c26_content4", "symbolic bytes, 4 moments")]},
    "C27": {"quick": [
        E("h_c27_out_c", "client, own stream, 2 calls, one cut in by another thread"), E("h_c27_out_s", "server, own stream, 3 calls, one cut in"),
        E("h_c27_out2", "client, own stream, 2 calls, two cut in"), E("h_c27_in_c", "client, the peer's stream, 2 calls, one cut in"),
        E("h_c27_in_s", "server, the peer's stream, 2 calls, one cut in"), E("h_c27_credit", "writer without credit, 2 calls, one cut in"),
        E("h_c27_credit2", "writer without credit, 2 calls, two cut in"), E("h_c27_full", "queue full, transport blocked, 2 calls, one cut in"),
        E("h_c27_opener", "backlog of 256 full, opener waiting, 1 call, one cut in"),
        E("h_c27_ending_c", "the connection ends, 2 calls, one cut in"), E("h_c27_ending_s", "the connection ends, 2 calls, two cut in"),
        E("h_c27_growing", "two streams whose windows grow under one limit, 2 calls, one cut in"), E("h_c27_growing2", "the same, two cut in"),
        E("h_c27_packets", "chunks taken, 3 calls, one cut in"), E("h_c27_packets2", "chunks taken, 2 calls, two cut in"),
        E("h_c27_closing_c", "client, the connection closed during 1 call on a stream with any queue, or a call during the close"),
        E("h_c27_closing_s", "server, the same, 2 calls")],
        "thorough": [E("h_c27_in_deep", "server, the peer's stream, 3 calls, one cut in"), E("h_c27_full2", "queue full, 2 calls, two cut in")]},
    "C28": {"quick": [
        E("h_c28_refused", "2 setter calls with any values, in any order"), E("h_c28_refused", "the same", plain=True),
        E("h_c28_grown_c", "client, any limit, maximum and split size, 2 rounds of a growing window and writes of any length"),
        E("h_c28_grown_s", "server, the same"), E("h_c28_grown_c", "the same", plain=True),
        E("h_c28_none", "maximum 0, any limit"), E("h_c28_split", "default split size, any write; default reading after the end"),
        E("h_c28_streams", "default: 512 streams of either side"), E("h_c28_limit", "default: one window grown as far as possible"),
        E("h_c28_no_limit", "no limit: one window grown as far as possible")]},
    "C29": {"quick": [
        E("h_c29_turns_c", "client, 2 streams with full queues of any writes, 12 frames"), E("h_c29_turns_s", "server, 3 streams with full queues, 16 frames"),
        E("h_c29_answers_c", "client, 2 streams with full queues, a ping, data and a new stream after 0 to 2 frames"),
        E("h_c29_answers_s", "server, the same with 3 pings")]},
}
