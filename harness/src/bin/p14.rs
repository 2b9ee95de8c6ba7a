//! P14: a direction that is over stays so; counters and consumed counts are exact.
use harness::gen::{self, Op};
use harness::*;
use htp::config::Config;
use htp::connection_parser::HtpStreamState as S;
use htp::HtpStatus;

fn over(s: S) -> bool { s == S::ERROR || s == S::STOP }
#[derive(Default)]
struct Side { end: Option<S>, count: u64, closed: bool, tunnel: bool }
fn side(d: &Driver, r: bool) -> (u64, usize, S) {
    if r { (d.p.conn.response_data_counter, d.p.response_data_consumed(), d.p.response_status) } else { (d.p.conn.request_data_counter, d.p.request_data_consumed(), d.p.request_status) }
}
fn judge(c: &mut Ctx, ops: &[Op], refuse: Option<(usize, &'static str)>, max_tx: u32, flush: bool) {
    let mut key = gen::key(ops);
    key.extend(format!("{:?} {} {}", refuse, max_tx, flush).bytes());
    c.check("stream states and counters", &key, true, &|| format!("callback {:?} refuses, max_tx {}, flush_incomplete {}: {}", refuse, max_tx, flush, gen::show_ops(ops)), || {
        let mut cfg = Config::default();
        rec::register(&mut cfg);
        rec::clear();
        cfg.max_tx = max_tx;
        cfg.set_flush_incomplete(flush);
        let mut d = Driver::new(cfg);
        if let Some((n, s)) = refuse { rec::refuse(n, match s { "STOP" => HtpStatus::STOP, "ERROR" => HtpStatus::ERROR, "DECLINED" => HtpStatus::DECLINED, "DATA" => HtpStatus::DATA, _ => HtpStatus::DATA_OTHER }) }
        let mut s = [Side::default(), Side::default()];
        for (k, o) in ops.iter().enumerate() {
            let (r, n, gap) = match o {
                Op::Req(x) => (0, x.len(), false),
                Op::Res(x) => (1, x.len(), false),
                Op::ReqGap(n) => (0, *n, true),
                Op::ResGap(n) => (1, *n, true),
                _ => {
                    d.op(o);
                    let both = matches!(o, Op::Close);
                    if both || matches!(o, Op::ReqClose) {
                        for i in 0..if both { 2 } else { 1 } {
                            s[i].closed = true;
                            s[i].tunnel = false;
                            if s[i].end == Some(S::STOP) { s[i].end = None }
                        }
                        // closing one direction may bring the other to its end
                        s[1].tunnel &= s[1].end.is_none();
                    }
                    for i in 0..2 {
                        let (cnt, _, st) = side(&d, i == 1);
                        if cnt != s[i].count { return Err(format!("operation {}: {} bytes counted, {} offered", k, cnt, s[i].count)); }
                        if let Some(e) = s[i].end { if st != e { return Err(format!("operation {}: {:?} became {:?}", k, e, st)); } }
                        // (the data still held is processed by the close, and may end in that)
                        else if over(st) && s[i].closed { s[i].end = Some(st) }
                    }
                    continue;
                }
            };
            let events = rec::len();
            let before = side(&d, r == 1);
            let other = side(&d, r == 0);
            let st = d.op(o).unwrap();
            let (cnt, used, now) = side(&d, r == 1);
            let fired = rec::len() - events;
            let e = |m: String| Err(format!("operation {} (state {:?}, returns {:?}): {}", k, before.2, st, m));
            if used > n { return e(format!("{} of {} bytes consumed", used, n)); }
            if let Some(end) = s[r].end {
                if st != end || now != end { return e(format!("the direction was {:?}, is {:?}", end, now)); }
                if used != 0 || fired != 0 || cnt != s[r].count { return e(format!("{} bytes consumed, {} callbacks, {} bytes counted", used, fired, cnt)); }
            } else if n == 0 && !s[r].closed {
                if st != S::CLOSED || used != 0 || fired != 0 || cnt != s[r].count || now != before.2 { return e(format!("empty data: {} bytes consumed, {} callbacks, {} counted, state {:?}", used, fired, cnt, now)); }
            } else {
                s[r].count += n as u64;
                if cnt != s[r].count { return e(format!("{} bytes counted, {} offered", cnt, s[r].count)); }
                if s[r].tunnel && n > 0 && (st != S::TUNNEL || fired != 0 || used != 0) { return e(format!("a tunnel: {} bytes consumed, {} callbacks", used, fired)); }
                if st == S::DATA_OTHER && used >= n { return e("nothing is left".into()); }
                if over(st) != over(now) || (over(st) && st != now) { return e(format!("the state is {:?}", now)); }
                if over(st) { s[r].end = Some(st) }
                if n > 0 { s[r].tunnel = st == S::TUNNEL }
                let _ = gap;
            }
            let oth = side(&d, r == 0);
            if let Some(end) = s[1 - r].end {
                if oth.2 != end { return e(format!("the other direction was {:?}, is {:?}", end, oth.2)); }
            } else if s[1 - r].tunnel && oth.2 != S::TUNNEL { s[1 - r].tunnel = false }
            if oth.0 != other.0 || oth.1 != other.1 { return e("the counters of the other direction changed".into()); }
        }
        Ok(())
    });
}
fn main() {
    run("each history of data calls under refusing callbacks is one case", |c| {
        let mut rng = Rng(c.seed * 77 + 14);
        c.phase("CONNECT, upgrades and waits against a side that is over", 25);
        let rq: [&[u8]; 5] = [b"CONNECT h:80 HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\n\r\n", b"POST / HTTP/1.1\r\nContent-Length: 3\r\nExpect: 100-continue\r\n\r\n", b"GET / HTTP/1.1\r\nUpgrade: x\r\n\r\n", b"CONNECT h:80 HTTP/1.1\r\nHost: h\r\n\r\nmore"];
        let rs: [&[u8]; 8] = [b"HTTP/1.1 200 OK\r\n\r\n", b"HTTP/1.1 407 A\r\nContent-Length: 0\r\n\r\n", b"HTTP/1.1 500 A\r\nContent-Length: 0\r\n\r\n", b"HTTP/1.1 101 S\r\n\r\n", b"HTTP/1.1 417 E\r\nContent-Length: 0\r\n\r\n", b"HTTP/1.1 100 C\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Type: multipart/byteranges\r\n\r\n"];
        let more: [&[u8]; 4] = [b"\x16\x03\x01junk\n", b"GET /2 HTTP/1.1\r\n\r\n", b"\0\0", b"xyz"];
        for status in [None, Some("STOP"), Some("ERROR")] { for a in rq { for b in rs { for m in more { for n in 0..(if status.is_none() { 1 } else { 16 }) { for order in 0..3 {
            if c.done() { break; }
            let (x, y, z, w) = (Op::Req(a.to_vec()), Op::Res(b.to_vec()), Op::Req(m.to_vec()), Op::Res(m.to_vec()));
            let ops = match order {
                0 => vec![x, y.clone(), z.clone(), w.clone(), z, y.clone(), w],
                1 => vec![x.clone(), z.clone(), y.clone(), z.clone(), Op::ReqGap(2), w.clone(), Op::ResGap(2), y, x],
                _ => { let k = b.len() - 2; vec![x, Op::Res(b[..k].to_vec()), z.clone(), Op::Res(b[k..].to_vec()), z, w.clone(), Op::Res(vec![]), Op::Req(vec![]), Op::ReqGap(0), w, Op::ReqClose, y.clone(), Op::Close, y] }
            };
            judge(c, &ops, status.map(|s| (n, s)), 512, n % 2 == 0);
        } } } } } }
        c.phase("gaps where no transaction can be made", 5);
        for max_tx in 0..3 { for g in [0usize, 1, 5] { for first in 0..2 { for pre in 0..3 {
            let mut ops = vec![];
            for _ in 0..pre { ops.push(Op::Req(b"GET / HTTP/1.1\r\n\r\n".to_vec())); ops.push(Op::Res(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n".to_vec())); }
            let gap = if first == 0 { Op::ReqGap(g) } else { Op::ResGap(g) };
            ops.extend([gap.clone(), Op::Req(b"GET /x HTTP/1.1\r\n\r\n".to_vec()), Op::Res(b"HTTP/1.1 200 OK\r\n\r\nabc".to_vec()), gap, Op::Req(b"G".to_vec()), Op::Res(b"H".to_vec()), Op::Close]);
            judge(c, &ops, None, max_tx, false);
        } } } }
        c.phase("any traffic, any callback refusing", 70);
        while !c.done() {
            let mut ops = { let rm = rng.chance(1, 3); gen::history(&mut rng, true, rm) };
            let k = ops.len();
            for _ in 0..rng.below(3) { let at = rng.below(ops.len() + 1); ops.insert(at, match rng.below(4) { 0 => Op::Req(vec![]), 1 => Op::Res(vec![]), 2 => Op::ReqGap(0), _ => Op::ResGap(0) }) }
            if rng.chance(1, 2) { let at = rng.below(k + 1); ops.insert(at, if rng.chance(1, 2) { Op::ReqClose } else { Op::Close }) }
            let more = gen::history(&mut rng, true, false);
            ops.extend(more);
            let refuse = if rng.chance(2, 3) { Some((rng.below(30), *rng.pick(&["STOP", "ERROR", "DECLINED", "DATA_OTHER", "DATA"]))) } else { None };
            let m = *rng.pick(&[512u32, 512, 2, 1]);
            let f = rng.chance(1, 2);
            judge(c, &ops, refuse, m, f);
        }
    });
}
