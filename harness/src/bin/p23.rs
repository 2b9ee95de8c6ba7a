//! P23: log messages.
use harness::gen::*;
use harness::*;
use htp::config::Config;
use htp::connection::Connection;
use htp::log::*;
use htp::{htp_debug, htp_error, htp_info, htp_log, htp_warn, htp_warn_once};
use htp::util::FlagOperations;

const LEVELS: [HtpLogLevel; 7] = [HtpLogLevel::NONE, HtpLogLevel::ERROR, HtpLogLevel::WARNING, HtpLogLevel::NOTICE, HtpLogLevel::INFO, HtpLogLevel::DEBUG, HtpLogLevel::DEBUG2];
const CODES: [HtpLogCode; 5] = [HtpLogCode::UNKNOWN, HtpLogCode::DEFORMED_EOL, HtpLogCode::ERROR, HtpLogCode::REQUEST_FIELD_MISSING_COLON, HtpLogCode::INVALID_GAP];
type M = (usize, HtpLogCode, String);
fn rank(l: HtpLogLevel) -> usize { LEVELS.iter().position(|x| *x == l).unwrap() }
fn got(l: &Log) -> M { (rank(l.msg.level), l.msg.code, l.msg.msg.clone()) }
fn seq(c: &mut Ctx, lv: usize, msgs: &[(u8, usize, usize, usize)]) {
    let key: Vec<u8> = std::iter::once(lv as u8).chain(msgs.iter().flat_map(|m| [m.0, m.1 as u8, m.2 as u8, m.3 as u8])).collect();
    c.check("messages kept by a logger", &key, true, &|| format!("logger level {:?}, (how, level, code, drain) {:?}", LEVELS[lv], msgs), || {
        let mut conn = Connection::default();
        conn.open(None, Some(4), None, Some(7), None);
        let mut lg = Logger::new(conn.get_sender(), LEVELS[lv]);
        let (mut want, mut have): (Vec<M>, Vec<M>) = (vec![], vec![]);
        let mut waiting = 0usize;
        let mut flags = 0u64;
        for (i, m) in msgs.iter().enumerate() {
            let text = format!("m{} \u{e9}\0", i);
            let code = CODES[m.2];
            let mut keep = |l: usize| if l <= lv { want.push((l, code, text.clone())); waiting += 1 };
            match m.0 {
                0 => { lg.log("f", 3, LEVELS[m.1], code, text.clone()); keep(m.1) }
                1 => { htp_error!(lg, code, &text); keep(1) }
                2 => { htp_warn!(lg, code, &text); keep(2) }
                3 => { htp_info!(lg, code, &text); keep(4) }
                4 => { htp_debug!(lg, code, &text); keep(5) }
                5 => { let mut fl = 0u64; let first = flags & 1 == 0; htp_warn_once!(lg, code, &text, flags, fl, 1u64); if first { keep(2) } if flags & 1 == 0 || fl & 1 == 0 { return Err("htp_warn_once did not set the flags".into()) } }
                6 => { lg = lg.clone(); htp_log!(lg, LEVELS[m.1], code, &text); keep(m.1) }
                _ => {}
            }
            for _ in 0..m.3 {
                let l = conn.get_next_log();
                if l.is_some() != (waiting > 0) { return Err(format!("{} messages waiting, get_next_log gives {}", waiting, l.is_some())) }
                if let Some(l) = l { waiting -= 1; if (l.client_port, l.server_port) != (Some(4), Some(7)) { return Err("ports of the connection lost".into()) } have.push(got(&l)) }
            }
        }
        let rest = conn.get_logs();
        if rest.len() != waiting { return Err(format!("{} messages waiting, get_logs gives {}", waiting, rest.len())) }
        for l in &rest { if (l.client_port, l.server_port) != (Some(4), Some(7)) { return Err("ports of the connection lost".into()) } }
        have.extend(rest.iter().map(got));
        if conn.get_next_log().is_some() || !conn.get_logs().is_empty() { return Err("a message was delivered twice".into()) }
        Ctx::eq(have, want)
    });
}
fn traffic(ops: &[Op], lv: usize) -> Vec<(usize, HtpLogCode, String, u32, String)> {
    let mut cfg = Config::default();
    cfg.log_level = LEVELS[lv];
    let mut d = Driver::new(cfg);
    for o in ops { d.op(o); }
    d.p.conn.get_logs().iter().map(|l| (rank(l.msg.level), l.msg.code, l.msg.msg.clone(), l.msg.line, l.msg.file.clone())).collect()
}
fn main() {
    run("some message was logged", |c| {
        c.phase("every sequence of two messages", 40);
        'o: for lv in 0..7 { for a in 0..7u8 { for al in 0..7 { for b in 0..7u8 { for bl in 0..7 {
            if c.done() { break 'o; }
            seq(c, lv, &[(a, al, (al + 1) % 5, bl % 3), (b, bl, bl % 5, al % 2)]);
        } } } } }
        c.phase("random sequences", 30);
        while !c.done() {
            let n = c.rng.below(12);
            let m: Vec<_> = (0..n).map(|_| (c.rng.below(7) as u8, c.rng.below(7), c.rng.below(5), c.rng.below(3))).collect();
            let lv = c.rng.below(7);
            seq(c, lv, &m);
        }
        c.phase("traffic at every level", 30);
        while !c.done() {
            let ops = history(&mut c.rng, true, true);
            let all = traffic(&ops, 6);
            for lv in 0..6 {
                let want: Vec<_> = all.iter().filter(|m| m.0 <= lv).cloned().collect();
                c.check("messages of a connection", &key(&ops), !all.is_empty(), &|| format!("level {:?}: {}", LEVELS[lv], show_ops(&ops)), || Ctx::eq(traffic(&ops, lv), want));
            }
        }
    });
}
