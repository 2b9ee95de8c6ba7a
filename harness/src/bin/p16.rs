//! P16: callbacks.
use harness::*;
use htp::config::Config;
use htp::connection::Connection;
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use htp::hook::*;
use htp::log::*;
use htp::transaction::{Data, Transaction};
use htp::HtpStatus;
use std::cell::RefCell;

type Res = Result<(), HtpStatus>;
const N: usize = 6;
fn ans_of(i: usize) -> HtpStatus { match i { 0 => HtpStatus::OK, 1 => HtpStatus::DECLINED, 2 => HtpStatus::ERROR, 3 => HtpStatus::STOP, 4 => HtpStatus::DATA, 5 => HtpStatus::DATA_OTHER, 6 => HtpStatus::DATA_BUFFER, _ => HtpStatus::STATUS_RESERVED } }
thread_local! {
    static TRACE: RefCell<Vec<(usize, String)>> = Default::default();
    static ANSWER: RefCell<[usize; N]> = Default::default();
}
fn note(i: usize, what: String) -> HtpStatus {
    TRACE.with(|t| t.borrow_mut().push((i, what)));
    ans_of(ANSWER.with(|a| a.borrow()[i]))
}
fn res(s: HtpStatus) -> Res { if s == HtpStatus::OK { Ok(()) } else { Err(s) } }
fn tx_n<const I: usize>(t: &mut Transaction) -> Res { res(note(I, format!("tx{}", t.index))) }
unsafe extern "C" fn tx_e<const I: usize>(_: *const ConnectionParser, t: *mut Transaction) -> HtpStatus { note(I, format!("tx{}", (*t).index)) }
fn da_n<const I: usize>(_: &mut Transaction, d: &ParserData) -> Res { res(note(I, format!("{:?} {}", d.data().map(esc), d.len()))) }
unsafe extern "C" fn da_e<const I: usize>(_: *const ConnectionParser, d: *mut Data) -> HtpStatus { note(I, format!("{:?} {}", (*d).as_slice().map(esc), (*d).len())) }
fn lo_n<const I: usize>(l: &mut Log) -> Res { res(note(I, l.msg.msg.clone())) }
unsafe extern "C" fn lo_e<const I: usize>(l: *mut Log) -> HtpStatus { note(I, (*l).msg.msg.clone()) }
const TX_N: [TxNativeCallbackFn; N] = [tx_n::<0>, tx_n::<1>, tx_n::<2>, tx_n::<3>, tx_n::<4>, tx_n::<5>];
const TX_E: [TxExternalCallbackFn; N] = [tx_e::<0>, tx_e::<1>, tx_e::<2>, tx_e::<3>, tx_e::<4>, tx_e::<5>];
const DA_N: [DataNativeCallbackFn; N] = [da_n::<0>, da_n::<1>, da_n::<2>, da_n::<3>, da_n::<4>, da_n::<5>];
const DA_E: [DataExternalCallbackFn; N] = [da_e::<0>, da_e::<1>, da_e::<2>, da_e::<3>, da_e::<4>, da_e::<5>];
const LO_N: [LogNativeCallbackFn; N] = [lo_n::<0>, lo_n::<1>, lo_n::<2>, lo_n::<3>, lo_n::<4>, lo_n::<5>];
const LO_E: [LogExternalCallbackFn; N] = [lo_e::<0>, lo_e::<1>, lo_e::<2>, lo_e::<3>, lo_e::<4>, lo_e::<5>];
fn reset(ans: [usize; N]) { TRACE.with(|t| t.borrow_mut().clear()); ANSWER.with(|a| *a.borrow_mut() = ans) }
fn trace() -> Vec<(usize, String)> { TRACE.with(|t| t.borrow().clone()) }
/// what one event must do: which callbacks of the list are called, and its result
fn want(list: &[(bool, usize)], ans: &[usize; N], what: &str) -> (Vec<(usize, String)>, Res) {
    let mut v = vec![];
    for (_, i) in list {
        v.push((*i, what.to_string()));
        let a = ans_of(ans[*i]);
        if a != HtpStatus::OK && a != HtpStatus::DECLINED { return (v, Err(a)); }
    }
    (v, Ok(()))
}
fn lists(c: &mut Ctx, list: &[(bool, usize)], ans: [usize; N]) {
    let key: Vec<u8> = list.iter().flat_map(|(e, i)| [*e as u8, *i as u8]).chain(ans.iter().map(|a| *a as u8)).collect();
    let show = || format!("callbacks (external, id) {:?} answering {:?}", list, ans.iter().map(|a| ans_of(*a)).collect::<Vec<_>>());
    let nt = list.len() > 1;
    c.check("transaction callbacks", &key, nt, &show, || {
        let mut h = TxHook::default();
        for (e, i) in list { if *e { h.register_extern(TX_E[*i]) } else { h.register(TX_N[*i]) } }
        let mut p = ConnectionParser::new(Config::default());
        p.request_mut();
        reset(ans);
        let r = h.run_all(&mut p, 7);
        Ctx::eq((trace(), r), (vec![], Ok(())))?;
        let r = h.run_all(&mut p, 0);
        Ctx::eq((trace(), r), want(list, &ans, "tx0"))
    });
    c.check("data callbacks", &key, nt, &show, || {
        let mut h = DataHook::default();
        for (e, i) in list { if *e { h.register_extern(DA_E[*i]) } else { h.register(DA_N[*i]) } }
        let mut p = ConnectionParser::new(Config::default());
        let tx = p.request_mut().unwrap() as *mut Transaction;
        for (pd, what) in [(ParserData::from(b"abc".as_ref()), "Some(\"b\\\"abc\\\"\") 3"), (ParserData::from(5usize), "None 5"), (ParserData::from(b"".as_ref()), "Some(\"b\\\"\\\"\") 0")] {
            reset(ans);
            let r = h.run_all(&p, &mut Data::new(tx, &pd));
            Ctx::eq((trace(), r), want(list, &ans, what))?;
        }
        Ok(())
    });
    c.check("log callbacks", &key, nt, &show, || {
        let mut h = LogHook::default();
        for (e, i) in list { if *e { h.register_extern(LO_E[*i]) } else { h.register(LO_N[*i]) } }
        let mut l = Log::new(&Connection::default(), Message::new("f", 1, HtpLogLevel::ERROR, HtpLogCode::ERROR, "hello".into()));
        reset(ans);
        let r = h.run_all(&mut l);
        Ctx::eq((trace(), r), want(list, &ans, "hello"))
    });
}
const REQ: &[u8] = b"POST /p?a=1 HTTP/1.1\r\nHost: h\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\nT: t\r\n\r\n";
const RES: &[u8] = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nxyz\r\n0\r\nU: u\r\n\r\n";
/// (event, is request side, is data event)
const EVENTS: [(&str, bool, bool); 17] = [
    ("request_line", true, false), ("request_uri_normalize", true, false), ("request_headers", true, false), ("request_trailer", true, false), ("request_complete", true, false),
    ("request_header_data", true, true), ("request_body_data", true, true), ("request_trailer_data", true, true),
    ("response_start", false, false), ("response_line", false, false), ("response_headers", false, false), ("response_trailer", false, false), ("response_complete", false, false),
    ("response_header_data", false, true), ("response_body_data", false, true), ("response_trailer_data", false, true), ("transaction_complete", false, false),
];
fn event(c: &mut Ctx, ev: usize, list: &[(bool, usize)], ans: [usize; N]) {
    let (name, is_req, is_data) = EVENTS[ev];
    let key: Vec<u8> = std::iter::once(ev as u8).chain(list.iter().flat_map(|(e, i)| [*e as u8, *i as u8])).chain(ans.iter().map(|a| *a as u8)).collect();
    c.check("an event of a connection", &key, list.len() > 1, &|| format!("{} with callbacks (external, id) {:?} answering {:?}", name, list, ans.iter().map(|a| ans_of(*a)).collect::<Vec<_>>()), || {
        let mut cfg = Config::default();
        for (e, i) in list {
            macro_rules! tx { ($($reg:ident $hook:ident),*) => { match name { $(stringify!($reg) => if *e { cfg.$hook.register_extern(TX_E[*i]) } else { cfg.$hook.register(TX_N[*i]) },)* _ => {} } } }
            macro_rules! da { ($($reg:ident $hook:ident),*) => { match name { $(stringify!($reg) => if *e { cfg.$hook.register_extern(DA_E[*i]) } else { cfg.$hook.register(DA_N[*i]) },)* _ => {} } } }
            tx!(request_line hook_request_line, request_uri_normalize hook_request_uri_normalize, request_headers hook_request_headers, request_trailer hook_request_trailer, request_complete hook_request_complete,
                response_start hook_response_start, response_line hook_response_line, response_headers hook_response_headers, response_trailer hook_response_trailer, response_complete hook_response_complete, transaction_complete hook_transaction_complete);
            da!(request_header_data hook_request_header_data, request_body_data hook_request_body_data, request_trailer_data hook_request_trailer_data,
                response_header_data hook_response_header_data, response_body_data hook_response_body_data, response_trailer_data hook_response_trailer_data);
        }
        let mut d = Driver::new(cfg);
        reset(ans);
        let a = d.req(REQ);
        if !is_req && a != HtpStreamState::DATA { return Err(format!("the request ended in {:?}", a)); }
        let b = if is_req && a != HtpStreamState::DATA { HtpStreamState::DATA } else { d.res(RES) };
        let body = if is_req { "abc" } else { "xyz" };
        let what = match name {
            "request_header_data" => format!("{:?} {}", Some(esc(b"Host: h\r\nTransfer-Encoding: chunked\r\n\r\n")), 39),
            "response_header_data" => format!("{:?} {}", Some(esc(b"Transfer-Encoding: chunked\r\n\r\n")), 30),
            "request_body_data" | "response_body_data" => format!("{:?} 3", Some(esc(body.as_bytes()))),
            "request_trailer_data" => format!("{:?} 8", Some(esc(b"T: t\r\n\r\n"))),
            "response_trailer_data" => format!("{:?} 8", Some(esc(b"U: u\r\n\r\n"))),
            _ => "tx0".to_string(),
        };
        let (mut calls, mut r) = want(list, &ans, &what);
        // the end-of-body notice of the request is a second event (the response one carries no callback: it is empty)
        if name == "request_body_data" && r.is_ok() {
            let w = want(list, &ans, "None 0");
            calls.extend(w.0);
            r = w.1;
        }
        let _ = is_data;
        let end = match r {
            Ok(()) => HtpStreamState::DATA,
            Err(HtpStatus::STOP) => HtpStreamState::STOP,
            Err(HtpStatus::ERROR) | Err(HtpStatus::STATUS_RESERVED) => HtpStreamState::ERROR,
            _ => return Ok(()),
        };
        Ctx::eq((trace(), if is_req { a } else { b }), (calls, end))
    });
}
fn main() {
    run("more than one callback", |c| {
        c.phase("every list of up to three callbacks and every answer", 45);
        'o: for n in 0..4usize { for k in 0..(2usize.pow(n as u32)) { for a in 0..8usize.pow(n as u32) {
            if c.done() { break 'o; }
            let list: Vec<_> = (0..n).map(|i| (k >> i & 1 == 1, i)).collect();
            let mut ans = [0; N];
            for i in 0..n { ans[i] = a / 8usize.pow(i as u32) % 8; }
            lists(c, &list, ans);
        } } }
        c.phase("every event of a connection", 35);
        'p: for ev in 0..EVENTS.len() { for n in 0..4usize { for k in 0..(2usize.pow(n as u32)) { for a in 0..4usize.pow(n as u32) {
            if c.done() { break 'p; }
            let list: Vec<_> = (0..n).map(|i| (k >> i & 1 == 1, i)).collect();
            let mut ans = [0; N];
            for i in 0..n { ans[i] = a / 4usize.pow(i as u32) % 4; }
            event(c, ev, &list, ans);
        } } } }
        c.phase("random lists", 20);
        while !c.done() {
            let n = c.rng.below(9);
            let list: Vec<_> = (0..n).map(|_| (c.rng.chance(1, 2), c.rng.below(N))).collect();
            let mut ans = [0; N];
            for i in 0..N { ans[i] = if c.rng.chance(4, 5) { c.rng.below(2) } else { c.rng.below(8) }; }
            lists(c, &list, ans);
        }
    });
}
