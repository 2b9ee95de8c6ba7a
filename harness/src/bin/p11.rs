//! P11: body bytes are delivered once, in order, and counted exactly.
use harness::gen;
use harness::rec::{self, K};
use harness::*;
use htp::config::Config;

#[derive(Clone, Debug)]
struct Msg { wire: Vec<u8>, body: Vec<u8>, message: u64 }
#[derive(Clone, Copy, PartialEq)]
enum F { Length, Chunked, Close }
fn msg(rng: &mut Rng, f: F, request: bool, alpha: &[u8]) -> Msg {
    let mut v: Vec<u8> = vec![];
    if request { v.extend_from_slice(*rng.pick(&[&b"POST /p HTTP/1.1\r\nHost: h\r\n"[..], b"PUT / HTTP/1.1\r\nHost: h\r\nAccept: *\r\n", b"GET /x?y HTTP/1.1\r\nHost: h\r\n"])) }
    else { v.extend_from_slice(*rng.pick(&[&b"HTTP/1.1 200 OK\r\n"[..], b"HTTP/1.1 404 Not Found\r\nServer: s\r\n", b"HTTP/1.0 200 OK\r\nA: b\r\n"])) }
    let top = *rng.pick(&[3, 8, 40, 300]);
    let n = rng.below(top);
    let mut body: Vec<u8> = (0..n).map(|_| *rng.pick(alpha)).collect();
    // the lenient grammar of response headers may take a leading CR or LF as part of their end
    if !request && n > 0 && b"\r\n \t".contains(&body[0]) { body[0] = b'x' }
    let mut m = n as u64;
    match f {
        F::Length => { v.extend_from_slice(format!("Content-Length: {}\r\n\r\n", n).as_bytes()); v.extend_from_slice(&body); }
        F::Close => { v.extend_from_slice(b"X: y\r\n\r\n"); v.extend_from_slice(&body); }
        F::Chunked => {
            v.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            let c = gen::chunked(rng, &body, !request);
            m = c.len() as u64;
            v.extend_from_slice(&c);
            if rng.chance(1, 3) { v.extend_from_slice(b"Trailer: t\r\n") }
            v.extend_from_slice(b"\r\n");
        }
    }
    Msg { wire: v, body, message: m }
}
fn judge(d: &Driver, i: usize, request: bool, m: &Msg) -> Result<(), String> {
    let k = if request { K::RequestBodyData } else { K::ResponseBodyData };
    let tr = rec::all();
    let got: Vec<u8> = tr.iter().filter(|e| e.k == k && e.tx == i).flat_map(|e| e.data.clone().unwrap_or_default()).collect();
    if got != m.body { return Err(format!("body of {} {} delivered as {}, sent {}", if request { "request" } else { "response" }, i, esc(&got), esc(&m.body))); }
    let t = d.tx(i).ok_or(format!("no transaction {}", i))?;
    let (ml, el) = if request { (t.request_message_len, t.request_entity_len) } else { (t.response_message_len, t.response_entity_len) };
    if el != m.body.len() as u64 { return Err(format!("entity length {} for {} bytes", el, m.body.len())); }
    if ml != m.message { return Err(format!("message length {} for {} bytes", ml, m.message)); }
    // nothing is delivered after the message was reported complete, and a request body ends with an empty notice
    let done = if request { K::RequestComplete } else { K::ResponseComplete };
    let at = tr.iter().position(|e| e.k == done && e.tx == i).ok_or(format!("message {} is not complete", i))?;
    if tr[at..].iter().any(|e| e.k == k && e.tx == i) { return Err("body data after completion".into()); }
    Ok(())
}
fn conn(c: &mut Ctx, reqs: &[Msg], ress: &[Msg], cq: &[usize], cs: &[usize], close: bool) {
    let q: Vec<u8> = reqs.iter().flat_map(|m| m.wire.clone()).collect();
    let s: Vec<u8> = ress.iter().flat_map(|m| m.wire.clone()).collect();
    let mut key = q.clone();
    key.extend(&s);
    key.extend(cq.iter().map(|x| *x as u8));
    key.push(0);
    key.extend(cs.iter().map(|x| *x as u8));
    c.check("bodies of a connection", &key, true, &|| format!("requests {} cut at {:?}; responses {} cut at {:?}", esc(&q), cq, esc(&s), cs), || {
        let mut cfg = Config::default();
        rec::register(&mut cfg);
        rec::clear();
        let mut d = Driver::new(cfg);
        d.req_chunks(&q, cq);
        d.res_chunks(&s, cs);
        if close { d.close(); }
        for (i, m) in reqs.iter().enumerate() { judge(&d, i, true, m)?; }
        for (i, m) in ress.iter().enumerate() { judge(&d, i, false, m)?; }
        Ok(())
    });
}
/// gaps inside bodies of known length: counted, delivered as a gap, the rest still delivered
fn gaps(c: &mut Ctx, request: bool, n: usize, a: usize, g: usize) {
    c.check("a gap inside a body", &[request as u8, n as u8, a as u8, g as u8], true, &|| format!("{} body of {} bytes, {} then a gap of {}", if request { "request" } else { "response" }, n, a, g), || {
        let mut cfg = Config::default();
        rec::register(&mut cfg);
        rec::clear();
        let mut d = Driver::new(cfg);
        let body: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let h = format!("Content-Length: {}\r\n\r\n", n);
        if request {
            d.req(format!("POST / HTTP/1.1\r\nHost: h\r\n{}", h).as_bytes());
            if a > 0 { d.req(&body[..a]); }
            d.p.request_data(htp::connection_parser::ParserData::from(g), None);
            if a + g < n { d.req(&body[a + g..]); }
        } else {
            d.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
            d.res(format!("HTTP/1.1 200 OK\r\n{}", h).as_bytes());
            if a > 0 { d.res(&body[..a]); }
            d.p.response_data(htp::connection_parser::ParserData::from(g), None);
            if a + g < n { d.res(&body[a + g..]); }
        }
        let k = if request { K::RequestBodyData } else { K::ResponseBodyData };
        let got: Vec<(usize, bool)> = rec::all().iter().filter(|e| e.k == k && e.tx == 0 && e.len > 0).map(|e| (e.len, e.gap)).collect();
        let in_body = g.min(n - a); // a longer gap reaches beyond the message
        let want: Vec<(usize, bool)> = [(a, false), (in_body, true), (n - a - in_body, false)].iter().copied().filter(|x| x.0 > 0).collect();
        Ctx::eq(got, want)?;
        let t = d.tx(0).unwrap();
        let (ml, done) = if request { (t.request_message_len, t.request_progress == htp::transaction::HtpRequestProgress::COMPLETE) } else { (t.response_message_len, t.response_progress == htp::transaction::HtpResponseProgress::COMPLETE) };
        Ctx::eq((ml, done), (n as u64, true))
    });
}
/// a gap inside a body that runs to the end of the stream
fn gap_close(c: &mut Ctx, a: usize, g: usize, b: usize) {
    c.check("a gap inside a body to end of stream", &[a as u8, g as u8, b as u8], true, &|| format!("response to end of stream: {} bytes, a gap of {}, {} bytes", a, g, b), || {
        let mut cfg = Config::default();
        rec::register(&mut cfg);
        rec::clear();
        let mut d = Driver::new(cfg);
        d.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
        d.res(b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n");
        if a > 0 { d.res(&vec![b'x'; a]); }
        d.p.response_data(htp::connection_parser::ParserData::from(g), None);
        let eaten = d.p.response_data_consumed();
        if b > 0 { d.res(&vec![b'y'; b]); }
        d.close();
        let got: Vec<(usize, bool)> = rec::all().iter().filter(|e| e.k == K::ResponseBodyData && e.tx == 0 && e.len > 0).map(|e| (e.len, e.gap)).collect();
        let want: Vec<(usize, bool)> = [(a, false), (g, true), (b, false)].iter().copied().filter(|x| x.0 > 0).collect();
        Ctx::eq(got, want)?;
        let t = d.tx(0).unwrap();
        Ctx::eq((t.response_message_len, t.response_entity_len, t.response_progress == htp::transaction::HtpResponseProgress::COMPLETE, eaten), ((a + g + b) as u64, (a + b) as u64, true, g))
    });
}
fn main() {
    run("every case has a body or a framing header", |c| {
        c.phase("one message, every single cut", 30);
        let mut r = c.rng.clone();
        'o: for f in [F::Length, F::Chunked, F::Close] {
            for _ in 0..6 {
                let plain = msg(&mut r, F::Length, true, b"ab");
                let q = msg(&mut r, if f == F::Close { F::Length } else { f }, true, b"abc");
                let s = msg(&mut r, f, false, b"abc\r\n");
                for k in 0..q.wire.len().min(120) {
                    if c.done() { break 'o; }
                    conn(c, &[q.clone()], &[], &[k], &[], false);
                    conn(c, &[q.clone()], &[], &[k, k + 1], &[], false);
                }
                for k in 0..s.wire.len().min(120) {
                    if c.done() { break 'o; }
                    conn(c, &[plain.clone()], &[s.clone()], &[], &[k], true);
                    conn(c, &[plain.clone()], &[s.clone()], &[], &[k, k + 1], true);
                }
            }
        }
        c.phase("gaps", 5);
        for n in 1..12 { for a in 0..n { for g in 1..=(n - a) { gaps(c, true, n, a, g); gaps(c, false, n, a, g); gap_close(c, a, g, n - a - g); } for g in 1..4 { gaps(c, true, n, a, n - a + g); gaps(c, false, n, a, n - a + g); } } }
        c.phase("random connections", 65);
        while !c.done() {
            let n = 1 + c.rng.below(3);
            let mut qs = vec![];
            let mut ss = vec![];
            let m = c.rng.below(n + 1);
            for i in 0..n {
                let f = if c.rng.chance(1, 2) { F::Length } else { F::Chunked };
                let a: &[u8] = *c.rng.pick(&[&b"abc"[..], b"\r\n\0 a0", b"GET /\r\n HTTP/1.1"]);
                qs.push(msg(&mut c.rng, f, true, a));
                if i < m {
                    let f = if i + 1 == m && c.rng.chance(1, 3) { F::Close } else if c.rng.chance(1, 2) { F::Length } else { F::Chunked };
                    ss.push(msg(&mut c.rng, f, false, a));
                }
            }
            let (a, b): (usize, usize) = (qs.iter().map(|m| m.wire.len()).sum(), ss.iter().map(|m| m.wire.len()).sum());
            let (cq, cs) = (gen::cuts(&mut c.rng, a), gen::cuts(&mut c.rng, b));
            conn(c, &qs, &ss, &cq, &cs, true);
        }
    });
}
