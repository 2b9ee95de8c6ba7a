//! P20: every byte is accounted for once: cursor, consumed counts and raw header/trailer data.
use harness::gen::{self, Op};
use harness::rec::K;
use harness::*;
use htp::config::Config;
use htp::connection_parser::{HtpStreamState as S, ParserData};

fn got(k: K, tx: usize) -> Vec<u8> { rec::all().iter().filter(|e| e.k == k && e.tx == tx).flat_map(|e| e.data.clone().unwrap_or_default()).collect() }
/// one message with known parts, cut anywhere
struct Msg { line: Vec<u8>, head: Vec<u8>, body: Vec<u8>, trailer: Option<Vec<u8>> }
fn whole(ms: &[Msg]) -> Vec<u8> { ms.iter().flat_map(|m| [m.line.clone(), m.head.clone(), m.body.clone(), m.trailer.clone().unwrap_or_default()].concat()).collect() }
fn feed(d: &mut Driver, res: bool, all: &[u8], cuts: &[usize]) -> Result<(), String> {
    for x in chunks(all, cuts) {
        let mut x = x;
        loop {
            let st = if res { d.res(x) } else { d.req(x) };
            let used = if res { d.p.response_data_consumed() } else { d.p.request_data_consumed() };
            if used > x.len() { return Err(format!("{} of {} bytes consumed", used, x.len())); }
            match st {
                S::DATA => { if used != x.len() { return Err(format!("{} of {} bytes consumed, and more is wanted", used, x.len())); } break; }
                S::DATA_OTHER => { if used == x.len() { return Err("nothing left for later".into()); } if used == 0 { return Err("stuck".into()); } x = &x[used..]; }
                s => return Err(format!("{:?}", s)),
            }
        }
    }
    Ok(())
}
fn known(c: &mut Ctx, rq: &[Msg], rs: &[Msg], qc: &[usize], sc: &[usize]) {
    let (q, s) = (whole(rq), whole(rs));
    let mut key = q.clone();
    key.extend(&s);
    key.extend(format!("{:?}{:?}", qc, sc).bytes());
    c.check("raw header and trailer data", &key, true, &|| format!("requests {} cut at {:?}, responses {} cut at {:?}", esc(&q), qc, esc(&s), sc), || {
        let mut cfg = Config::default();
        rec::register(&mut cfg);
        rec::clear();
        let mut d = Driver::new(cfg);
        feed(&mut d, false, &q, qc)?;
        feed(&mut d, true, &s, sc)?;
        for (ms, h, t, what) in [(rq, K::RequestHeaderData, K::RequestTrailerData, "request"), (rs, K::ResponseHeaderData, K::ResponseTrailerData, "response")] {
            for (i, m) in ms.iter().enumerate() {
                if got(h, i) != m.head { return Err(format!("{} {}: header data {}, sent {}", what, i, esc(&got(h, i)), esc(&m.head))); }
                let want = m.trailer.clone().unwrap_or_default();
                if got(t, i) != want { return Err(format!("{} {}: trailer data {}, sent {}", what, i, esc(&got(t, i)), esc(&want))); }
            }
        }
        Ok(())
    });
}
/// any traffic: what the raw data callbacks get is consecutive data of the stream, in order and once
fn any(c: &mut Ctx, ops: &[Op]) {
    c.check("raw data of any traffic", &gen::key(ops), true, &|| gen::show_ops(ops), || {
        let mut cfg = Config::default();
        rec::register(&mut cfg);
        rec::clear();
        let mut d = Driver::new(cfg);
        let mut stream = [vec![], vec![]];
        let mut at = [0usize; 2];
        for (k, o) in ops.iter().enumerate() {
            let n0 = rec::len();
            let st = d.op(o);
            let (r, n, x) = match o { Op::Req(x) => (0, x.len(), Some(x)), Op::Res(x) => (1, x.len(), Some(x)), Op::ReqGap(n) => (0, *n, None), Op::ResGap(n) => (1, *n, None), _ => continue };
            let used = if r == 1 { d.p.response_data_consumed() } else { d.p.request_data_consumed() };
            if used > n { return Err(format!("operation {}: {} of {} bytes consumed", k, used, n)); }
            if st == Some(S::DATA) && used != n { return Err(format!("operation {}: {} of {} bytes consumed, and more is wanted", k, used, n)); }
            if let Some(x) = x { stream[r].extend_from_slice(&x[..used]) }
            // events of this call: each lies in the stream, not before the end of the last one
            for e in rec::all()[n0..].iter() {
                let i = match e.k { K::RequestHeaderData | K::RequestTrailerData => 0, K::ResponseHeaderData | K::ResponseTrailerData => 1, _ => continue };
                if e.gap { return Err(format!("operation {}: a gap as {:?}", k, e.k)); }
                let b = e.data.clone().unwrap_or_default();
                if b.is_empty() { continue; }
                if i != r { return Err(format!("operation {}: {:?} from the other direction", k, e.k)); }
                let w = &stream[i];
                match (at[i]..=w.len().saturating_sub(b.len())).find(|p| *p + b.len() <= w.len() && w[*p..*p + b.len()] == b[..]) {
                    Some(p) => at[i] = p + b.len(),
                    None => return Err(format!("operation {}: {:?} {} is not in what was consumed after position {}", k, e.k, esc(&b), at[i])),
                }
            }
        }
        Ok(())
    });
}
/// the cursor
fn cursor(c: &mut Ctx, n: usize, gap: bool, moves: &[usize]) {
    let key = format!("{} {} {:?}", n, gap, moves);
    c.check("the data cursor", key.as_bytes(), true, &|| format!("{} of {} bytes, consuming {:?}", if gap { "a gap" } else { "data" }, n, moves), || {
        let buf: Vec<u8> = (0..n).map(|x| x as u8).collect();
        let p = if gap { ParserData::from(n) } else { ParserData::from(buf.as_slice()) };
        let mut at = 0;
        Ctx::eq(p.is_gap(), gap)?;
        for m in moves {
            if at + m > n { break; }
            Ctx::eq((p.len(), p.is_empty()), (n - at, at == n))?;
            if gap { Ctx::eq((p.as_slice().len(), p.data().is_none()), (0, true))? } else {
                Ctx::eq(p.as_slice(), &buf[at..])?;
                Ctx::eq(p.data(), Some(&buf[at..]))?;
            }
            p.consume(*m);
            at += m;
        }
        Ctx::eq((p.len(), p.is_empty()), (n - at, at == n))
    });
}
const HQ: [&[u8]; 9] = [b"\r\n", b"\n", b"Host: h\r\n\r\n", b"Host: h\nA: b\n\n", b"A: 1\r\n 2\r\nB:\t3\r\n\r\n", b"Cookie: a=1; b=2\r\nA: x\r\nA: y\r\n\r\n", b"NoColon\r\nX: y\r\n\r\n", b"A: \0b\r\n\r\n", b"A: 1\r\nLong: 0123456789012345678901234567890123456789\r\n\tx\r\n\ty\r\n\r\n"];
fn msg(rng: &mut Rng, res: bool) -> Msg {
    let line: Vec<u8> = if res { rng.pick(&[&b"HTTP/1.1 200 OK\r\n"[..], b"HTTP/1.0 404 x y\r\n", b"HTTP/1.1 500\r\n", b"HTTP/1.1 200 OK\n"]).to_vec() } else { rng.pick(&[&b"GET / HTTP/1.1\r\n"[..], b"POST /a HTTP/1.1\r\n", b"PUT http://h/x?y HTTP/1.0\r\n", b"GET / HTTP/1.1\n"]).to_vec() };
    let mut head = rng.pick(&HQ).to_vec();
    let mut trailer = None;
    let mut b = gen::body(rng, 12);
    // (white space right behind a header block may still be taken for a part of it, so a body does not begin with any here)
    if !b.is_empty() { b[0] = b'x' }
    let body;
    if rng.chance(1, 2) && !line.starts_with(b"PUT") {
        let mut h = b"Transfer-Encoding: chunked\r\n".to_vec();
        h.extend(&head);
        head = h;
        let mut v = vec![];
        let mut a = 0;
        while a < b.len() { let n = 1 + rng.below(b.len() - a); v.extend(format!("{:x}\r\n", n).bytes()); v.extend(&b[a..a + n]); v.extend(b"\r\n"); a += n; }
        v.extend(b"0\r\n");
        body = v;
        trailer = Some(rng.pick(&[&b"\r\n"[..], b"T: 1\r\n\r\n", b"T: 1\r\n x\r\nU: 2\r\n\r\n"]).to_vec());
    } else {
        let mut h = format!("Content-Length: {}\r\n", b.len()).into_bytes();
        h.extend(&head);
        head = h;
        body = b;
    }
    Msg { line, head, body, trailer }
}
fn main() {
    run("each message history with its cuts is one case", |c| {
        let mut rng = Rng(c.seed * 31 + 20);
        c.phase("cursor moves", 5);
        for n in 0..12 { for gap in [false, true] { for a in 0..5 { for b in 0..5 { for e in 0..5 { cursor(c, n, gap, &[a, b, e, 1]); } } } } }
        c.phase("every single cut of every header shape", 25);
        for res in [false, true] { for chunked in [false, true] { for h in HQ { for t in [&b"\r\n"[..], b"T: 1\r\n x\r\nU: 2\r\n\r\n"] {
            let mk = |res: bool, rich: bool| -> Msg {
                let line = if res { b"HTTP/1.1 200 OK\r\n".to_vec() } else { b"POST / HTTP/1.1\r\n".to_vec() };
                if !rich { return Msg { line, head: b"Content-Length: 0\r\n\r\n".to_vec(), body: vec![], trailer: None }; }
                if chunked { Msg { line, head: [b"Transfer-Encoding: chunked\r\n", h].concat(), body: b"2\r\nab\r\n0\r\n".to_vec(), trailer: Some(t.to_vec()) } }
                else { Msg { line, head: [b"Content-Length: 3\r\n", h].concat(), body: b"abc".to_vec(), trailer: None } }
            };
            let (q, s) = (mk(false, !res), mk(true, res));
            let n = whole(if res { std::slice::from_ref(&s) } else { std::slice::from_ref(&q) }).len();
            for k in 0..n {
                if c.done() { break; }
                let cut = [k];
                let (qc, sc): (&[usize], &[usize]) = if res { (&[], &cut) } else { (&cut, &[]) };
                known(c, std::slice::from_ref(&q), std::slice::from_ref(&s), qc, sc);
            }
            let all: Vec<usize> = (1..n).collect();
            let (qc, sc): (&[usize], &[usize]) = if res { (&[], &all) } else { (&all, &[]) };
            known(c, std::slice::from_ref(&q), std::slice::from_ref(&s), qc, sc);
        } } } }
        c.phase("several messages, any cuts", 30);
        while !c.done() {
            let n = 1 + rng.below(3);
            let rq: Vec<Msg> = (0..n).map(|_| msg(&mut rng, false)).collect();
            let rs: Vec<Msg> = (0..n).map(|_| msg(&mut rng, true)).collect();
            let qc = gen::cuts(&mut rng, whole(&rq).len());
            let sc = gen::cuts(&mut rng, whole(&rs).len());
            known(c, &rq, &rs, &qc, &sc);
        }
        c.phase("any traffic", 40);
        while !c.done() {
            let g = rng.chance(1, 2);
            let ops = gen::history(&mut rng, g, false);
            any(c, &ops);
        }
    });
}
