//! P13: response framing follows status, method and headers.
use harness::rec::{self, K};
use harness::*;
use htp::config::Config;
use htp::connection_parser::HtpStreamState as S;
use htp::transaction::{HtpResponseNumber, HtpResponseProgress, HtpTransferCoding as T};
use htp::util::HtpFlags as F;

#[derive(Clone)]
struct Case { method: &'static str, status: u16, proto: &'static str, hs: Vec<(&'static str, &'static str, bool)>, expect: bool }
#[derive(Debug, PartialEq, Clone, Copy)]
enum B { Tunnel, Switch, Interim, Nothing, Chunked, Length(u64), BadLength, Ranges, Close }
/// value of the header, repeated
fn get(k: &Case, n: &str) -> Option<(String, bool)> {
    let v: Vec<&str> = k.hs.iter().filter(|h| h.0.eq_ignore_ascii_case(n)).map(|h| h.1.trim()).collect();
    if v.is_empty() { return None; }
    Some((if n == "content-length" { v[0].to_string() } else { v.join(", ") }, v.len() > 1))
}
fn body(k: &Case) -> (B, bool) {
    let (te, cl) = (get(k, "transfer-encoding"), get(k, "content-length"));
    let len = cl.as_ref().and_then(|c| refs::content_length(c.0.as_bytes()));
    let plain = te.is_none() && cl.is_none();
    if k.method == "CONNECT" && (200..=299).contains(&k.status) { return (B::Tunnel, false); }
    if k.status == 101 && plain { return (B::Switch, false); }
    if k.status == 100 && te.is_none() && !len.is_some_and(|n| n > 0) { return (B::Interim, false); }
    if k.method == "HEAD" || (((100..=199).contains(&k.status) || k.status == 204 || k.status == 304) && plain) { return (B::Nothing, false); }
    if te.is_some_and(|t| refs::holds_nocase_nozero(t.0.as_bytes(), b"chunked")) { return (B::Chunked, cl.is_some()); }
    if let Some(c) = cl { return (len.map_or(B::BadLength, B::Length), c.1); }
    if get(k, "content-type").is_some_and(|c| c.0.split([';', ' ', '\t']).next().unwrap().to_ascii_lowercase().contains("multipart/byteranges")) { return (B::Ranges, false); }
    (B::Close, false)
}
fn head(k: &Case) -> Vec<u8> {
    let mut s = format!("{} {} R\r\n", k.proto, k.status);
    for (n, v, f) in &k.hs { s += n; s += if *f { ":\r\n " } else { ": " }; s += v; s += "\r\n"; }
    s += "\r\n";
    s.into_bytes()
}
const NEXT: &[u8] = b"HTTP/1.1 203 Next\r\nContent-Length: 1\r\n\r\nn";
fn judge(c: &mut Ctx, k: &Case, cuts: &[usize]) {
    let h = head(k);
    let mut key = format!("{}{}", k.method, k.expect).into_bytes();
    key.extend(&h);
    key.extend(cuts.iter().map(|x| *x as u8));
    let (b, smug) = body(k);
    c.check("framing of a response", &key, true, &|| format!("answer to {}{}: {} cut at {:?}", k.method, if k.expect { " with an unsent body" } else { "" }, esc(&h), cuts), || {
        let mut cfg = Config::default();
        rec::register(&mut cfg);
        rec::clear();
        let mut d = Driver::new(cfg);
        let uri = if k.method == "CONNECT" { "h:80" } else { "/" };
        if k.expect { d.req(format!("{} {} HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\nExpect: 100-continue\r\n\r\n", k.method, uri).as_bytes()); }
        else { d.req(format!("{} {} HTTP/1.1\r\nHost: h\r\n\r\n", k.method, uri).as_bytes()); }
        let second = k.method != "CONNECT" && !k.expect;
        if second { d.req(b"GET /2 HTTP/1.1\r\nHost: h\r\n\r\n"); }
        let (payload, want): (Vec<u8>, Vec<u8>) = match b {
            B::Length(n) if n < 100 => (vec![b'x'; n as usize], vec![b'x'; n as usize]),
            B::Length(_) => (vec![b'x'; 30], vec![b'x'; 30]),
            B::Chunked => (b"3\r\nabc\r\n0\r\n\r\n".to_vec(), b"abc".to_vec()),
            B::Close => (b"some body".to_vec(), b"some body".to_vec()),
            _ => (vec![], vec![]),
        };
        let whole = !matches!(b, B::Length(n) if n >= 100);
        let mut w = h.clone();
        w.extend(&payload);
        let mut st = d.res_chunks(&w, cuts);
        let t = d.tx(0).ok_or("no transaction")?;
        let smuggled = t.flags & F::REQUEST_SMUGGLING != 0;
        if smuggled != smug { return Err(format!("{:?}: smuggling flag {}, the contract says {}", b, smuggled, smug)); }
        let got = |i: usize| -> Vec<u8> { rec::all().iter().filter(|e| e.k == K::ResponseBodyData && e.tx == i).flat_map(|e| e.data.clone().unwrap_or_default()).collect() };
        let done = |d: &Driver, i: usize| d.tx(i).is_some_and(|t| t.response_progress == HtpResponseProgress::COMPLETE);
        if got(0) != want { return Err(format!("{:?}: body {} delivered, {} sent", b, esc(&got(0)), esc(&want))); }
        let coding = match b { B::Nothing => Some(T::NO_BODY), B::Chunked => Some(T::CHUNKED), B::Length(_) | B::BadLength | B::Close => Some(T::IDENTITY), _ => None };
        if let Some(x) = coding { Ctx::eq(t.response_transfer_coding, x)? }
        if let B::Length(n) = b { Ctx::eq(t.response_content_length, Some(n))? }
        match b {
            B::BadLength | B::Ranges => { return Ctx::eq(st, S::ERROR); }
            B::Switch => {
                Ctx::eq(st, S::TUNNEL)?;
                if !second { return Ok(()); }
                return Ctx::eq(d.req(b"anything"), S::TUNNEL);
            }
            B::Tunnel => { return Ctx::eq(done(&d, 0), true); }
            B::Interim => {
                Ctx::eq((t.seen_100continue, t.response_headers.elements.len(), done(&d, 0)), (true, 0, false))?;
                st = d.res(b"HTTP/1.1 202 Final\r\nContent-Length: 2\r\nX-F: y\r\n\r\nok");
                if st == S::ERROR { return Err("the final answer is refused".into()); }
                let t = d.tx(0).ok_or("no transaction")?;
                Ctx::eq((t.response_status_number, t.response_headers.elements.len()), (HtpResponseNumber::VALID(202), 2))?;
                if k.method == "HEAD" || k.method == "CONNECT" { return Ok(()); }
                Ctx::eq(got(0), b"ok".to_vec())?
            }
            _ => {}
        }
        if st == S::ERROR { return Err(format!("{:?} refused", b)); }
        if b == B::Close || !whole {
            Ctx::eq(done(&d, 0), false)?;
            d.res(NEXT);
            let mut all = want.clone();
            all.extend(NEXT);
            return Ctx::eq(got(0), all);
        }
        // the message ends exactly there: what follows is the next answer
        Ctx::eq(done(&d, 0), true)?;
        if second {
            d.res(NEXT);
            let t = d.tx(1).ok_or("no second transaction")?;
            Ctx::eq((t.response_status_number, got(1), done(&d, 1)), (HtpResponseNumber::VALID(203), b"n".to_vec(), true))?;
        }
        Ok(())
    });
}
/// a refused body: the client's next request starts where the body would have
fn refused(c: &mut Ctx, status: u16, expect: Option<&str>, sent: usize) {
    let key = format!("{} {:?} {}", status, expect, sent);
    c.check("a refused request body", key.as_bytes(), true, &|| format!("request with a 3-byte body, Expect {:?}, {} bytes sent; answer {}", expect, sent, status), || {
        let mut d = Driver::new(Config::default());
        d.req(format!("POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n{}\r\n", expect.map(|e| format!("Expect: {}\r\n", e)).unwrap_or_default()).as_bytes());
        if sent > 0 { d.req(&b"GET"[..sent]); }
        d.res(format!("HTTP/1.1 {} R\r\nContent-Length: 0\r\n\r\n", status).as_bytes());
        d.req(&b"GET"[sent..]);
        let m = d.tx(0).map(|t| t.request_message_len).unwrap_or(0);
        d.req(b" /next HTTP/1.1\r\nHost: h\r\n\r\n");
        let fresh = (400..=499).contains(&status) && expect == Some("100-continue") && sent == 0;
        let got = d.tx(1).and_then(|t| t.request_uri.clone()).is_some_and(|u| u.as_slice() == b"/next");
        // not refused: the body takes what is missing of its three bytes from the data that follows
        Ctx::eq((got || !fresh, m), (true, if fresh { 0 } else { 3 }))
    });
}
const ST: [u16; 17] = [100, 101, 102, 199, 200, 201, 204, 206, 299, 300, 304, 400, 404, 407, 417, 500, 999];
const ME: [&str; 5] = ["GET", "HEAD", "POST", "CONNECT", "OPTIONS"];
const TE: [&str; 9] = ["", "chunked", "Chunked", "gzip, chunked", "identity", "gzip", "xchunkedy", "chunke", "chunked;q=1"];
const CL: [&str; 10] = ["", "0", "5", "05", "x", "7 7", "18446744073709551615", "18446744073709551616", "12", "abc9"];
const CT: [&str; 8] = ["", "text/html", "multipart/byteranges", "Multipart/ByteRanges; boundary=x", "multipart/byteranges2", "a;multipart/byteranges", "text multipart/byteranges", "xmultipart/byteranges"];
fn main() {
    run("every case decides how a response is framed", |c| {
        c.phase("statuses, methods and each framing header", 55);
        for status in ST { for method in ME { for proto in ["HTTP/1.1", "HTTP/1.0"] { for expect in [false, true] {
            if expect && method == "CONNECT" { continue; }
            let k = |hs: Vec<(&'static str, &'static str, bool)>| Case { method, status, proto, hs, expect };

            judge(c, &k(vec![("Server", "s", false)]), &[]);
            for te in TE {
                judge(c, &k(vec![("Transfer-Encoding", te, false)]), &[]);
                judge(c, &k(vec![("Transfer-Encoding", te, false), ("Content-Length", "5", false)]), &[]);
            }
            for cl in CL {
                judge(c, &k(vec![("Content-Length", cl, false)]), &[]);
                judge(c, &k(vec![("Content-Length", cl, false), ("content-length", "5", false)]), &[]);
                judge(c, &k(vec![("Content-Length", cl, false), ("Transfer-Encoding", "chunked", false)]), &[]);
            }
            for ct in CT {
                judge(c, &k(vec![("Content-Type", ct, false)]), &[]);
                judge(c, &k(vec![("Content-Type", ct, false), ("Content-Length", "4", false)]), &[]);
            }
        } } } }
        for s in ST { for e in [None, Some("100-continue"), Some("100-Continue"), Some("x")] { for n in [0, 1, 2] { if s != 101 { refused(c, s, e, n) } } } }
        c.phase("random", 45);
        while !c.done() {
            let r = &mut c.rng;
            let mut hs = vec![("Server", "s", false)];
            for _ in 0..r.below(5) {
                let f = r.chance(1, 8);
                hs.push(match r.below(4) {
                    0 => (*r.pick(&["Transfer-Encoding", "transfer-encoding"]), *r.pick(&TE), f),
                    1 => (*r.pick(&["Content-Length", "CONTENT-LENGTH"]), *r.pick(&CL), f),
                    2 => ("Content-Type", *r.pick(&CT), f),
                    _ => (*r.pick(&["X", "Content-Lengt", "Upgrade", "Connection"]), *r.pick(&["chunked", "h2c", "5"]), f),
                });
            }
            let status = if r.chance(1, 5) { 100 + r.below(900) as u16 } else { *r.pick(&ST) };
            let method = *r.pick(&ME);
            let k = Case { method, status, proto: *r.pick(&["HTTP/1.1", "HTTP/1.0", "HTTP/0.9"]), hs, expect: method != "CONNECT" && r.chance(1, 5) };
            let n = head(&k).len();
            let cuts = if r.chance(1, 4) { gen::cuts(r, n) } else { vec![] };
            judge(c, &k, &cuts);
        }
    });
}
