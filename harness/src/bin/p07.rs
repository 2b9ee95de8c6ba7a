//! P07: numeric and version fields.
use harness::*;
use htp::config::{Config, HtpServerPersonality};
use htp::log::{HtpLogLevel, Logger};
use htp::parsers::*;
use htp::transaction::{HtpProtocol, HtpResponseNumber};
use htp::util::convert_port;

fn lws(c: u8) -> bool { c == 32 || c == 9 }
fn aws(c: u8) -> bool { [32, 9, 10, 12, 13].contains(&c) }
fn skip(s: &[u8], f: impl Fn(u8) -> bool) -> &[u8] {
    &s[s.iter().position(|c| !f(*c)).unwrap_or(s.len())..]
}
/// arbitrary-precision-ish: saturates well above u64::MAX
fn value(s: &[u8], radix: u128) -> u128 {
    s.iter().fold(0u128, |a, c| (a.min(1u128 << 100)) * radix + (*c as char).to_digit(radix as u32).unwrap() as u128)
}
fn first_digits(s: &[u8]) -> Option<(&[u8], &[u8], &[u8])> {
    let a = skip(s, lws);
    let b = skip(a, |c| !c.is_ascii_digit());
    let c = skip(b, |c| c.is_ascii_digit());
    if b.is_empty() { return None; }
    Some((&a[..a.len() - b.len()], &b[..b.len() - c.len()], skip(c, lws)))
}
fn content_length(s: &[u8]) -> Option<u64> {
    let (_, d, _) = first_digits(s)?;
    u64::try_from(value(d, 10)).ok()
}
fn chunk(s: &[u8]) -> Result<(Option<u64>, bool), ()> {
    let a = skip(skip(s, |c| [13, 10, 32, 9, 11, 12].contains(&c)), lws);
    let b = skip(a, |c| c.is_ascii_hexdigit());
    let h = &a[..a.len() - b.len()];
    let rest = skip(b, lws);
    if h.is_empty() {
        return if rest.is_empty() { Ok((None, false)) } else { Err(()) };
    }
    let v = value(h, 16);
    if v > u64::MAX as u128 { return Err(()); }
    if v > i32::MAX as u128 { return Ok((None, false)); }
    Ok((Some(v as u64), rest.contains(&b';')))
}
fn status(s: &[u8]) -> Option<u16> {
    let (l, d, r) = first_digits(s)?;
    let v = value(d, 10);
    if l.is_empty() && r.is_empty() && (100..=999).contains(&v) { Some(v as u16) } else { None }
}
fn port(s: &[u8]) -> Option<u16> {
    if s.is_empty() || !s.iter().all(|c| c.is_ascii_digit()) { return None; }
    let v = value(s, 10);
    if (1..=65535).contains(&v) { Some(v as u16) } else { None }
}
fn protocol(s: &[u8]) -> HtpProtocol {
    let a = skip(s, aws);
    if a.len() < 4 || !a[..4].eq_ignore_ascii_case(b"HTTP") { return HtpProtocol::INVALID; }
    let b = skip(&a[4..], aws);
    if b.first() != Some(&b'/') { return HtpProtocol::INVALID; }
    let t = skip(&b[1..], |c| aws(c) || c == b'0');
    for (v, p) in [(&b".9"[..], HtpProtocol::V0_9), (b"1.0", HtpProtocol::V1_0), (b"1.1", HtpProtocol::V1_1)] {
        if t.starts_with(v) && skip(&t[v.len()..], aws).is_empty() { return p; }
    }
    HtpProtocol::INVALID
}

fn one(c: &mut Ctx, s: &[u8], logger: &mut Logger) {
    let nt = s.len() > 1;
    let inp = || esc(s);
    c.check("content length", s, nt, &inp, || Ctx::eq(parse_content_length(s, None), content_length(s)));
    c.check("content length (with a logger)", s, nt, &inp, || Ctx::eq(parse_content_length(s, Some(logger)), content_length(s)));
    c.check("chunk length", s, nt, &inp, || Ctx::eq(parse_chunked_length(s).map_err(|_| ()), chunk(s)));
    c.check("status code", s, nt, &inp, || {
        let got = match parse_status(s) { HtpResponseNumber::VALID(n) => Some(n), HtpResponseNumber::INVALID => None, x => return Err(format!("{:?}", x)) };
        Ctx::eq(got, status(s))
    });
    c.check("port", s, nt, &inp, || Ctx::eq(convert_port(s), port(s)));
    c.check("protocol", s, nt, &inp, || Ctx::eq(parse_protocol(s, logger), protocol(s)));
}

/// The same fields through the whole parser.
fn end_to_end(c: &mut Ctx, fld: &[u8]) {
    if fld.iter().any(|b| *b == 10 || *b == 13 || *b == 0) { return; }
    // status line
    let mut resp = b"HTTP/1.1 ".to_vec();
    resp.extend_from_slice(fld);
    resp.extend_from_slice(b" OK\r\nContent-Length: 0\r\n\r\n");
    let want = {
        let f = skip(fld, |c| [32, 9, 11, 12].contains(&c));
        let end = f.iter().position(|c| [32, 9, 11, 12].contains(c)).unwrap_or(f.len());
        // the status code is the second word of the status line
        if f.is_empty() { None } else { status(&f[..end]) }
    };
    if !skip(fld, |c| [32, 9, 11, 12].contains(&c)).is_empty() {
        c.check("status code of a response", fld, true, &|| esc(&resp), || {
            let mut d = Driver::new(Config::default());
            d.req(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
            d.res(&resp);
            let t = d.tx(0).ok_or("no transaction")?;
            let got = match t.response_status_number { HtpResponseNumber::VALID(n) => Some(n), _ => None };
            Ctx::eq(got, want)
        });
    }
    // chunk length: a request with a chunked body whose first length line is the field
    let want = chunk(fld);
    if skip(fld, |c| [32, 9, 11, 12].contains(&c)).is_empty() { return; }
    let mut reqd = b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec();
    reqd.extend_from_slice(fld);
    reqd.extend_from_slice(b"\r\n");
    let n = match want { Ok((Some(n), _)) if n <= 40 => Some(n as usize), _ => None };
    if let Some(n) = n {
        reqd.extend(std::iter::repeat(b'x').take(n));
        if n > 0 { reqd.extend_from_slice(b"\r\n0\r\n"); }
        reqd.extend_from_slice(b"\r\n");
        c.check("chunk length of a request", fld, true, &|| esc(&reqd), || {
            let mut d = Driver::new(Config::default());
            d.req(&reqd);
            let t = d.tx(0).ok_or("no transaction")?;
            if t.request_entity_len != n as u64 { return Err(format!("entity length {} for a chunk of {}", t.request_entity_len, n)); }
            Ok(())
        });
    } else if want.is_err() {
        reqd.extend_from_slice(b"0123456789\r\n0\r\n\r\n");
        c.check("invalid chunk length of a request ends the stream in error", fld, true, &|| esc(&reqd), || {
            let mut d = Driver::new(Config::default());
            let st = d.req(&reqd);
            Ctx::eq(format!("{:?}", st), "ERROR".to_string())
        });
    }
}

fn main() {
    let (tx, _rx) = std::sync::mpsc::channel();
    let mut logger = Logger::new(&tx, HtpLogLevel::NONE);
    let _ = HtpServerPersonality::GENERIC;
    run("every string over small alphabets up to the phase length, every one- and two-byte string, boundary numbers of every field (with blanks, signs, leading zeros and trailing data), then seeded random concatenations; whole-parser runs with the field in a status line and a chunk header; non-trivial = length > 1", |c| {
        c.phase("bytes", 100);
        for b in 0..=255u8 { for d in 0..=255u8 { one(c, &[b, d], &mut logger); } }
        c.phase("boundary numbers", 100);
        let vals: Vec<String> = [0u128, 1, 9, 10, 99, 100, 101, 199, 200, 599, 600, 998, 999, 1000, 1001, 65534, 65535, 65536, 65537, 99999,
            (1 << 31) - 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 10 * (1 << 64), 1 << 65, 1 << 80]
            .iter().flat_map(|v| [format!("{}", v), format!("{:x}", v), format!("{:X}", v), format!("0{}", v), format!("000000000000000000000000{}", v), format!("00000000000000000000000{:x}", v)]).collect();
        let pre: &[&str] = &["", " ", "\t", "  ", "+", "-", "0x", "x", "\x0b", "\r", "a", "\u{b2}", "_"];
        let post: &[&str] = &["", " ", "\t ", ";", ";e=1", " ; x", "x", " x", ",5", "_", "\r", "\n", "g;", " 1"];
        for v in &vals { for a in pre { for b in post { one(c, format!("{}{}{}", a, v, b).as_bytes(), &mut logger); } } }
        c.phase("exhaustive", 40);
        let n = if c.thorough { 8 } else { 6 };
        all_strings(b" 0199;+a", n, &mut |s| { one(c, s, &mut logger); !c.done() });
        c.phase("versions", 30);
        let pieces: &[&[u8]] = &[b"HTTP", b"http", b"HtTp", b"/", b"0", b"1.1", b"1.0", b".9", b"0.9", b"9", b"1", b".", b" ", b"\t", b"\r", b"\x0b", b"\x0c", b"\n", b"2.0", b"1.2", b"\0", b"X"];
        while !c.done() {
            let mut s = if c.rng.chance(3, 4) { b"HTTP/".to_vec() } else { vec![] };
            s.extend(c.rng.pieces(pieces, 6));
            one(c, &s, &mut logger);
        }
        c.phase("random", 10);
        while !c.done() {
            let s = c.rng.bytes(b"0123456789abcdefABCDEF; \t+x", 24);
            one(c, &s, &mut logger);
        }
        c.phase("whole parser", 20);
        for v in &vals { for a in ["", " ", "x", "+"] { for b in ["", " ", "x", ";e"] { end_to_end(c, format!("{}{}{}", a, v, b).as_bytes()); } } }
        while !c.done() {
            let s = c.rng.bytes(b"0123456789abcdef; \t+x", 8);
            end_to_end(c, &s);
        }
    });
}
