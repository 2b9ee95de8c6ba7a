//! Generators of HTTP traffic: mostly well-formed, sometimes odd.
use crate::Rng;

pub const METHODS: &[&[u8]] = &[b"GET", b"POST", b"HEAD", b"PUT", b"CONNECT", b"OPTIONS", b"FOO", b"get"];
pub const TARGETS: &[&[u8]] = &[b"/", b"/a/../b?x=1&y=2#f", b"http://h.example:8080/p?q", b"*", b"host.example:443", b"/%2e%2e/%u0041", b"/a b", b"http://[::1]:80/", b"http://u:p@h/"];
pub const PROTOS: &[&[u8]] = &[b" HTTP/1.1", b" HTTP/1.0", b" HTTP/1.1", b" HTTP/1.1", b" HTTP/0.9", b" HTTP/2.0", b" HTTPS/1", b"", b" HTTP/1.1 "];
pub const REQ_HEADERS: &[&[u8]] = &[
    b"Host: h.example\r\n", b"Host: other:99\r\n", b"host:\th.example \r\n", b"User-Agent: a\r\n b\r\n", b"Cookie: a=1; b=2\r\n", b"Accept: */*\r\n", b"Accept: x\r\n",
    b"Expect: 100-continue\r\n", b"Authorization: Basic YTpi\r\n", b"Authorization: Digest username=\"u\"\r\n", b"NoColon\r\n", b": empty\r\n", b"X Y: z\r\n", b" folded\r\n", b"X-N\0l: a\0b\r\n",
    b"Content-Type: application/x-www-form-urlencoded\r\n", b"A: 1\n", b"Connection: close\r\n", b"Content-Encoding: gzip\r\n",
];
pub const RES_HEADERS: &[&[u8]] = &[
    b"Server: s\r\n", b"Content-Type: text/html; charset=x\r\n", b"Set-Cookie: a=1\r\n", b"Set-Cookie: b=2\r\n", b"NoColon\r\n", b": empty\r\n", b"X Y: z\r\n", b"Folded: a\r\n\tb\r\n",
    b"A: 1\n", b"B: 2\r\r\n", b"Connection: close\r\n", b"Content-Type: multipart/byteranges\r\n", b"X-N\0l: a\r\n",
];
pub const STATUSES: &[&[u8]] = &[b"200 OK", b"404 Not Found", b"204 No Content", b"304 Not Modified", b"100 Continue", b"101 Switching", b"500", b"401 x", b"abc", b"99", b"1000 x", b"407 Auth"];
pub fn one(rng: &mut Rng, v: &[&'static [u8]]) -> &'static [u8] { v[rng.below(v.len())] }
fn cat(v: &mut Vec<u8>, b: &[u8]) { v.extend_from_slice(b) }
pub fn chunked(rng: &mut Rng, body: &[u8], lenient: bool) -> Vec<u8> {
    let mut v = vec![];
    let mut a = 0;
    while a < body.len() {
        let n = 1 + rng.below((body.len() - a).min(9));
        match rng.below(8) {
            0 => cat(&mut v, format!("{:X}\r\n", n).as_bytes()),
            1 => cat(&mut v, format!("{:x};ext=1\r\n", n).as_bytes()),
            2 => cat(&mut v, format!("0{:x}\r\n", n).as_bytes()),
            3 => cat(&mut v, format!("{:x} \r\n", n).as_bytes()),
            _ => cat(&mut v, format!("{:x}\r\n", n).as_bytes()),
        }
        cat(&mut v, &body[a..a + n]);
        cat(&mut v, b"\r\n");
        a += n;
        // an empty line before a chunk length is skipped (and counted)
        if lenient && rng.chance(1, 8) { cat(&mut v, b"\r\n"); }
    }
    cat(&mut v, b"0\r\n");
    v
}
pub fn body(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = rng.below(max + 1);
    (0..n).map(|_| *rng.pick(b"abc\r\n\0 =&%01HGET/")).collect()
}
fn finish(rng: &mut Rng, v: &mut Vec<u8>) {
    let b = body(rng, 24);
    match rng.below(8) {
        0 => cat(v, b"\r\n"),
        1 => { cat(v, b"\n"); }
        2 | 3 => { cat(v, b"Transfer-Encoding: chunked\r\n"); if rng.chance(1, 6) { cat(v, b"Content-Length: 3\r\n") } cat(v, b"\r\n"); let c = chunked(rng, &b, false); cat(v, &c); if rng.chance(1, 2) { cat(v, b"Trailer: t\r\n") } cat(v, b"\r\n"); }
        4 | 5 | 6 => { cat(v, format!("Content-Length: {}\r\n", b.len()).as_bytes()); if rng.chance(1, 8) { cat(v, b"Content-Length: 2\r\n") } cat(v, b"\r\n"); cat(v, &b); }
        _ => { cat(v, b"\r\n"); cat(v, &b); }
    }
}
/// one request, possibly odd
pub fn request(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    if rng.chance(1, 20) { cat(&mut v, b"\r\n") }
    cat(&mut v, if rng.chance(2, 3) { b"GET" } else { one(rng, METHODS) });
    cat(&mut v, b" ");
    cat(&mut v, one(rng, TARGETS));
    cat(&mut v, if rng.chance(3, 4) { b" HTTP/1.1" } else { one(rng, PROTOS) });
    cat(&mut v, if rng.chance(9, 10) { b"\r\n" } else { b"\n" });
    for _ in 0..rng.below(4) { cat(&mut v, one(rng, REQ_HEADERS)) }
    finish(rng, &mut v);
    v
}
/// one response, possibly odd
pub fn response(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    cat(&mut v, if rng.chance(5, 6) { b"HTTP/1.1 " } else { one(rng, &[b"HTTP/1.0 ", b"HTTP/9 ", b"junk ", b"HTTP/1.1  "]) });
    cat(&mut v, if rng.chance(2, 3) { b"200 OK" } else { one(rng, STATUSES) });
    cat(&mut v, if rng.chance(9, 10) { b"\r\n" } else { b"\n" });
    for _ in 0..rng.below(4) { cat(&mut v, one(rng, RES_HEADERS)) }
    finish(rng, &mut v);
    v
}
pub fn cuts(rng: &mut Rng, n: usize) -> Vec<usize> {
    match rng.below(4) {
        0 => vec![],
        1 => (1..n.max(1)).collect(),
        2 => vec![rng.below(n + 1)],
        _ => { let mut c: Vec<usize> = (0..rng.below(6)).map(|_| rng.below(n + 1)).collect(); c.sort(); c }
    }
}
#[derive(Clone, Debug)]
pub enum Op { Req(Vec<u8>), Res(Vec<u8>), ReqGap(usize), ResGap(usize), Remove(usize), ReqClose, Close }
/// a history of traffic on one connection
pub fn history(rng: &mut Rng, gaps: bool, removes: bool) -> Vec<Op> {
    let n = 1 + rng.below(3);
    let (mut q, mut s) = (vec![], vec![]);
    for _ in 0..n { let r = request(rng); cat(&mut q, &r); let r = response(rng); cat(&mut s, &r); }
    if rng.chance(1, 10) { let k = rng.below(q.len()); q[k] = rng.next() as u8; }
    if rng.chance(1, 10) { let k = rng.below(s.len()); s[k] = rng.next() as u8; }
    let qc = cuts(rng, q.len());
    let sc = cuts(rng, s.len());
    let mut a: Vec<Op> = crate::chunks(&q, &qc).into_iter().map(|x| Op::Req(x.to_vec())).collect();
    let mut b: Vec<Op> = crate::chunks(&s, &sc).into_iter().map(|x| Op::Res(x.to_vec())).collect();
    let mut out = vec![];
    let style = rng.below(3);
    a.reverse();
    b.reverse();
    while !a.is_empty() || !b.is_empty() {
        let first = match style { 0 => !a.is_empty(), 1 => rng.chance(1, 2), _ => rng.chance(3, 4) };
        if (first && !a.is_empty()) || b.is_empty() { out.push(a.pop().unwrap()) } else { out.push(b.pop().unwrap()) }
        if gaps && rng.chance(1, 12) { let n = 1 + rng.below(9); out.push(if rng.chance(1, 2) { Op::ReqGap(n) } else { Op::ResGap(n) }) }
        if removes && rng.chance(1, 10) { out.push(Op::Remove(rng.below(n + 1))) }
    }
    if rng.chance(1, 6) { out.push(Op::ReqClose) }
    if rng.chance(3, 4) { out.push(Op::Close) }
    out
}
pub fn show_ops(ops: &[Op]) -> String {
    let mut s = String::new();
    for o in ops {
        match o {
            Op::Req(d) => s += &format!("request {}; ", crate::esc(d)),
            Op::Res(d) => s += &format!("response {}; ", crate::esc(d)),
            o => s += &format!("{:?}; ", o),
        }
    }
    s
}
/// key for counting distinct histories
pub fn key(ops: &[Op]) -> Vec<u8> { show_ops(ops).into_bytes() }
