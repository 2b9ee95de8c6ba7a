//! P12: request framing follows the headers, and every ambiguity is flagged.
use harness::*;
use htp::config::Config;
use htp::connection_parser::HtpStreamState;
use htp::request::HtpMethod;
use htp::transaction::HtpTransferCoding;
use htp::util::HtpFlags as F;

#[derive(Clone)]
struct H { name: Vec<u8>, value: Vec<u8>, folded: bool }
#[derive(Clone)]
struct Case { connect: bool, uri: Vec<u8>, uhost: Option<Vec<u8>>, uport: Option<u16>, uvalid: bool, proto: Vec<u8>, v11: bool, hs: Vec<H> }
fn same(a: &[u8], b: &[u8]) -> bool { a.eq_ignore_ascii_case(b) }
fn low(b: &[u8]) -> Vec<u8> { b.to_ascii_lowercase() }
/// the headers the block stands for: name, value, folded, repeated
fn table(hs: &[H]) -> Vec<(Vec<u8>, Vec<u8>, bool, bool)> {
    let mut t: Vec<(Vec<u8>, Vec<u8>, bool, bool)> = vec![];
    for h in hs {
        if let Some(e) = t.iter_mut().find(|e| same(&e.0, &h.name)) {
            e.3 = true;
            if !same(&h.name, b"content-length") { e.1.extend_from_slice(b", "); e.1.extend_from_slice(&h.value); }
        } else { t.push((h.name.clone(), h.value.clone(), h.folded, false)) }
    }
    t
}
fn get<'a>(t: &'a [(Vec<u8>, Vec<u8>, bool, bool)], n: &[u8]) -> Option<&'a (Vec<u8>, Vec<u8>, bool, bool)> {
    t.iter().find(|e| { let w: Vec<u8> = e.0.iter().copied().filter(|c| *c != 0).collect(); same(&w, n) })
}
fn wire(k: &Case) -> Vec<u8> {
    let mut v = if k.connect { b"CONNECT ".to_vec() } else { b"POST ".to_vec() };
    v.extend_from_slice(&k.uri);
    if !k.proto.is_empty() { v.push(b' '); v.extend_from_slice(&k.proto); }
    v.extend_from_slice(b"\r\n");
    for h in &k.hs {
        v.extend_from_slice(&h.name);
        v.extend_from_slice(if h.folded { b":\r\n " } else { b": " });
        v.extend_from_slice(&h.value);
        v.extend_from_slice(b"\r\n");
    }
    v.extend_from_slice(b"\r\n");
    v
}
fn judge(c: &mut Ctx, k: &Case, cuts: &[usize]) {
    let w = wire(k);
    let mut key = w.clone();
    key.extend(cuts.iter().map(|x| *x as u8));
    c.check("framing and flags of a request", &key, true, &|| format!("{} cut at {:?}", esc(&w), cuts), || {
        let t = table(&k.hs);
        let (te, cl, ho) = (get(&t, b"transfer-encoding"), get(&t, b"content-length"), get(&t, b"host"));
        let chunked = te.is_some_and(|e| refs::holds_nocase_nozero(&e.1, b"chunked"));
        let len = cl.and_then(|e| refs::content_length(&e.1));
        let mut want = 0u64;
        let coding = match (te, cl) {
            (Some(_), _) if chunked => HtpTransferCoding::CHUNKED,
            (None, Some(_)) if len.is_some() => HtpTransferCoding::IDENTITY,
            (None, None) => HtpTransferCoding::NO_BODY,
            _ => HtpTransferCoding::INVALID,
        };
        if coding == HtpTransferCoding::INVALID { want |= F::REQUEST_INVALID | if te.is_some() { F::REQUEST_INVALID_T_E } else { F::REQUEST_INVALID_C_L } }
        if chunked && !k.v11 { want |= F::REQUEST_INVALID_T_E | F::REQUEST_SMUGGLING }
        if chunked && cl.is_some() { want |= F::REQUEST_SMUGGLING }
        if te.is_none() && cl.is_some_and(|e| e.2 || e.3) { want |= F::REQUEST_SMUGGLING }
        if ho.is_none() && k.v11 { want |= F::HOST_MISSING }
        let hp = ho.and_then(|e| refs::hostport(&e.1));
        if hp.as_ref().is_some_and(|h| !h.2) { want |= F::HOSTH_INVALID }
        let (mut host, mut port) = (k.uhost.clone(), k.uport);
        if let Some(u) = &k.uhost {
            if !k.uvalid { want |= F::HOSTU_INVALID }
            if ho.is_some() && hp.is_none() { want |= F::HOST_AMBIGUOUS }
            if let Some(h) = &hp {
                if !same(u, &h.0) { want |= F::HOST_AMBIGUOUS }
                if let (Some(p), Some(q)) = (h.1, k.uport) { if p != Some(q) { want |= F::HOST_AMBIGUOUS } }
            }
        } else if let Some(h) = &hp {
            host = Some(low(&h.0));
            if let Some(p) = h.1 { port = p }
        }
        let mut d = Driver::new(Config::default());
        let st = d.req_chunks(&w, cuts);
        let t = d.tx(0).ok_or("no transaction")?;
        if (t.request_method_number == HtpMethod::CONNECT) != k.connect { return Err("method".into()); }
        let mask = F::REQUEST_INVALID | F::REQUEST_INVALID_T_E | F::REQUEST_INVALID_C_L | F::REQUEST_SMUGGLING | F::HOST_MISSING | F::HOST_AMBIGUOUS | F::HOSTH_INVALID | F::HOSTU_INVALID;
        Ctx::eq(t.request_transfer_coding, coding)?;
        if te.is_none() { Ctx::eq(t.request_content_length, len)? }
        if t.flags & mask != want { return Err(format!("flags {:x}, the contract says {:x}", t.flags & mask, want)); }
        Ctx::eq(t.request_hostname.as_ref().map(|h| esc(h.as_slice())), host.map(|h| esc(&h)))?;
        Ctx::eq(t.request_port_number, port)?;
        if !k.connect {
            let bad = coding == HtpTransferCoding::INVALID;
            if (st == HtpStreamState::ERROR) != bad { return Err(format!("stream state {:?} with coding {:?}", st, coding)); }
        }
        Ok(())
    });
}
const TE: [&[u8]; 13] = [b"", b"chunked", b"Chunked", b"CHUNKED", b"gzip, chunked", b"chunked, identity", b"identity", b"chunke", b"xchunkedx", b"gzip", b"c\0hunked", b"chunk ed", b"x"];
const CL: [&[u8]; 16] = [b"", b"007", b"0", b"5", b"05", b"12", b"x", b"5 6", b"18446744073709551615", b"18446744073709551616", b"-5", b"+5", b"5,5", b"5\t", b"abc7", b"0x10"];
const HO: [&[u8]; 25] = [b"", b"h", b"H", b"example.com", b"EXAMPLE.com", b"example.com:80", b"example.com:81", b"example.com:", b"example.com:x", b"example.com:0", b"example.com:65536", b"example.com:080", b"[::1]", b"[::1]:80", b"[::1]x", b"[::1", b"a..b", b".a", b"a b", b"/x", b":80", b"a?b", b"ex_am-ple.com", b"example.com.", b"a@b"];
// URI, host, port, validity
const UR: [(&[u8], Option<&[u8]>, Option<u16>, bool); 12] = [(b"/", None, None, true), (b"/a?b", None, None, true), (b"http://example.com/", Some(b"example.com"), None, true), (b"http://example.com:80/", Some(b"example.com"), Some(80), true), (b"http://EXAMPLE.COM:81/x", Some(b"example.com"), Some(81), true), (b"http://other/", Some(b"other"), None, true),
    (b"http://a..b/", Some(b"a..b"), None, false), (b"http://example.com:x/", Some(b"example.com"), None, false), (b"http://u:p@example.com/", Some(b"example.com"), None, true), (b"http://[::1]:80/", Some(b"[::1]"), Some(80), true), (b"http://example.com./", Some(b"example.com"), None, true), (b"*", None, None, true)];
const CO: [(&[u8], Option<&[u8]>, Option<u16>, bool); 7] = [(b"example.com:80", Some(b"example.com"), Some(80), true), (b"EXAMPLE.com", Some(b"example.com"), None, true), (b"example.com:0", Some(b"example.com"), None, false), (b"a..b:80", Some(b"a..b"), Some(80), false), (b"[::1]:443", Some(b"[::1]"), Some(443), true), (b"other:81", Some(b"other"), Some(81), true), (b"/x", None, None, true)];
const PR: [(&[u8], bool); 6] = [(b"HTTP/1.1", true), (b"HTTP/1.0", false), (b"HTTP/0.9", false), (b"HTTP/2.0", false), (b"http/1.1", true), (b"HTTP/x", false)];
fn case(connect: bool, u: usize, p: usize, hs: Vec<H>) -> Case {
    let e = if connect { CO[u % CO.len()] } else { UR[u % UR.len()] };
    Case { connect, uri: e.0.to_vec(), uhost: e.1.map(|x| x.to_vec()), uport: e.2, uvalid: e.3, proto: PR[p].0.to_vec(), v11: PR[p].1, hs }
}
fn h(n: &[u8], v: &[u8], folded: bool) -> H { H { name: n.to_vec(), value: v.iter().copied().collect::<Vec<u8>>().trim_ascii().to_vec(), folded: folded && !v.is_empty() } }
fn main() {
    run("every case decides how a request is framed", |c| {
        c.phase("each header alone and in pairs", 40);
        let ho = h(b"Host", b"h", false);
        for p in 0..PR.len() {
            for connect in [false, true] {
                for te in TE { judge(c, &case(connect, 0, p, vec![ho.clone(), h(b"Transfer-Encoding", te, false)]), &[]); }
                for cl in CL { for f in [false, true] {
                    judge(c, &case(connect, 0, p, vec![ho.clone(), h(b"Content-Length", cl, f)]), &[]);
                    judge(c, &case(connect, 0, p, vec![ho.clone(), h(b"Content-Length", cl, f), h(b"content-length", b"5", false)]), &[]);
                    judge(c, &case(connect, 0, p, vec![h(b"Content-Length", cl, f), h(b"Transfer-Encoding", b"chunked", f)]), &[]);
                    judge(c, &case(connect, 0, p, vec![h(b"Transfer-Encoding", b"x", f), h(b"Content-Length", cl, f)]), &[]);
                } }
                for hv in HO { for u in 0..UR.len() { judge(c, &case(connect, u, p, vec![h(b"Host", hv, false)]), &[]); } }
                for u in 0..UR.len() { judge(c, &case(connect, u, p, vec![]), &[]); judge(c, &case(connect, u, p, vec![h(b"X-Host", b"a", false)]), &[]); }
            }
        }
        c.phase("random header sets", 60);
        while !c.done() {
            let mut hs = vec![];
            let r = &mut c.rng;
            for _ in 0..r.below(6) {
                let f = r.chance(1, 6);
                let z = |n: &[u8], r: &mut Rng| { let mut v = n.to_vec(); if r.chance(1, 4) { v = v.to_ascii_lowercase() } if r.chance(1, 8) { v = v.to_ascii_uppercase() } v };
                match r.below(5) {
                    0 => { let v = *r.pick(&TE); hs.push(h(&z(b"Transfer-Encoding", r), v, f)) }
                    1 => { let v = *r.pick(&CL); hs.push(h(&z(b"Content-Length", r), v, f)) }
                    2 | 3 => { let v = if r.chance(1, 3) { let w = r.bytes(b"a.:[]/0189 -_@?#", 9); w.into_iter().filter(|c| !b"\r\n\0".contains(c)).collect() } else { r.pick(&HO).to_vec() }; let t = v.trim_ascii().to_vec(); if !t.is_empty() && !t.iter().any(|c| *c == 11 || *c == 12) { hs.push(h(&z(b"Host", r), &t, f)) } }
                    _ => { let n: &[u8] = *r.pick(&[&b"X"[..], b"Hos", b"Hostx", b"Content-Lengt", b"Transfer-Encodings", b"Accept"]); hs.push(h(n, b"chunked 5", f)) }
                }
            }
            let (u, p, k) = (r.below(12), if r.chance(1, 2) { 0 } else { r.below(PR.len()) }, r.chance(1, 4));
            let k = case(k, u, p, hs);
            let n = wire(&k).len();
            let cuts = if r.chance(1, 3) { gen::cuts(r, n) } else { vec![] };
            judge(c, &k, &cuts);
        }
    });
}
