//! P17: decompression: complete and in order whatever the chunking, within the limits, or passed through.
use flate2::{write, Compression};
use harness::*;
use htp::config::Config;
use htp::connection_parser::{HtpStreamState as S, ParserData};
use htp::transaction::Transaction;
use htp::HtpStatus;
use std::cell::RefCell;
use std::io::Write;

#[derive(Default)]
struct Seen { out: Vec<u8>, wrong: Option<String>, limit: u64, ratio: u64 }
thread_local! { static SEEN: RefCell<Seen> = Default::default(); }
fn bomb(n: u64, m: u64, limit: u64, ratio: u64) -> bool { n > limit && m.checked_mul(ratio).map_or(true, |p| n > p) }
fn piece(d: Option<&[u8]>, len: u64, msg: u64) {
    let Some(d) = d else { return };
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        s.out.extend_from_slice(d);
        if len != s.out.len() as u64 && s.wrong.is_none() { s.wrong = Some(format!("entity length {} after {} delivered bytes", len, s.out.len())); }
        if bomb(len - d.len() as u64, msg, s.limit, s.ratio) && s.wrong.is_none() { s.wrong = Some(format!("{} more bytes delivered after {} made from {}", d.len(), len - d.len() as u64, msg)); }
    })
}
fn rq(t: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> { piece(d.data(), t.request_entity_len, t.request_message_len); Ok(()) }
fn rs(t: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> { piece(d.data(), t.response_entity_len, t.response_message_len); Ok(()) }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Z { Gzip, Deflate, Lzma }
fn enc(z: Z, d: &[u8], gz: u8, level: u32) -> Vec<u8> {
    let raw = || { let mut e = write::DeflateEncoder::new(Vec::new(), Compression::new(level)); e.write_all(d).unwrap(); e.finish().unwrap() };
    match z {
        Z::Deflate => raw(),
        Z::Lzma => { let mut o = vec![]; lzma_rs::lzma_compress(&mut &d[..], &mut o).unwrap(); o }
        Z::Gzip => {
            let mut v = vec![0x1f, 0x8b, 8, gz, 1, 2, 3, 4, 0, 3];
            // an extra field of none, one, five or more bytes than a byte can count
            if gz & 4 != 0 { let n = [5usize, 0, 1, 258][d.len() % 4]; v.extend((n as u16).to_le_bytes()); v.extend((0..n).map(|i| [b'e', 0, 0xff][i % 3])); }
            if gz & 8 != 0 { v.extend(b"name\0"); }
            if gz & 16 != 0 { v.extend(b"a comment\0"); }
            if gz & 2 != 0 { v.extend([0x12, 0x34]); }
            v.extend(raw());
            let mut c = flate2::Crc::new();
            c.update(d);
            v.extend(c.sum().to_le_bytes());
            v.extend((d.len() as u32).to_le_bytes());
            v
        }
    }
}
#[derive(Clone)]
struct Case { req: bool, ce: Option<String>, on: bool, body: Vec<u8>, chunked: usize, layers: Option<u32>, lzma: Option<u32>, mem: usize, limit: u64, ratio: u64 }
impl Case {
    fn new(req: bool, ce: &str, body: Vec<u8>) -> Case { Case { req, ce: Some(ce.to_string()), on: true, body, chunked: 0, layers: None, lzma: None, mem: 1 << 23, limit: u64::MAX, ratio: 2048 } }
    fn show(&self, cuts: &[usize]) -> String {
        format!("{} with Content-Encoding {:?}{}, body {} ({} bytes{}), layer limit {:?}, LZMA layers {:?}, LZMA memory {}, bomb limit {} ratio {}, cut at {:?}", if self.req { "request" } else { "response" }, self.ce, if self.on { "" } else { " (decompression off)" },
            esc(&self.body[..self.body.len().min(300)]), self.body.len(), if self.chunked > 0 { ", chunked" } else { "" }, self.layers, self.lzma, self.mem, self.limit, self.ratio, &cuts[..cuts.len().min(40)])
    }
    fn key(&self, cuts: &[usize]) -> Vec<u8> { let mut k = format!("{}{:?}{:?}{}{}{}", self.req, self.ce, self.layers, self.chunked, self.limit, self.ratio).into_bytes(); k.extend(&self.body); k.extend(cuts.iter().flat_map(|c| (*c as u32).to_le_bytes())); k }
}
struct Out { out: Vec<u8>, st: S, msg: u64, ent: u64 }
/// `cuts`: cuts of the body
fn go(k: &Case, cuts: &[usize]) -> Result<Out, String> {
    let mut cfg = Config::default();
    cfg.set_request_decompression(k.on);
    cfg.response_decompression_enabled = k.on;
    let o = &mut cfg.compression_options;
    o.set_time_limit(u32::MAX);
    o.set_layer_limit(k.layers);
    o.set_lzma_layers(k.lzma);
    o.set_lzma_memlimit(k.mem);
    o.set_bomb_limit(k.limit);
    o.set_bomb_ratio(k.ratio);
    cfg.register_request_body_data(rq);
    cfg.register_response_body_data(rs);
    SEEN.with(|s| *s.borrow_mut() = Seen { limit: k.limit, ratio: k.ratio, ..Default::default() });
    let mut d = Driver::new(cfg);
    let mut h = if k.req { "POST / HTTP/1.1\r\nHost: h\r\n".to_string() } else { d.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n"); "HTTP/1.1 200 OK\r\n".to_string() };
    if let Some(c) = &k.ce { h += &format!("Content-Encoding: {}\r\n", c); }
    if k.chunked > 0 { h += "Transfer-Encoding: chunked\r\n\r\n" } else { h += &format!("Content-Length: {}\r\n\r\n", k.body.len()) }
    let mut w: Vec<u8> = vec![];
    let mut at = vec![];
    if k.chunked > 0 {
        for c in k.body.chunks(k.chunked) { let a = w.len(); w.extend(format!("{:x}\r\n", c.len()).bytes()); at.push((a, w.len())); w.extend(c); w.extend(b"\r\n"); }
        w.extend(b"0\r\n\r\n");
    } else { w.extend(&k.body); }
    let mut st = if k.req { d.req(h.as_bytes()) } else { d.res(h.as_bytes()) };
    for c in chunks(&w, cuts) {
        let s = if k.req { d.req(c) } else { d.res(c) };
        st = s;
        if st == S::ERROR { break; }
    }
    let (msg, ent) = { let t = d.tx(0).ok_or("no transaction")?; if k.req { (t.request_message_len, t.request_entity_len) } else { (t.response_message_len, t.response_entity_len) } };
    let (out, wrong) = SEEN.with(|s| { let s = s.borrow(); (s.out.clone(), s.wrong.clone()) });
    if let Some(w) = wrong { return Err(w); }
    if ent != out.len() as u64 { return Err(format!("entity length {}, {} bytes delivered", ent, out.len())); }
    Ok(Out { out, st, msg, ent })
}
fn differ(got: &[u8], want: &[u8]) -> Option<String> {
    if got == want { return None; }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    Some(format!("{} bytes delivered, {} expected; they differ from byte {}: {} / {}", got.len(), want.len(), i, esc(&got[i..got.len().min(i + 40)]), esc(&want[i..want.len().min(i + 40)])))
}
fn whole(c: &mut Ctx, what: &str, k: &Case, cuts: &[usize], plain: &[u8]) {
    c.check(what, &k.key(cuts), true, &|| k.show(cuts), || {
        let o = go(k, cuts)?;
        if let Some(e) = differ(&o.out, plain) { return Err(e); }
        if o.st == S::ERROR { return Err("all was delivered, but the stream reports an error".into()); }
        if k.chunked == 0 { Ctx::eq(o.msg, k.body.len() as u64) } else { Ok(()) } // chunk framing counts
    });
}
fn limited(c: &mut Ctx, k: &Case, cuts: &[usize], plain: &[u8]) {
    c.check("the bomb limit", &k.key(cuts), true, &|| k.show(cuts), || {
        let o = go(k, cuts)?;
        if !plain.starts_with(&o.out) { return Err(differ(&o.out, plain).unwrap()); }
        let b = bomb(o.ent, o.msg, k.limit, k.ratio);
        // what comes out when the body ends is not followed by anything that could fail
        if b && o.st != S::ERROR && o.msg < k.body.len() as u64 { return Err(format!("{} bytes made from {}, and no error", o.ent, o.msg)); }
        if !b && o.st == S::ERROR { return Err(format!("an error with only {} bytes made from {}", o.ent, o.msg)); }
        if !b && o.out != plain { return Err(differ(&o.out, plain).unwrap()); }
        let most = k.limit.max(o.msg.saturating_mul(k.ratio));
        if o.ent > most && o.ent - most > 8192 { return Err(format!("{} bytes delivered, {} over the limit", o.ent, o.ent - most)); }
        Ok(())
    });
}
/// the decoders of a list, in the order of the words
fn used(words: &[&str], layers: Option<u32>, lzma: Option<u32>, req: bool) -> Vec<Z> {
    let (mut v, mut n, mut z) = (vec![], 0, 0);
    for w in words {
        n += 1;
        if layers.is_some_and(|l| n > l) { break; }
        let l = w.to_ascii_lowercase();
        if l.contains("gzip") { v.push(Z::Gzip) } else if l.contains("deflate") { v.push(Z::Deflate) } else if *w == "lzma" {
            z += 1;
            if lzma.is_some_and(|l| (if req { n } else { z }) > l) { break; }
            v.push(Z::Lzma)
        }
    }
    v
}
fn plain(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 2, 5, 40, 300, 300, 300, 2000, 8191, 8192, 8193, 16384, 16385, 30000]);
    match r.below(3) {
        0 => (0..n).map(|_| r.next() as u8).collect(),
        1 => vec![b'a' + r.below(26) as u8; n],
        _ => { let w: Vec<Vec<u8>> = (0..8).map(|_| r.bytes(b"abcdefgh <>\n", 9)).collect(); let mut v = vec![]; while v.len() < n { let x = r.pick(&w).clone(); v.extend(x); v.push(b' '); } v.truncate(n); v }
    }
}
fn cuts(r: &mut Rng, n: usize) -> Vec<usize> {
    match r.below(5) {
        0 => vec![],
        1 => (1..n.min(3000)).collect(),
        2 => { let a = r.below(n.min(60) + 1); vec![a] }
        3 => { let mut v: Vec<usize> = (0..r.below(8)).map(|_| r.below(n + 1)).collect(); v.sort(); v }
        _ => { let s = 1 + r.below(40); (1..n / s + 1).map(|i| i * s).collect() }
    }
}
fn name(r: &mut Rng, z: Z) -> &'static str {
    match z { Z::Gzip => *r.pick(&["gzip", "x-gzip", "GZIP", "x-GZip"]), Z::Deflate => *r.pick(&["deflate", "x-deflate", "Deflate"]), Z::Lzma => "lzma" }
}
fn main() {
    run("the body is compressed, or limited", |c| {
        c.phase("gzip headers cut anywhere", 20);
        'a: for cut in 0..3 { for req in [false, true] { for gz in 0..16u8 {
            let p = &b"some text of which some text is some text"[cut..];
            if gz & 2 == 0 && cut > 0 { continue; }
            let b = enc(Z::Gzip, p, gz << 1, 6);
            let h = b.len() - enc(Z::Deflate, p, 0, 6).len() + 4;
            for i in 0..h.min(b.len()) { for j in i..h.min(b.len()) {
                if c.done() { break 'a; }
                let k = Case::new(req, "gzip", b.clone());
                whole(c, "a coded body, cut anywhere", &k, &[i, j], p);
            } }
            if c.done() { break 'a; }
            let all: Vec<usize> = (1..b.len()).collect();
            whole(c, "a coded body, cut anywhere", &Case::new(req, "gzip", b.clone()), &all, p);
        } } }
        c.phase("lists of codings", 20);
        const W: [&str; 12] = ["gzip", "deflate", "lzma", "x-gzip", "x-deflate", "GZip", "inflate", "none", "br", "LZMA", "notgzip2", "identity"];
        let mut n = 0usize;
        while !c.done() && n < 60000 {
            n += 1;
            let m = 1 + c.rng.below(4);
            let ws: Vec<&str> = (0..m).map(|_| if c.rng.chance(2, 3) { W[c.rng.below(3)] } else { *c.rng.pick(&W) }).collect();
            let sep = *c.rng.pick(&[", ", ",", " ", ",,", " , "]);
            let ce = ws.join(sep);
            // a single known coding is not a list
            if m == 1 && ["gzip", "x-gzip", "deflate", "x-deflate", "lzma", "inflate", "none"].iter().any(|x| x.eq_ignore_ascii_case(&ce)) { continue; }
            let req = c.rng.chance(1, 2);
            let (l, z) = (*c.rng.pick(&[None, Some(0), Some(1), Some(2), Some(3)]), *c.rng.pick(&[None, Some(0), Some(1), Some(2)]));
            let on = c.rng.chance(9, 10);
            let p: Vec<u8> = (0..c.rng.below(60)).map(|i| b'a' + (i % 7) as u8).collect();
            let mut b = p.clone();
            let zs = if on { used(&ws, l, z, req) } else { vec![] };
            if zs.len() > 3 { continue; }
            for x in zs { b = enc(x, &b, 0, 6); }
            if b.is_empty() { continue; }
            let mut k = Case::new(req, &ce, b);
            k.layers = l; k.lzma = z; k.on = on;
            let q = cuts(&mut c.rng, k.body.len());
            whole(c, "the decoders a list of codings gets", &k, &q, &p);
        }
        c.phase("one coding under a limit of layers", 5);
        'b: for req in [false, true] { for (z, nm) in [(Z::Gzip, "gzip"), (Z::Gzip, "X-GZIP"), (Z::Gzip, "gz\0ip"), (Z::Deflate, "deflate"), (Z::Deflate, "x-deflate"), (Z::Lzma, "lzma"), (Z::Lzma, "LZMA")] { for l in [None, Some(0), Some(1)] { for on in [true, false] { for ch in [0, 1, 7] {
            if c.done() { break 'b; }
            let p = b"some text of which some text is some text";
            let mut k = Case::new(req, nm, enc(z, p, 0, 6));
            if nm.contains('\0') { continue; }
            k.layers = l; k.lzma = l; k.on = on; k.chunked = ch;
            if on { whole(c, "a single coding", &k, &[], p) } else { let w = k.body.clone(); whole(c, "a single coding", &k, &[], &w) }
        } } } } }
        c.phase("data that is not coded", 15);
        n = 0;
        while !c.done() && n < 40000 {
            n += 1;
            let req = c.rng.chance(1, 2);
            let len = *c.rng.pick(&[20usize, 21, 40, 300, 9000, 20000]);
            let mut b: Vec<u8> = (0..len).map(|_| c.rng.next() as u8).collect();
            // no gzip magic, no deflate block type, no zlib method; no LZMA properties byte
            b[0] = *c.rng.pick(&[0xe7u8, 0xef, 0xf6, 0xff, 0xee, 0xf7]);
            let ce = *c.rng.pick(&["gzip", "deflate", "lzma", "gzip, deflate", "deflate gzip", "gzip,gzip,gzip", "lzma, gzip", "gzip, lzma"]);
            let mut k = Case::new(req, ce, b.clone());
            k.limit = *c.rng.pick(&[u64::MAX, 1 << 20]);
            let f = if c.rng.chance(1, 3) { 20 } else { c.rng.below(len - 19) + 20 };
            let mut q: Vec<usize> = vec![f];
            if c.rng.chance(1, 3) { q.extend(f + 1..len.min(f + 500)); } else { q.extend((0..3).map(|_| f + c.rng.below(len + 1 - f))); q.sort(); }
            whole(c, "uncoded data passes through", &k, &q, &b);
        }
        n = 0;
        while !c.done() && n < 300 {
            n += 1;
            let p = plain(&mut c.rng);
            let mut k = Case::new(c.rng.chance(1, 2), "lzma", enc(Z::Lzma, &p, 0, 6));
            k.mem = 0;
            let w = k.body.clone();
            let q = cuts(&mut c.rng, w.len());
            whole(c, "LZMA switched off: its data passes through", &k, &q, &w);
        }
        {
            let p = vec![b'x'; 8193];
            whole(c, "an LZMA body of more than one buffer", &Case::new(false, "lzma", enc(Z::Lzma, &p, 0, 6)), &[], &p);
        }
        c.phase("bombs", 15);
        n = 0;
        while !c.done() && n < 6000 {
            n += 1;
            let len = *c.rng.pick(&[9000usize, 40000, 100000, 300000]);
            let p: Vec<u8> = if c.rng.chance(1, 2) { vec![b'x'; len] } else { let m = 1 + c.rng.below(40); (0..len).map(|i| (i / 1000 % m) as u8).collect() };
            let z = *c.rng.pick(&[Z::Gzip, Z::Deflate, Z::Lzma]);
            let p = if z == Z::Lzma { p[..8192].to_vec() } else { p };
            let mut b = enc(z, &p, 0, 9);
            let mut ce = name(&mut c.rng, z).to_string();
            if c.rng.chance(1, 3) { let y = *c.rng.pick(&[Z::Gzip, Z::Deflate]); b = enc(y, &b, 0, 9); ce += ", "; ce += name(&mut c.rng, y); }
            let mut k = Case::new(c.rng.chance(1, 2), &ce, b);
            k.limit = *c.rng.pick(&[0u64, 1, 8191, 8192, 8193, 20000, 99999, 100000, 300000]);
            k.ratio = *c.rng.pick(&[0u64, 1, 2, 10, 100, 1000, 2048, 1 << 62, u64::MAX]);
            let q = cuts(&mut c.rng, k.body.len());
            limited(c, &k, &q, &p);
        }
        c.phase("random bodies", 25);
        while !c.done() {
            let p = plain(&mut c.rng);
            let m = 1 + c.rng.below(3);
            let (mut b, mut ce) = (p.clone(), String::new());
            for i in 0..m {
                let z = if i == 0 && m > 1 { *c.rng.pick(&[Z::Gzip, Z::Deflate, Z::Lzma]) } else { *c.rng.pick(&[Z::Gzip, Z::Deflate, Z::Gzip, Z::Deflate, Z::Lzma]) };
                let z = if b.len() > 8192 && z == Z::Lzma { Z::Gzip } else { z }; // a known finding
                let (gz, lv) = ((c.rng.below(32) & 30) as u8, *c.rng.pick(&[0, 1, 6, 9]));
                b = enc(z, &b, gz, lv);
                if i > 0 { ce += ", "; }
                ce += name(&mut c.rng, z);
            }
            let mut k = Case::new(c.rng.chance(1, 2), &ce, b);
            let wire = k.body.len();
            if c.rng.chance(1, 3) { k.chunked = 1 + c.rng.below(wire + 20); }
            let q = cuts(&mut c.rng, wire);
            whole(c, "a coded body, cut anywhere", &k, &q, &p);
        }
    });
}
