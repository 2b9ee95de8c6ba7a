//! P26: content types.
use harness::*;
use htp::bstr::Bstr;
use htp::config::Config;
use htp::connection_parser::HtpStreamState;
use htp::transaction::{HtpRequestProgress, HtpResponseProgress};

fn o(b: &Option<Bstr>) -> Option<Vec<u8>> { b.as_ref().map(|x| x.as_slice().to_vec()) }
/// as it is named by a request field
fn rq_type(v: &[u8]) -> Vec<u8> {
    let s = v.iter().position(|c| !b" \t\n\r\x0c".contains(c)).map_or(&v[v.len()..], |k| &v[k..]);
    let n = s.iter().position(|c| b";, ".contains(c)).unwrap_or(s.len());
    s[..n].to_ascii_lowercase()
}
/// as it is named by a response field
fn rs_type(v: &[u8]) -> Vec<u8> {
    let n = v.iter().position(|c| b"; \t\r\n\x0b\x0c".contains(c)).unwrap_or(v.len());
    v[..n].to_ascii_lowercase()
}
fn e(x: &Option<Vec<u8>>) -> Option<String> { x.as_ref().map(|v| esc(v)) }
/// the parser function by itself
fn direct(c: &mut Ctx, v: &[u8]) {
    c.check("parse_content_type", v, !rq_type(v).is_empty(), &|| esc(v), || {
        let got = htp::parsers::parse_content_type(v).map_err(|x| format!("the value makes it fail with {:?}, the contract says {:?}", x, esc(&rq_type(v))))?;
        Ctx::eq(esc(got.as_slice()), esc(&rq_type(v)))
    });
}
/// a request with these fields, and one after it
fn request(c: &mut Ctx, lines: &[Vec<u8>], body: bool, cut: usize) {
    let mut r = if body { b"POST / HTTP/1.1\r\nHost: h\r\nContent-Length: 3\r\n".to_vec() } else { b"GET / HTTP/1.1\r\nHost: h\r\n".to_vec() };
    for l in lines { r.extend(l); r.extend(b"\r\n"); }
    r.extend(b"\r\n");
    if body { r.extend(b"abc"); }
    let mut two = r.clone();
    two.extend(b"GET /2 HTTP/1.1\r\nHost: h\r\n\r\n");
    c.check("the content type of a request", &[&r[..], &[cut as u8]].concat(), lines.len() > 0, &|| format!("{} cut at {}", esc(&two), cut), || {
        let mut d = Driver::new(Config::default());
        let st = d.req_chunks(&two, &[cut.min(two.len())]);
        if st == HtpStreamState::ERROR { return Err("the request stream failed".into()); }
        let t = d.tx(0).ok_or("no transaction")?;
        let want = t.request_headers.get_nocase_nozero("content-type").map(|h| rq_type(h.value.as_slice()));
        Ctx::eq(e(&o(&t.request_content_type)), e(&want))?;
        Ctx::eq(t.request_progress, HtpRequestProgress::COMPLETE)?;
        let t = d.tx(1).ok_or("no second transaction")?;
        Ctx::eq((o(&t.request_content_type), t.request_progress), (None, HtpRequestProgress::COMPLETE))
    });
}
fn response(c: &mut Ctx, lines: &[Vec<u8>], status: usize, method: &str, interim: bool, frame: usize, cut: usize) {
    let mut r = vec![];
    if interim { r.extend(b"HTTP/1.1 100 Continue\r\nContent-Type: interim/x\r\n\r\n"); }
    r.extend(format!("HTTP/1.1 {} X\r\n", status).as_bytes());
    for l in lines { r.extend(l); r.extend(b"\r\n"); }
    r.extend([&b"Content-Length: 2\r\n\r\nab"[..], b"Transfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\n\r\n", b"\r\nab", b"Content-Length: 0\r\n\r\n"][frame]);
    c.check("the content type of a response", &[&r[..], method.as_bytes(), &[cut as u8]].concat(), lines.len() > 0, &|| format!("{} answered by {} cut at {}", method, esc(&r), cut), || {
        let mut d = Driver::new(Config::default());
        d.req(format!("{} / HTTP/1.1\r\nHost: h\r\n\r\n", method).as_bytes());
        d.res_chunks(&r, &[cut.min(r.len())]);
        let t = d.tx(0).ok_or("no transaction")?;
        if t.response_progress < HtpResponseProgress::BODY { return Ok(()); }
        let plain = ["transfer-encoding", "content-length"].iter().all(|n| t.response_headers.get_nocase_nozero(n).is_none());
        let bodiless = method == "HEAD" || ((status < 200 || status == 204 || status == 304) && plain);
        let want = if bodiless { None } else { t.response_headers.get_nocase_nozero("content-type").map(|h| rs_type(h.value.as_slice())) };
        Ctx::eq(e(&o(&t.response_content_type)), e(&want))
    });
}
const VALS: &[&[u8]] = &[b"", b" ", b";", b",", b"text/html", b"Text/HTML; charset=UTF-8", b"a,b", b"multipart/form-data;boundary=X", b"\ttext/plain\t;x", b"a\x0bb", b"\x0ca", b"A/B C", b"\xc9/\xe9", b"a\0b", b"; charset=x", b" ;a", b",text/html", b"APPLICATION/X-WWW-FORM-URLENCODED", b"a\tb", b"a=b"];
const PIECES: &[&[u8]] = &[b"a", b"Z", b"/", b";", b",", b" ", b"\t", b"\x0b", b"\x0c", b"\0", b"=", b"\"", b"text", b"HTML", b"\xff", b"charset", b":", b"-"];
fn main() {
    run("the message has fields", |c| {
        let mut r = c.rng.clone();
        c.phase("all strings over A ; , blank tab up to length 6", 15);
        all_strings(b"A/;, \t\x0b", if c.thorough { 7 } else { 6 }, &mut |s| { direct(c, s); !c.done() });
        c.phase("every byte around a type", 10);
        for b in 0..=255u8 { for v in [vec![b], vec![b'a', b], vec![b, b'a'], vec![b'a', b, b'b']] { direct(c, &v); if b != 10 && b != 13 { let l = [&b"Content-Type: "[..], &v].concat(); request(c, &[l.clone()], b % 2 == 0, 0); response(c, &[l], 200, "GET", false, b as usize % 3, 0); } } }
        c.phase("listed values", 10);
        for v in VALS { for n in [&b"Content-Type:"[..], b"content-type: ", b"CONTENT-TYPE :", b"Content\0-Type: ", b"X-Content-Type: "] { for k in 0..4 {
            let l = [n, v].concat();
            request(c, &[l.clone()], k % 2 == 0, k * 20);
            for s in [200, 204, 304, 404, 199] { response(c, &[l.clone()], s, ["GET", "HEAD", "POST", "PUT"][k], k == 3, k, k * 9); }
        } } }
        c.phase("random", 100);
        while !c.done() {
            let n = r.below(4);
            let mut lines = vec![];
            for _ in 0..n {
                let v = if r.chance(1, 3) { r.pick(VALS).to_vec() } else { r.pieces(PIECES, 8) };
                let name: &[u8] = *r.pick(&[&b"Content-Type: "[..], b"Content-Type:", b"content-TYPE: ", b"Accept: ", b"Content-Type\0: "]);
                lines.push([name, &v].concat());
                if r.chance(1, 8) { lines.push([&b" "[..], &r.pieces(PIECES, 3)].concat()); }
            }
            for l in lines.iter_mut() { l.retain(|c| *c != b'\r' && *c != b'\n'); }
            let (b, cut) = (r.chance(1, 2), r.below(100));
            request(c, &lines, b, cut);
            let (s, m, i, f, cut) = (*r.pick(&[200, 200, 404, 204, 304, 206]), *r.pick(&["GET", "GET", "HEAD", "POST"]), r.chance(1, 3), r.below(4), r.below(100));
            response(c, &lines, s, m, i, f, cut);
            let v = r.pieces(PIECES, 10);
            direct(c, &v);
        }
    });
}
