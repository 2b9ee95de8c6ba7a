//! P24: the parts of the request and of the response line.
use harness::refs::*;
use harness::*;
use htp::config::{Config, HtpServerPersonality as S, HtpUnwanted};
use htp::transaction::{HtpResponseNumber as N, Transaction};

const PERS: [S; 4] = [S::MINIMAL, S::APACHE_2, S::IIS_5_0, S::GENERIC];
fn o(b: &Option<htp::bstr::Bstr>) -> Option<Vec<u8>> { b.as_ref().map(|x| x.as_slice().to_vec()) }
fn rq(t: &Transaction, kept: bool) -> RqLine {
    RqLine { line: o(&t.request_line).unwrap_or_default(), method: o(&t.request_method).unwrap_or_default(), number: format!("{:?}", t.request_method_number), uri: o(&t.request_uri), protocol: o(&t.request_protocol), version: t.request_protocol_number, old: t.is_protocol_0_9, kept }
}
fn rs(t: &Transaction) -> Result<RsLine, String> {
    Ok(RsLine { line: o(&t.response_line).unwrap_or_default(), protocol: o(&t.response_protocol), version: t.response_protocol_number, status: o(&t.response_status), number: match t.response_status_number { N::VALID(n) => Some(n), N::INVALID => None, x => return Err(format!("status number {:?}", x)) }, message: o(&t.response_message) })
}
fn cfg(pers: usize, unwanted: HtpUnwanted, last: bool) -> Config {
    let mut c = Config::default();
    c.server_personality = PERS[pers];
    c.set_requestline_leading_whitespace_unwanted(unwanted);
    c.set_allow_space_uri(last);
    c
}
/// the line parser by itself (hybrid use)
fn direct(c: &mut Ctx, l: &[u8], pers: usize, u: HtpUnwanted, last: bool) {
    let w = rq_line(l, PERS[pers] == S::APACHE_2, u != HtpUnwanted::IGNORE, last);
    let key = [l, &[pers as u8, u as u8, last as u8]].concat();
    c.check("request line", &key, w.uri.is_some(), &|| format!("{} {:?} leading {:?} spaces {}", esc(l), PERS[pers], u, last), || {
        let mut d = Driver::new(cfg(pers, u, last));
        d.p.request_mut().ok_or("no transaction")?;
        d.p.parse_request_line(l).map_err(|e| format!("{:?}", e))?;
        let t = d.tx(0).ok_or("no transaction")?;
        Ctx::eq(t.response_status_expected_number, if w.kept { u } else { HtpUnwanted::IGNORE })?;
        Ctx::eq(rq(t, w.kept), w.clone())
    });
}
fn direct_rs(c: &mut Ctx, l: &[u8]) {
    let w = rs_line(l);
    c.check("response line", l, w.status.is_some(), &|| esc(l), || {
        let mut d = Driver::new(Config::default());
        d.p.request_mut().ok_or("no transaction")?;
        d.p.response_mut().ok_or("no transaction")?;
        d.p.parse_response_line(l).map_err(|e| format!("{:?}", e))?;
        Ctx::eq(rs(d.tx(0).ok_or("no transaction")?)?, w.clone())
    });
}
/// the line as the first of a request, in pieces
fn whole(c: &mut Ctx, l: &[u8], pers: usize, u: HtpUnwanted, last: bool, cuts: &[usize]) {
    if l.contains(&10) || chomped(l).is_empty() || (PERS[pers] == S::IIS_5_0 && l.iter().all(|c| white(*c))) { return; }
    let w = rq_line(chomped(l), PERS[pers] == S::APACHE_2, u != HtpUnwanted::IGNORE, last);
    let key = [l, &[pers as u8, u as u8, last as u8]].concat();
    c.check("request line of a request", &key, w.uri.is_some(), &|| format!("{} cut at {:?} {:?} leading {:?} spaces {}", esc(l), cuts, PERS[pers], u, last), || {
        let mut d = Driver::new(cfg(pers, u, last));
        d.req_chunks(&[l, b"\r\n"].concat(), cuts);
        Ctx::eq(rq(d.tx(0).ok_or("no transaction")?, w.kept), w.clone())
    });
}
/// the line as the first of a response (possibly after a 100 response), in pieces
fn whole_rs(c: &mut Ctx, l: &[u8], cont: bool, cuts: &[usize]) {
    if l.contains(&10) || l.contains(&13) { return; }
    let line = [l, b"\r\n"].concat();
    let w = rs_line(&line);
    let p = w.protocol.clone().unwrap_or_default();
    if p.len() < 4 || !p[..4].eq_ignore_ascii_case(b"http") { return; }
    c.check("response line of a response", &[l, &[cont as u8]].concat(), w.status.is_some(), &|| format!("{}{} cut at {:?}", if cont { "100 first, then " } else { "" }, esc(l), cuts), || {
        let mut d = Driver::new(Config::default());
        d.req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n");
        if cont { d.res(b"HTTP/1.1 100 Continue please\r\n\r\n"); }
        d.res_chunks(&line, cuts);
        d.res(b"X: y\r\n");
        let mut g = rs(d.tx(0).ok_or("no transaction")?)?;
        g.line = chomped(&g.line).to_vec();
        let mut w = w.clone();
        w.line = chomped(&w.line).to_vec();
        Ctx::eq(g, w)
    });
}
fn main() {
    run("the line has a URI or a status", |c| {
        let us = [HtpUnwanted::IGNORE, HtpUnwanted::CODE_400];
        c.phase("every known method, and names next to it", 5);
        for m in ["HEAD", "GET", "PUT", "POST", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK", "VERSION-CONTROL", "CHECKOUT", "UNCHECKOUT", "CHECKIN", "UPDATE", "LABEL", "REPORT", "MKWORKSPACE", "MKACTIVITY", "BASELINE-CONTROL", "MERGE", "INVALID", "UNKNOWN", "ERROR", "VERSION_CONTROL", "BASELINE_CONTROL", ""] {
            for (a, b) in [("", ""), (" ", ""), ("", "S"), ("X", ""), ("\0", ""), ("", "\0")] { for v in [m.to_string(), m.to_lowercase(), m.chars().skip(1).collect()] { for u in us { for p in 0..4 {
                let l = format!("{}{}{} / HTTP/1.1", a, v, b);
                direct(c, l.as_bytes(), p, u, false);
                whole(c, l.as_bytes(), p, u, false, &[]);
            } } } }
        }
        c.phase("every byte in every place of a line", 10);
        for b in 0..=255u8 { for k in 0..=14 { let mut l = b"GET /a HTTP/1.1".to_vec(); l.insert(k, b); for p in 0..2 { for last in [false, true] { direct(c, &l, p, us[k & 1], last); } }
            let mut l = b"HTTP/1.1 200 OK".to_vec(); l.insert(k, b); direct_rs(c, &l); whole_rs(c, &l, k & 1 == 0, &[]); } }
        c.phase("request lines over G SPACE TAB / NUL", 25);
        let n = if c.thorough { 8 } else { 6 };
        all_strings(b"G \t/\0", n, &mut |s| { for p in 0..2 { for u in us { for last in [false, true] { direct(c, s, p, u, last); } } } !c.done() });
        c.phase("response lines over H SPACE TAB VT 2 CR", 25);
        all_strings(b"H \t\x0b2\r", n, &mut |s| { direct_rs(c, s); !c.done() });
        c.phase("random pieces, whole messages, cut anywhere", 100);
        let pieces: Vec<&[u8]> = vec![b"GET", b"POST", b"G", b"/", b"/a b", b" ", b"  ", b"\t", b"\x0b", b"\x0c", b"\r", b"\n", b"\0", b"HTTP/1.1", b"HTTP/1.0", b"HTTP/0.9", b"http/1.1", b"HTTP/ 1.1", b"HTTP/", b"x", b"http://h/ p", b"\x85", b"\xa0"];
        let rpieces: Vec<&[u8]> = vec![b"HTTP/1.1", b"HTTP/1.0", b"http/1.1", b"HTTP", b" ", b"  ", b"\t", b"\x0b", b"\x0c", b"\0", b"200", b"404", b"100", b"099", b"1000", b"0200", b"2 00", b"OK", b"Not Found", b"x", b"\x85"];
        while !c.done() {
            let mut r = c.rng.clone();
            let (p, u, last) = (r.below(4), us[r.below(2)], r.chance(1, 2));
            let mut l = if r.chance(1, 2) { b"GET ".to_vec() } else { vec![] };
            l.extend(r.pieces(&pieces, 7));
            let cuts = gen::cuts(&mut r, l.len() + 2);
            let mut m = match r.below(4) { 0 => b" \0".to_vec(), 1 => b"HTTP/1.1 ".to_vec(), 2 => b"HTTP/1.1 200".to_vec(), _ => vec![] };
            m.extend(r.pieces(&rpieces, 6));
            let mcuts = gen::cuts(&mut r, m.len() + 2);
            let cont = r.chance(1, 3);
            c.rng = r;
            direct(c, &l, p, u, last);
            whole(c, &l, p, u, last, &cuts);
            direct_rs(c, &m);
            whole_rs(c, &m, cont, &mcuts);
        }
    });
}
