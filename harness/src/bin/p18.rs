//! P18: URL-encoded parameters.
use harness::refs::*;
use harness::*;
use htp::config::{Config, DecoderConfig, HtpUnwanted};
use htp::urlencoded::*;

type Out = (Vec<(String, String)>, u64, HtpUnwanted);
fn want(s: &[u8], cfg: &DecoderConfig, sep: u8, dec: bool) -> Out {
    let (mut v, mut fl, mut st) = (vec![], 0, HtpUnwanted::IGNORE);
    for p in s.split(|c| *c == sep) {
        if p.is_empty() { continue; }
        let k = p.iter().position(|c| *c == b'=').unwrap_or(p.len());
        let parts = [&p[..k], if k < p.len() { &p[k + 1..] } else { &p[k..] }];
        let mut nv = vec![];
        for x in parts {
            if dec {
                let d = url_decode(x, cfg);
                fl |= d.flags;
                if d.status != HtpUnwanted::IGNORE { st = d.status; }
                nv.push(esc(&d.out));
            } else { nv.push(esc(x)); }
        }
        v.push((nv[0].clone(), nv[1].clone()));
    }
    if v.is_empty() && !s.is_empty() { v.push((esc(b""), esc(b""))); }
    (v, fl, st)
}
fn out(p: &Parser) -> Out {
    (p.params.elements.iter().map(|(n, v)| (esc(n.as_slice()), esc(v.as_slice()))).collect(), p.flags, p.response_status_expected_number)
}
fn one(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8], cuts: &[usize], sep: u8, dec: bool) {
    let nt = s.iter().any(|b| *b == sep || *b == b'=');
    let w = want(s, cfg, sep, dec);
    let mk = || { let mut p = Parser::new(cfg.clone()); p.argument_separator = sep; p.decode_url_encoding = dec; p };
    c.check("parameters of data parsed at once", s, nt, &|| format!("{} separator {} under {}", esc(s), sep, show(cfg)), || {
        let mut p = mk();
        p.parse_complete(s);
        Ctx::eq(out(&p), w.clone())
    });
    c.check("parameters of data parsed in pieces", s, nt, &|| format!("{} cut at {:?} separator {} under {}", esc(s), cuts, sep, show(cfg)), || {
        let mut p = mk();
        let mut a = 0;
        for &k in cuts { let k = k.min(s.len()).max(a); p.parse_partial(&s[a..k]); a = k; }
        p.parse_partial(&s[a..]);
        p.finalize();
        Ctx::eq(out(&p), w.clone())
    });
}
thread_local! { static PARAMS: std::cell::RefCell<Vec<(String, String)>> = Default::default(); }
fn grab(p: &mut htp::transaction::Param) -> Result<(), htp::HtpStatus> {
    PARAMS.with(|v| v.borrow_mut().push((esc(p.name.as_slice()), esc(p.value.as_slice()))));
    Ok(())
}
fn end_to_end(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8]) {
    if s.is_empty() || s.iter().any(|b| b" \t\x0b\x0c\r\n\0#".contains(b)) { return; }
    let mut r = b"GET /?".to_vec();
    r.extend_from_slice(s);
    r.extend_from_slice(b" HTTP/1.1\r\nHost: a\r\n\r\n");
    let w = want(s, cfg, b'&', true);
    c.check("query parameters of a request", s, true, &|| format!("{} under {}", esc(&r), show(cfg)), || {
        let mut k = Config::default();
        k.decoder_cfg = cfg.clone();
        k.set_parse_urlencoded(true);
        k.parameter_processor = Some(grab);
        PARAMS.with(|p| p.borrow_mut().clear());
        let mut d = Driver::new(k);
        d.req(&r);
        Ctx::eq(PARAMS.with(|p| std::mem::take(&mut *p.borrow_mut())), w.0.clone())
    });
}
fn main() {
    run("the data holds a separator or '='", |c| {
        let mut r = c.rng.clone();
        let dflt = DecoderConfig::default();
        c.phase("all strings over & = a % up to length 6, all single cuts", 40);
        all_strings(b"&=a%", if c.thorough { 8 } else { 6 }, &mut |s| { for k in 0..=s.len() { one(c, &dflt, s, &[k], b'&', true); } !c.done() });
        c.phase("random", 100);
        let mut pieces: Vec<&[u8]> = ESC_PIECES.to_vec();
        for _ in 0..12 { pieces.extend_from_slice(&[b"&", b"=", b"a=b", b"&&", b"x", b";"]); }
        while !c.done() {
            let cfg = decoder_cfg(&mut r);
            let sep = *r.pick(&[b'&', b'&', b';', b'x', b'=']);
            let dec = r.chance(5, 6);
            let s = r.pieces(&pieces, 20);
            let mut cuts: Vec<usize> = (0..r.below(6)).map(|_| r.below(s.len() + 1)).collect();
            cuts.sort();
            if r.chance(1, 10) { cuts = (0..s.len()).collect(); }
            one(c, &cfg, &s, &cuts, sep, dec);
            end_to_end(c, &cfg, &s);
        }
    });
}
