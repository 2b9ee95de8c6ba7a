//! P02: URL decoding of parameters and URI parts.
use harness::refs::*;
use harness::*;
use htp::bstr::Bstr;
use htp::config::{Config, DecoderConfig, HtpUnwanted};
use htp::uri::Uri;
use htp::urlencoded::*;

fn one(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8]) {
    let nt = s.iter().any(|b| b"%+\0".contains(b));
    let show_in = || format!("{} under {}", esc(s), show(cfg));
    let want = url_decode(s, cfg);
    c.check("decode_uri_with_flags", s, nt, &show_in, || {
        let before = 0x40u64;
        let mut f = before;
        let got = decode_uri_with_flags(cfg, &mut f, s).map_err(|_| "error")?;
        Ctx::eq((esc(got.as_slice()), f), (esc(&want.out), before | path_of_urlen(want.flags)))
    });
    c.check("decode_uri_inplace", s, nt, &show_in, || {
        let mut b = Bstr::from(s);
        decode_uri_inplace(cfg, &mut b).map_err(|_| "error")?;
        Ctx::eq(esc(b.as_slice()), esc(&want.out))
    });
}
fn parts(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8]) {
    let want = url_decode(s, cfg);
    c.check("decoded parts of a URI", s, true, &|| format!("{} under {}", esc(s), show(cfg)), || {
        let mut u = Uri::with_config(cfg.clone());
        u.username = Some(Bstr::from(s));
        u.password = Some(Bstr::from(s));
        u.fragment = Some(Bstr::from(s));
        u.hostname = Some(Bstr::from(s));
        let pf = path_of_urlen(want.flags);
        for (n, f) in [("username", 0), ("password", 1), ("fragment", 2), ("hostname", 3)] {
            let mut fl = 0;
            let r = match f { 0 => u.normalized_username(&mut fl), 1 => u.normalized_password(&mut fl), 2 => u.normalized_fragment(&mut fl), _ => u.normalized_hostname(&mut fl) };
            let mut w = want.out.clone();
            if f == 3 { w.make_ascii_lowercase(); while w.last() == Some(&b'.') { w.pop(); } }
            Ctx::eq((n, r.map(|r| esc(r.as_slice())), fl), (n, Some(esc(&w)), pf))?;
        }
        Ok(())
    });
}
fn params(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8]) {
    if s.is_empty() || s.iter().any(|b| *b == b'&' || *b == b'=') { return; }
    let want = url_decode(s, cfg);
    c.check("a parameter value", s, true, &|| format!("{} under {}", esc(s), show(cfg)), || {
        let mut p = Parser::new(cfg.clone());
        let mut d = b"n=".to_vec();
        d.extend_from_slice(s);
        p.parse_complete(&d);
        let got = p.params.get_nocase("n").ok_or("no parameter")?;
        Ctx::eq((esc(got.1.as_slice()), p.flags, p.response_status_expected_number), (esc(&want.out), want.flags, want.status))
    });
}
thread_local! { static PARAMS: std::cell::RefCell<Vec<(String, String)>> = Default::default(); }
fn grab(p: &mut htp::transaction::Param) -> Result<(), htp::HtpStatus> {
    PARAMS.with(|v| v.borrow_mut().push((esc(p.name.as_slice()), esc(p.value.as_slice()))));
    Ok(())
}
fn end_to_end(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8]) {
    if s.is_empty() || s.iter().any(|b| b"&= \t\x0b\x0c\r\n\0#".contains(b)) { return; }
    let mut r = b"GET /?n=".to_vec();
    r.extend_from_slice(s);
    r.extend_from_slice(b" HTTP/1.1\r\nHost: a\r\n\r\n");
    let want = url_decode(s, cfg);
    c.check("a query parameter of a request", s, true, &|| format!("{} under {}", esc(&r), show(cfg)), || {
        let mut k = Config::default();
        k.decoder_cfg = cfg.clone();
        k.set_parse_urlencoded(true);
        k.parameter_processor = Some(grab);
        PARAMS.with(|p| p.borrow_mut().clear());
        let mut d = Driver::new(k);
        d.req(&r);
        let got = PARAMS.with(|p| std::mem::take(&mut *p.borrow_mut()));
        Ctx::eq(got, vec![(esc(b"n"), esc(&want.out))])
    });
}
fn main() {
    run("the string holds %, + or NUL", |c| {
        let mut r = c.rng.clone();
        let mut i = 0;
        c.phase("all strings over a small alphabet up to length 6, 40 configurations", 40);
        let mut cfgs: Vec<DecoderConfig> = (0..40).map(|_| decoder_cfg(&mut r)).collect();
        cfgs[0] = DecoderConfig::default();
        all_strings(b"%u0f2g\0+", if c.thorough { 7 } else { 6 }, &mut |s| { i += 1; one(c, &cfgs[i % 40], s); !c.done() });
        c.phase("random", 100);
        let mut x2s = 0u32;
        while !c.done() {
            let cfg = decoder_cfg(&mut r);
            for _ in 0..8 {
                let s = r.pieces(ESC_PIECES, 14);
                one(c, &cfg, &s);
                parts(c, &cfg, &s);
                params(c, &cfg, &s);
                // every pair of bytes behind a '%'
                let t = [b'%', (x2s >> 8) as u8, x2s as u8];
                x2s = x2s.wrapping_add(1);
                one(c, &cfg, &t);
            }
            let s = r.pieces(ESC_PIECES, 8);
            end_to_end(c, &cfg, &s);
        }
        let _ = HtpUnwanted::IGNORE;
    });
}
