//! P03: URL decoding of paths.
use harness::refs::*;
use harness::*;
use htp::bstr::Bstr;
use htp::config::{Config, DecoderConfig, HtpUnwanted};
use htp::urlencoded::*;

fn one(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8]) {
    let nt = s.iter().any(|b| b"%\\/\0".contains(b));
    c.check("path_decode_uri_inplace", s, nt, &|| format!("{} under {}", esc(s), show(cfg)), || {
        let want = path_decode(s, cfg);
        let before = 0x40u64;
        for st0 in [HtpUnwanted::IGNORE, HtpUnwanted::CODE_404] {
            let (mut f, mut st) = (before, st0);
            let mut b = Bstr::from(s);
            path_decode_uri_inplace(cfg, &mut f, &mut st, &mut b);
            let wst = if want.status != HtpUnwanted::IGNORE { want.status } else { st0 };
            Ctx::eq((esc(b.as_slice()), f, st), (esc(&want.out), before | want.flags, wst))?;
        }
        Ok(())
    });
}
fn end_to_end(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8]) {
    if s.first() != Some(&b'/') || s.get(1) == Some(&b'/') || s.iter().any(|b| b" \t\x0b\x0c\r\n\0#?;".contains(b)) { return; }
    let want = path_decode(s, cfg);
    let (u8out, ufl) = utf8(&want.out, cfg);
    let p = if cfg.utf8_convert_bestfit { u8out } else { want.out.clone() };
    let p = normalize(&p);
    let mut status = want.status;
    if ufl & INVALID != 0 && cfg.utf8_invalid_unwanted != HtpUnwanted::IGNORE { status = cfg.utf8_invalid_unwanted; }
    let mut r = b"GET ".to_vec();
    r.extend_from_slice(s);
    r.extend_from_slice(b" HTTP/1.1\r\nHost: a\r\n\r\n");
    c.check("the path of a request", s, true, &|| format!("{} under {}", esc(&r), show(cfg)), || {
        let mut k = Config::default();
        k.decoder_cfg = cfg.clone();
        let mut d = Driver::new(k);
        d.req(&r);
        let t = d.tx(0).ok_or("no transaction")?;
        let got = t.parsed_uri.as_ref().ok_or("no uri")?.path.as_ref().ok_or("no path")?;
        use htp::util::HtpFlags as F;
        let mask = F::PATH_ENCODED_NUL | F::PATH_INVALID_ENCODING | F::PATH_ENCODED_SEPARATOR | F::PATH_OVERLONG_U;
        Ctx::eq((esc(got.as_slice()), t.flags & mask, t.response_status_expected_number), (esc(&p), want.flags & mask, status))
    });
}
fn main() {
    run("the path holds %, a separator or NUL", |c| {
        let mut r = c.rng.clone();
        let mut i = 0;
        c.phase("all strings over a small alphabet up to length 6, 40 configurations", 40);
        let mut cfgs: Vec<DecoderConfig> = (0..40).map(|_| decoder_cfg(&mut r)).collect();
        cfgs[0] = DecoderConfig::default();
        all_strings(b"%u0fF2g/\\\0", if c.thorough { 7 } else { 6 }, &mut |s| { i += 1; one(c, &cfgs[i % 40], s); !c.done() });
        c.phase("random", 100);
        let mut x2s = 0u32;
        while !c.done() {
            let cfg = decoder_cfg(&mut r);
            for _ in 0..8 {
                let s = r.pieces(ESC_PIECES, 14);
                one(c, &cfg, &s);
                let t = [b'%', (x2s >> 8) as u8, x2s as u8];
                x2s = x2s.wrapping_add(1);
                one(c, &cfg, &t);
            }
            let mut s = vec![b'/'];
            s.extend(r.pieces(ESC_PIECES, 8));
            end_to_end(c, &cfg, &s);
        }
    });
}
