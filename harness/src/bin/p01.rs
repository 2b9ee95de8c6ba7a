//! P01: UTF-8 in paths.
use harness::refs::*;
use harness::*;
use htp::bstr::Bstr;
use htp::config::{Config, DecoderConfig, HtpUnwanted};
use htp::uri::Uri;
use htp::util::HtpFlags;

const UTF: u64 = HtpFlags::PATH_UTF8_INVALID | HtpFlags::PATH_UTF8_VALID | HtpFlags::PATH_UTF8_OVERLONG | HtpFlags::PATH_HALF_FULL_RANGE;
fn want_flags(f: u64) -> u64 {
    (if f & INVALID != 0 { HtpFlags::PATH_UTF8_INVALID } else { 0 })
        | (if f & OVERLONG != 0 { HtpFlags::PATH_UTF8_OVERLONG } else { 0 })
        | (if f & HALFFULL != 0 { HtpFlags::PATH_HALF_FULL_RANGE } else { 0 })
        | (if f & VALID != 0 { HtpFlags::PATH_UTF8_VALID } else { 0 })
}
fn cfgs() -> Vec<DecoderConfig> {
    let mut v = vec![];
    for conv in [true, false] {
        for unw in [HtpUnwanted::IGNORE, HtpUnwanted::CODE_400, HtpUnwanted::CODE_404] {
            for rep in [b'?', b'_'] {
                let mut c = DecoderConfig::default();
                c.utf8_convert_bestfit = conv;
                c.utf8_invalid_unwanted = unw;
                c.bestfit_map.replacement_byte = rep;
                v.push(c);
            }
        }
    }
    v
}
/// s has no '%'; the other path steps then leave it alone except for dot segments
fn one(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8], f0: u64, st0: HtpUnwanted) {
    let nt = s.iter().any(|b| *b >= 0x80);
    let key = [s, &[cfg.utf8_convert_bestfit as u8, cfg.bestfit_map.replacement_byte]].concat();
    c.check("utf-8 path", &key, nt, &|| format!("{} convert={} replacement={:?} unwanted={:?} flags before={:#x} status before={:?}", esc(s), cfg.utf8_convert_bestfit, cfg.bestfit_map.replacement_byte as char, cfg.utf8_invalid_unwanted, f0, st0), || {
        let mut u = Uri::with_config(*cfg);
        u.path = Some(Bstr::from(s));
        let (mut f, mut st) = (f0, st0);
        let got = u.normalized_path(&mut f, &mut st).ok_or("no path")?;
        let (w, wf) = utf8(s, cfg);
        let want = normalize(if cfg.utf8_convert_bestfit { &w } else { s });
        if got.as_slice() != &want[..] { return Err(format!("path {}, the contract says {}", esc(got.as_slice()), esc(&want))); }
        if f & UTF != (f0 & UTF) | want_flags(wf) { return Err(format!("flags {:#x}, the contract says {:#x}", f & UTF, (f0 & UTF) | want_flags(wf))); }
        if f & f0 != f0 { return Err(format!("flags {:#x} lost one of {:#x}", f, f0)); }
        if f & HtpFlags::PATH_UTF8_INVALID != 0 && cfg.utf8_invalid_unwanted != HtpUnwanted::IGNORE && st != cfg.utf8_invalid_unwanted {
            return Err(format!("expected status {:?}", st));
        }
        if f & HtpFlags::PATH_UTF8_INVALID == 0 && st0 == HtpUnwanted::IGNORE && st != HtpUnwanted::IGNORE { return Err(format!("expected status {:?} without invalid UTF-8", st)); }
        Ok(())
    });
}
fn table(c: &mut Ctx) {
    // every code point of every length, best-fit entry by entry
    let cfg = cfgs()[0];
    for cp in 0u32..0x110000 {
        if c.done() { return; }
        let mut v: Vec<Vec<u8>> = vec![];
        if cp < 0x800 { v.push(vec![0xc0 | (cp >> 6) as u8, 0x80 | (cp & 63) as u8]); }
        if cp < 0x10000 && !(0xd800..0xe000).contains(&cp) { v.push(vec![0xe0 | (cp >> 12) as u8, 0x80 | (cp >> 6 & 63) as u8, 0x80 | (cp & 63) as u8]); }
        if cp > 0x1ffff && !c.thorough && cp & 0x3f != 7 { continue; }
        v.push(vec![0xf0 | (cp >> 18) as u8, 0x80 | (cp >> 12 & 63) as u8, 0x80 | (cp >> 6 & 63) as u8, 0x80 | (cp & 63) as u8]);
        for s in v {
            // surrounded, so that a '/' or '.' it decodes to is not a segment of its own
            let mut t = b"x".to_vec();
            t.extend_from_slice(&s);
            t.push(b'y');
            one(c, &cfg, &t, 0, HtpUnwanted::IGNORE);
        }
    }
}
fn end_to_end(c: &mut Ctx, s: &[u8]) {
    if s.iter().any(|b| b"\0\r\n \t\x0b\x0c%?#;:".contains(b)) { return; }
    let mut r = b"GET /".to_vec();
    r.extend_from_slice(s);
    r.extend_from_slice(b" HTTP/1.1\r\nHost: a\r\n\r\n");
    c.check("utf-8 flags of a request", s, s.iter().any(|b| *b >= 0x80), &|| esc(&r), || {
        let mut cfg = Config::default();
        cfg.set_utf8_convert_bestfit(true);
        let dc = cfg.decoder_cfg;
        let mut d = Driver::new(cfg);
        d.req(&r);
        let t = d.tx(0).ok_or("no transaction")?;
        let (w, wf) = utf8(&[b"/", s].concat(), &dc);
        let got = t.flags & UTF;
        if got != want_flags(wf) { return Err(format!("flags {:#x}, the contract says {:#x}", got, want_flags(wf))); }
        let want = normalize(&w);
        let np = t.parsed_uri.as_ref().ok_or("no uri")?.path.as_ref().ok_or("no path")?;
        Ctx::eq(esc(np.as_slice()), esc(&want))
    });
}
fn main() {
    run("the path holds a byte >= 0x80; distinct = distinct (path, convert, replacement)", |c| {
        let cfgs = cfgs();
        c.phase("every code point in every encoding length", 40);
        table(c);
        c.phase("all strings up to 4 over the class representatives", 25);
        let alpha = [b'a', b'/', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff];
        let mut n = 0usize;
        all_strings(&alpha, if c.thorough { 5 } else { 4 }, &mut |s| { n += 1; one(c, &cfgs[n % cfgs.len()], s, 0, HtpUnwanted::IGNORE); !c.done() });
        c.phase("all single and two byte strings", 10);
        for a in 0..=255u8 { for b in 0..=255u8 {
            if a == b'%' || b == b'%' { continue; }
            one(c, &cfgs[0], &[a, b], 0, HtpUnwanted::IGNORE);
            one(c, &cfgs[2], &[0xe0, a, b], 0, HtpUnwanted::IGNORE);
            one(c, &cfgs[2], &[0xed, a, b], 0, HtpUnwanted::IGNORE);
            one(c, &cfgs[2], &[0xf4, a, b, 0x80], 0, HtpUnwanted::IGNORE);
            one(c, &cfgs[2], &[0xf0, a, b, 0x80], 0, HtpUnwanted::IGNORE);
        } }
        c.phase("random strings", 100);
        let pieces: Vec<&[u8]> = vec![b"a", b"/", b".", b"..", b"\xc0\xaf", b"\xe0\x80\xaf", b"\xf0\x80\x80\xaf", b"\xef\xbc\x8f", b"\xef\xbf\xaf", b"\xef\xbf\xb0", b"\xef\xbb\xbf", b"\xe2\x82\xac", b"\xf4\x8f\xbf\xbf", b"\xf4\x90", b"\xed\xa0\x80", b"\xed\x9f\xbf", b"\xc2", b"\xe2\x82", b"\xf0\x9f\x98", b"\x80", b"\xff", b"\xc3\xa9", b"\xc4\x80"];
        while !c.done() {
            let mut r = c.rng.clone();
            let mut s = r.pieces(&pieces, 9);
            s.retain(|b| *b != b'%');
            let cfg = *r.pick(&cfgs);
            let f0 = if r.chance(1, 4) { r.next() } else { 0 };
            let st0 = *r.pick(&[HtpUnwanted::IGNORE, HtpUnwanted::IGNORE, HtpUnwanted::CODE_400]);
            c.rng = r;
            one(c, &cfg, &s, f0, st0);
            if s.len() % 3 == 0 { end_to_end(c, &s); }
        }
    });
}
