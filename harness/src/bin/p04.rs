//! P04: dot segments.
use harness::refs::*;
use harness::*;
use htp::bstr::Bstr;
use htp::config::{Config, DecoderConfig, HtpUnwanted};
use htp::uri::Uri;

fn norm(s: &[u8]) -> Option<Vec<u8>> {
    let mut u = Uri::with_config(DecoderConfig::default());
    u.path = Some(Bstr::from(s));
    let (mut f, mut st) = (0u64, HtpUnwanted::IGNORE);
    u.normalized_path(&mut f, &mut st).map(|p| p.as_slice().to_vec())
}
fn one(c: &mut Ctx, s: &[u8]) {
    let nt = s.contains(&b'.');
    c.check("normalized path", s, nt, &|| esc(s), || {
        let got = norm(s).ok_or("no path")?;
        let want = normalize(s);
        if got != want { return Err(format!("{}, the contract says {}", esc(&got), esc(&want))); }
        if got.split(|c| *c == b'/').any(|x| x == b"." || x == b"..") { return Err(format!("{} holds a dot segment", esc(&got))); }
        let again = norm(&got).ok_or("no path")?;
        if again != got { return Err(format!("normalizing {} again gives {}", esc(&got), esc(&again))); }
        if s.first() == Some(&b'/') && !got.is_empty() && got[0] != b'/' { return Err(format!("{} left the root", esc(&got))); }
        Ok(())
    });
}
fn end_to_end(c: &mut Ctx, s: &[u8]) {
    if s.first() != Some(&b'/') || s.get(1) == Some(&b'/') || s.iter().any(|b| !b"/.ab_~-".contains(b)) { return; }
    let mut r = b"GET ".to_vec();
    r.extend_from_slice(s);
    r.extend_from_slice(b" HTTP/1.1\r\nHost: a\r\n\r\n");
    c.check("normalized path of a request", s, true, &|| esc(&r), || {
        let mut d = Driver::new(Config::default());
        d.req(&r);
        let t = d.tx(0).ok_or("no transaction")?;
        let p = t.parsed_uri.as_ref().ok_or("no uri")?.path.as_ref().ok_or("no path")?;
        Ctx::eq(esc(p.as_slice()), esc(&normalize(s)))
    });
}
fn main() {
    run("the path holds a '.'", |c| {
        c.phase("all strings over / . a up to length 10", 45);
        all_strings(b"/.a", if c.thorough { 13 } else { 10 }, &mut |s| { one(c, s); !c.done() });
        c.phase("all requests over / . a up to length 7", 15);
        all_strings(b"/.a", 7, &mut |s| { end_to_end(c, s); !c.done() });
        c.phase("random segments", 100);
        let pieces: Vec<&[u8]> = vec![b"/", b".", b"..", b"...", b"/..", b"/.", b"/a", b"ab", b"/../", b"//", b".a", b"a.", b"/\\..", b"..\\", b"\0", b"\xff"];
        while !c.done() {
            let mut r = c.rng.clone();
            let mut s = r.pieces(&pieces, 30);
            s.retain(|b| *b != b'%');
            c.rng = r;
            one(c, &s);
            end_to_end(c, &s);
        }
    });
}
