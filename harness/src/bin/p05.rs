//! P05: URI and authority splitting.
use harness::refs::*;
use harness::*;
use htp::bstr::Bstr;
use htp::config::{Config, DecoderConfig};
use htp::uri::Uri;
use htp::util::HtpFlags as F;

fn o(b: &Option<Bstr>) -> Option<Vec<u8>> { b.as_ref().map(|x| x.as_slice().to_vec()) }
fn of(u: &Uri) -> Split { Split { scheme: o(&u.scheme), user: o(&u.username), pass: o(&u.password), host: o(&u.hostname), port: o(&u.port), path: o(&u.path), query: o(&u.query), frag: o(&u.fragment) } }
fn show(s: &Split) -> String {
    let f = |n: &str, x: &Option<Vec<u8>>| x.as_ref().map(|v| format!(" {}={}", n, esc(v))).unwrap_or_default();
    format!("{}{}{}{}{}{}{}{}", f("scheme", &s.scheme), f("user", &s.user), f("pass", &s.pass), f("host", &s.host), f("port", &s.port), f("path", &s.path), f("query", &s.query), f("fragment", &s.frag))
}
fn same(got: &Split, want: &Split) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("split as{}, the contract says{}", show(got), show(want))) } }
fn nontrivial(s: &[u8]) -> bool { s.iter().filter(|c| b":/@?#[]".contains(c)).count() >= 2 }
fn uri(c: &mut Ctx, s: &[u8]) {
    c.check("components of a URI", s, nontrivial(s), &|| esc(s), || {
        let mut u = Uri::with_config(DecoderConfig::default());
        u.parse_uri(s);
        same(&of(&u), &split_uri(s))?;
        let mut f = 0u64;
        let n = u.normalized_port(&mut f);
        let want = u.port.as_ref().and_then(|p| port_number(p.as_slice()));
        Ctx::eq((n, f & F::HOSTU_INVALID != 0), (want, u.port.is_some() && want.is_none()))
    });
}
fn authority(c: &mut Ctx, s: &[u8]) {
    c.check("authority", s, nontrivial(s), &|| esc(s), || {
        let mut u = Uri::with_config(DecoderConfig::default());
        let mut f = 0u64;
        u.parse_uri_hostport(&Bstr::from(s), &mut f);
        let got = (o(&u.hostname), o(&u.port), u.port_number, f & F::HOSTU_INVALID != 0);
        let want = match hostport(s) {
            None => (None, None, None, false),
            Some((h, n, ok)) => {
                let (rest, _) = hostname(s).unwrap();
                (Some(h.to_ascii_lowercase()), port(rest).map(|x| x.1.to_vec()), n.flatten(), !ok)
            }
        };
        Ctx::eq(got, want)
    });
}
fn host(c: &mut Ctx, s: &[u8]) {
    c.check("host name validity", s, s.contains(&b'.') || s.contains(&b'['), &|| esc(s), || Ctx::eq(htp::util::validate_hostname(s), valid_hostname(s)));
}
/// a whole request with this target
fn request(c: &mut Ctx, s: &[u8], connect: bool) {
    if s.is_empty() || s.iter().any(|b| b" \t\r\n\0\x0b\x0c".contains(b)) { return; }
    let mut r = if connect { b"CONNECT ".to_vec() } else { b"GET ".to_vec() };
    r.extend_from_slice(s);
    r.extend_from_slice(b" HTTP/1.1\r\n\r\n");
    c.check("URI of a request", s, nontrivial(s), &|| esc(&r), || {
        let mut d = Driver::new(Config::default());
        d.req(&r);
        let t = d.tx(0).ok_or("no transaction")?;
        let u = t.parsed_uri_raw.as_ref().ok_or("no uri")?;
        let p = t.parsed_uri.as_ref().ok_or("no uri")?;
        if connect {
            let w = hostport(s);
            let num = w.as_ref().and_then(|x| x.1.flatten());
            Ctx::eq((o(&u.hostname), u.port_number, p.port_number), (w.as_ref().map(|x| x.0.to_ascii_lowercase()), num, num))?;
            if let Some((_, _, false)) = w { if t.flags & F::HOSTU_INVALID == 0 { return Err("an invalid authority is not flagged".into()); } }
            if w.is_some() && o(&p.hostname).map(|h| !valid_hostname(&h)).unwrap_or(false) != (t.flags & F::HOSTU_INVALID != 0) && w.as_ref().unwrap().2 { return Err("HOSTU_INVALID does not follow the authority".into()); }
            return Ok(());
        }
        let w = split_uri(s);
        same(&of(u), &w)?;
        let num = w.port.as_ref().and_then(|p| port_number(p));
        Ctx::eq(p.port_number, num)?;
        let bad = (w.port.is_some() && num.is_none()) || o(&p.hostname).map(|h| !valid_hostname(&h)).unwrap_or(false);
        Ctx::eq(("HOSTU_INVALID", t.flags & F::HOSTU_INVALID != 0), ("HOSTU_INVALID", bad))
    });
}
fn main() {
    run("the string holds at least two delimiters", |c| {
        let n = if c.thorough { 7 } else { 5 };
        c.phase("all strings over a : / @ ? # up to length 5", 30);
        all_strings(b"a:/@?#", n, &mut |s| { uri(c, s); !c.done() });
        c.phase("all strings over a : / [ ] blank 0 up to length 5", 20);
        all_strings(b"a:/[] 0", n, &mut |s| { uri(c, s); authority(c, s); host(c, s); !c.done() });
        c.phase("'h://' before all strings over a : / @ ? # [ ] up to length 4", 20);
        all_strings(b"a:/@?#[]", n - 1, &mut |s| { let mut v = b"h://".to_vec(); v.extend_from_slice(s); uri(c, &v); request(c, &v, false); request(c, s, true); !c.done() });
        c.phase("all strings over a . - _ [ : up to length 5", 10);
        all_strings(b"a.-_[:]", 5, &mut |s| { host(c, s); !c.done() });
        c.phase("every byte in a host name, and every label length", 8);
        for b in 0..=255u8 { host(c, &[b]); host(c, &[b'a', b, b'b']); host(c, &[b'a', b'.', b]); }
        for l in 0..70usize { let mut v = vec![b'a'; l]; host(c, &v); v.push(b'.'); host(c, &v); v.extend(vec![b'b'; 63]); host(c, &v); }
        for l in 240..270usize { host(c, &(0..l).map(|k| if k % 50 == 49 { b'.' } else { b'a' }).collect::<Vec<u8>>()); }
        c.phase("every port number around the limits", 5);
        for p in (0..300u32).chain(65500..65600).chain([100000, 131072, 4294967295]) { let v = format!("h:{}", p); authority(c, v.as_bytes()); let v = format!("http://h:{}/", p); uri(c, v.as_bytes()); request(c, v.as_bytes(), false); request(c, &v.as_bytes()[7..v.len() - 1], true); }
        c.phase("random pieces", 100);
        let pieces: Vec<&[u8]> = vec![b"http", b"://", b":", b"/", b"//", b"@", b"?", b"#", b"[", b"]", b"[::1]", b"[fe80::1%25]", b"a", b"Host.Example", b".", b"..", b"80", b"0", b"65536", b"+1", b" ", b"  ", b"%41", b"\xe9", b"\xd7", b"_", b"-", b"&", b"=", b";", b"\0", b"user:pw@", b"*"];
        while !c.done() {
            let mut r = c.rng.clone();
            let s = r.pieces(&pieces, 12);
            c.rng = r;
            uri(c, &s); authority(c, &s); host(c, &s); request(c, &s, false); request(c, &s, true);
        }
    });
}
