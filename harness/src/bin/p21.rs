//! P21: Authorization headers.
use harness::refs::*;
use harness::*;
use htp::config::Config;
use htp::util::HtpFlags as F;

fn ws(c: u8) -> bool { b" \t\n\x0c\r".contains(&c) }
fn trim(s: &[u8]) -> &[u8] { &s[s.iter().take_while(|c| ws(**c)).count()..] }
fn begins(s: &[u8], t: &[u8]) -> bool { s.len() >= t.len() && s[..t.len()].eq_ignore_ascii_case(t) }
#[derive(PartialEq, Debug, Default)]
struct Out { kind: String, user: Option<String>, pass: Option<String>, token: Option<String>, bad: bool }
fn s(b: &[u8]) -> Option<String> { Some(esc(b)) }
/// what the contract says about the value of the header
fn want(v: &[u8]) -> Out {
    if begins(v, b"basic") {
        let r = base64(trim(&v[5..])).and_then(|d| d.iter().position(|c| *c == b':').map(|k| (d[..k].to_vec(), d[k + 1..].to_vec())));
        match r { Some((u, p)) => Out { kind: "BASIC".into(), user: s(&u), pass: s(&p), ..Default::default() }, None => Out { kind: "BASIC".into(), bad: true, ..Default::default() } }
    } else if begins(v, b"digest") {
        match digest(v) { Some(u) => Out { kind: "DIGEST".into(), user: s(&u), ..Default::default() }, None => Out { kind: "DIGEST".into(), bad: true, ..Default::default() } }
    } else if begins(v, b"bearer") { Out { kind: "BEARER".into(), token: s(trim(&v[6..])), ..Default::default() } }
    else { Out { kind: "UNRECOGNIZED".into(), ..Default::default() } }
}
fn digest(v: &[u8]) -> Option<Vec<u8>> {
    let k = v.windows(9).position(|w| w == b"username=")?;
    let mut a = trim(&v[k + 9..]).strip_prefix(b"\"")?.iter().copied();
    let mut out = vec![];
    loop {
        match a.next()? {
            b'"' if out.last() == Some(&(b'\\', true)) => { out.pop(); out.push((b'"', false)) }
            b'"' => return Some(out.into_iter().map(|x| x.0).collect()),
            c => out.push((c, true)),
        }
    }
}
fn one(c: &mut Ctx, v: &[u8]) {
    if v.iter().any(|b| b"\r\n\0".contains(b)) { return; }
    let mut r = b"GET / HTTP/1.1\r\nHost: h\r\nAuthorization: ".to_vec();
    r.extend_from_slice(v);
    r.extend_from_slice(b"\r\n\r\n");
    let w = want(&v_trim(v)); // the header parser takes the white space around a value away
    c.check("authorization header", v, w.kind != "UNRECOGNIZED", &|| esc(v), || {
        let mut d = Driver::new(Config { parse_request_auth: true, ..Config::default() });
        d.req(&r);
        let t = d.tx(0).ok_or("no transaction")?;
        let o = |b: &Option<htp::bstr::Bstr>| b.as_ref().map(|x| esc(x.as_slice()));
        let got = Out { kind: format!("{:?}", t.request_auth_type), user: o(&t.request_auth_username), pass: o(&t.request_auth_password), token: o(&t.request_auth_token), bad: t.flags & F::AUTH_INVALID != 0 };
        if t.request_progress != htp::transaction::HtpRequestProgress::COMPLETE { return Err("the request did not complete".into()); }
        Ctx::eq(&got, &w)
    });
}
fn v_trim(v: &[u8]) -> Vec<u8> {
    let w = |c: &u8| b" \t\x0b\x0c\r".contains(c);
    let a = v.iter().take_while(|c| w(c)).count();
    let b = v[a..].iter().rev().take_while(|c| w(c)).count();
    v[a..v.len() - b].to_vec()
}
fn b64(d: &[u8]) -> Vec<u8> {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for x in d.chunks(3) {
        let n = (x[0] as u32) << 16 | (*x.get(1).unwrap_or(&0) as u32) << 8 | *x.get(2).unwrap_or(&0) as u32;
        for k in 0..4 { o.push(if k <= x.len() { t[(n >> (18 - 6 * k)) as usize & 63] } else { b'=' }) }
    }
    o
}
fn main() {
    run("the value names a known scheme", |c| {
        c.phase("no header, and header switched off", 2);
        for (cfg, line, kind) in [(true, "", "NONE"), (true, "X: Basic YTpi\r\n", "NONE"), (false, "Authorization: Basic YTpi\r\n", "UNKNOWN")] {
            c.check("requests without authorization to read", line.as_bytes(), true, &|| line.to_string(), || {
                let mut d = Driver::new(Config { parse_request_auth: cfg, ..Config::default() });
                d.req(format!("GET / HTTP/1.1\r\nHost: h\r\n{}\r\n", line).as_bytes());
                let t = d.tx(0).ok_or("no transaction")?;
                Ctx::eq((format!("{:?}", t.request_auth_type), t.request_auth_username.is_some(), t.request_auth_password.is_some(), t.request_auth_token.is_some(), t.flags & F::AUTH_INVALID != 0), (kind.to_string(), false, false, false, false))
            });
        }
        c.phase("quoted strings over \" \\ a up to length 6 after username=", 20);
        all_strings(b"\"\\a", if c.thorough { 9 } else { 6 }, &mut |s| { let mut v = b"Digest username=\"".to_vec(); v.extend_from_slice(s); one(c, &v); !c.done() });
        c.phase("basic credentials over a : up to length 5, every encoding cut", 20);
        all_strings(b"a:\xff", 5, &mut |s| { let e = b64(s); for k in 0..=e.len() { let mut v = b"Basic ".to_vec(); v.extend_from_slice(&e[..k]); one(c, &v); } !c.done() });
        c.phase("every byte in base64 text", 5);
        for b in 0..=255u8 { for k in 0..5 { let mut v = b"Basic YWE6YmI=".to_vec(); v.insert(6 + 2 * k, b); one(c, &v); v.remove(6 + 2 * k); v[6 + k] = b; one(c, &v); } }
        c.phase("random pieces", 100);
        let pieces: Vec<&[u8]> = vec![b"basic", b"Basic ", b"BASIC\t", b"digest", b"Digest ", b"bearer", b"Bearer ", b"BeArEr", b"username=", b"Username=", b"\"", b"\\", b"\\\"", b" ", b"\t", b"\x0b", b"\x0c", b"YTpi", b"YTo=", b"Og==", b"OjpiOg==", b"=", b"a", b"realm=\"x\", ", b"username", b":", b"\xe9", b"b", b"bas", b"ic"];
        while !c.done() {
            let mut r = c.rng.clone();
            let mut v = match r.below(5) { 0 => b"Basic ".to_vec(), 1 => b"digest ".to_vec(), 2 => b"bearer ".to_vec(), 3 => b"Digest realm=\"a\", username=".to_vec(), _ => vec![] };
            if v.starts_with(b"Basic") && r.chance(2, 3) { let n = r.below(20); let d: Vec<u8> = (0..n).map(|_| *r.pick(b"ab:\xff\0\"")).collect(); v.extend(b64(&d)); }
            else { v.extend(r.pieces(&pieces, 8)); }
            c.rng = r;
            one(c, &v);
        }
    });
}
