//! P25: the normalised URI of a request.
use harness::refs::*;
use harness::*;
use htp::bstr::Bstr;
use htp::config::{Config, DecoderConfig, HtpUnwanted};
use htp::transaction::Transaction;
use htp::uri::Uri;
use htp::util::HtpFlags as F;

const MASK: u64 = F::PATH_ENCODED_NUL | F::PATH_RAW_NUL | F::PATH_INVALID_ENCODING | F::PATH_INVALID | F::PATH_OVERLONG_U | F::PATH_ENCODED_SEPARATOR | F::PATH_UTF8_VALID
    | F::PATH_UTF8_INVALID | F::PATH_UTF8_OVERLONG | F::PATH_HALF_FULL_RANGE | F::HOSTU_INVALID;
#[derive(PartialEq, Debug, Clone, Default)]
struct U { s: Split, num: Option<u16> }
fn o(b: &Option<Bstr>) -> Option<Vec<u8>> { b.as_ref().map(|x| x.as_slice().to_vec()) }
fn of(u: &Uri) -> U { U { s: Split { scheme: o(&u.scheme), user: o(&u.username), pass: o(&u.password), host: o(&u.hostname), port: o(&u.port), path: o(&u.path), query: o(&u.query), frag: o(&u.fragment) }, num: u.port_number } }
fn text(u: &U) -> String {
    let f = |n: &str, x: &Option<Vec<u8>>| x.as_ref().map(|v| format!(" {}={}", n, esc(v))).unwrap_or_default();
    format!("{}{}{}{}{}{} number={:?}{}{}", f("scheme", &u.s.scheme), f("user", &u.s.user), f("pass", &u.s.pass), f("host", &u.s.host), f("port", &u.s.port), f("path", &u.s.path), u.num, f("query", &u.s.query), f("fragment", &u.s.frag))
}
fn same(what: &str, got: &U, want: &U) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("the {} is{}, the contract says{}", what, text(got), text(want))) } }
fn utf_flags(f: u64) -> u64 {
    (if f & INVALID != 0 { F::PATH_UTF8_INVALID } else { 0 }) | (if f & OVERLONG != 0 { F::PATH_UTF8_OVERLONG } else { 0 }) | (if f & HALFFULL != 0 { F::PATH_HALF_FULL_RANGE } else { 0 }) | (if f & VALID != 0 { F::PATH_UTF8_VALID } else { 0 })
}
/// the normalised parts, the findings and the expected status
fn normal(raw: &U, cfg: &DecoderConfig, f0: u64, st0: HtpUnwanted) -> (U, u64, HtpUnwanted) {
    let (mut fl, mut st) = (f0, st0);
    let mut dec = |x: &Option<Vec<u8>>| x.as_ref().map(|s| { let d = url_decode(s, cfg); fl |= path_of_urlen(d.flags); d.out });
    let mut n = U::default();
    n.s.user = dec(&raw.s.user);
    n.s.pass = dec(&raw.s.pass);
    n.s.host = dec(&raw.s.host).map(|h| { let mut h = h.to_ascii_lowercase(); while h.last() == Some(&b'.') { h.pop(); } h });
    n.s.frag = dec(&raw.s.frag);
    n.s.scheme = raw.s.scheme.as_ref().map(|s| s.to_ascii_lowercase());
    n.s.query = raw.s.query.clone();
    n.num = raw.s.port.as_ref().and_then(|p| port_number(p));
    if raw.s.port.is_some() && n.num.is_none() { fl |= F::HOSTU_INVALID }
    if let Some(p) = &raw.s.path {
        let d = path_decode(p, cfg);
        let (u, uf) = utf8(&d.out, cfg);
        fl |= d.flags | utf_flags(uf);
        if d.status != HtpUnwanted::IGNORE { st = d.status }
        if fl & F::PATH_UTF8_INVALID != 0 && cfg.utf8_invalid_unwanted != HtpUnwanted::IGNORE { st = cfg.utf8_invalid_unwanted }
        n.s.path = Some(normalize(if cfg.utf8_convert_bestfit { &u } else { &d.out }));
    }
    (n, fl, st)
}
fn texts(u: &U, cfg: &DecoderConfig) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
    let d = |s: &[u8]| url_decode(s, cfg).out;
    let (mut a, mut b) = (vec![], vec![]);
    if let Some(p) = &u.s.path { b.extend(if cfg.double_decode_normalized_path { d(p) } else { p.clone() }) }
    if let Some(q) = &u.s.query { b.push(b'?'); b.extend(if cfg.double_decode_normalized_query { d(&d(q)) } else { d(q) }) }
    if let Some(f) = &u.s.frag { b.push(b'#'); b.extend(f) }
    if let Some(s) = &u.s.scheme { a.extend(s); a.extend(b"://") }
    if u.s.user.is_some() || u.s.pass.is_some() { a.extend(u.s.user.iter().flatten()); a.push(b':'); a.extend(u.s.pass.iter().flatten()); a.push(b'@') }
    a.extend(u.s.host.iter().flatten());
    if let Some(p) = &u.s.port { a.push(b':'); a.extend(p) }
    a.extend(&b);
    (if b.is_empty() { None } else { Some(b) }, if a.is_empty() { None } else { Some(a) })
}
fn e(x: &Option<Vec<u8>>) -> Option<String> { x.as_ref().map(|v| esc(v)) }
fn judge(t: &Transaction, cfg: &DecoderConfig, connect: bool) -> Result<(), String> {
    let uri = o(&t.request_uri);
    let raw = t.parsed_uri_raw.as_ref().ok_or("no raw URI")?;
    let p = t.parsed_uri.as_ref().ok_or("no parsed URI")?;
    let mut f0 = 0;
    let want_raw = match &uri {
        None => U::default(),
        Some(s) if connect => {
            let mut u = U::default();
            if let Some((h, n, ok)) = hostport(s) {
                u.s.host = Some(h.to_ascii_lowercase());
                u.s.port = hostname(s).and_then(|(rest, _)| port(rest)).map(|x| x.1.to_vec());
                u.num = n.flatten();
                if !ok { f0 |= F::HOSTU_INVALID }
            }
            u
        }
        Some(s) => U { s: split_uri(s), num: None },
    };
    same("raw URI", &of(raw), &want_raw)?;
    let (want, mut fl, st) = normal(&want_raw, cfg, f0, HtpUnwanted::IGNORE);
    if want.s.host.as_ref().map_or(false, |h| !valid_hostname(h)) { fl |= F::HOSTU_INVALID }
    same("parsed URI", &of(p), &want)?;
    Ctx::eq(("flags", format!("{:#x}", t.flags & MASK), t.response_status_expected_number), ("flags", format!("{:#x}", fl), st))?;
    let (pa, co) = texts(&want, cfg);
    Ctx::eq((e(&o(&t.partial_normalized_uri)), e(&o(&t.complete_normalized_uri))), (e(&pa), e(&co)))
}
/// a whole request with this target
fn request(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8], method: &[u8], urlenc: bool, cut: usize) {
    if s.iter().any(|b| b"\r\n".contains(b)) { return; }
    let r = [method, b" ", s, b" HTTP/1.1\r\nHost: a\r\n\r\n"].concat();
    let nt = s.iter().filter(|b| b"%:/@?#.+\\".contains(b)).count() >= 2;
    c.check("the URI of a request", &[&r[..], &[cut as u8]].concat(), nt, &|| format!("{} cut at {} under {} query parameters {}", esc(&r), cut, show(cfg), urlenc), || {
        let mut k = Config::default();
        k.decoder_cfg = *cfg;
        k.parse_urlencoded = urlenc;
        let mut d = Driver::new(k);
        d.req_chunks(&r, &[cut.min(r.len())]);
        judge(d.tx(0).ok_or("no transaction")?, cfg, method == b"CONNECT")
    });
}
/// callbacks that set the parsed URI: before the line is read, or before the texts are built
fn set(t: &mut Transaction) {
    let mut u = Uri::with_config(t.cfg.decoder_cfg);
    u.hostname = Some(Bstr::from("se_t."));
    u.port = Some(Bstr::from("81"));
    u.query = Some(Bstr::from("%2541"));
    t.parsed_uri = Some(u);
}
fn early(t: &mut Transaction) -> Result<(), htp::HtpStatus> { set(t); Ok(()) }
fn late(t: &mut Transaction) -> Result<(), htp::HtpStatus> {
    if let Some(u) = t.parsed_uri.as_mut() { u.port = Some(Bstr::from("8")); u.fragment = None; u.username = Some(Bstr::from("")) }
    Ok(())
}
fn hooked(c: &mut Ctx, cfg: &DecoderConfig, s: &[u8], at: usize) {
    if s.iter().any(|b| b"\r\n".contains(b)) { return; }
    let r = [&b"GET "[..], s, b" HTTP/1.1\r\nHost: a\r\n\r\n"].concat();
    c.check("the URI of a request with callbacks", &[&r[..], &[at as u8]].concat(), true, &|| format!("{} callback {} under {}", esc(&r), at, show(cfg)), || {
        let mut k = Config::default();
        k.decoder_cfg = *cfg;
        match at { 0 => k.register_request_start(early), 1 => k.hook_request_uri_normalize.register(late), _ => k.register_request_line(late) }
        let mut d = Driver::new(k);
        d.req(&r);
        let t = d.tx(0).ok_or("no transaction")?;
        let raw = U { s: o(&t.request_uri).map(|u| split_uri(&u)).unwrap_or_default(), num: None };
        let p = of(t.parsed_uri.as_ref().ok_or("no parsed URI")?);
        same("raw URI", &of(t.parsed_uri_raw.as_ref().ok_or("no raw URI")?), &raw)?;
        let mut want = normal(&raw, cfg, 0, HtpUnwanted::IGNORE).0;
        if at == 0 { want = U { s: Split { host: Some(b"se_t.".to_vec()), port: Some(b"81".to_vec()), query: Some(b"%2541".to_vec()), ..Split::default() }, num: None } }
        else { want.s.port = Some(b"8".to_vec()); want.s.frag = None; want.s.user = Some(vec![]) }
        same("parsed URI", &p, &want)?;
        if at == 0 { Ctx::eq(("findings", t.flags & MASK), ("findings", if valid_hostname(b"se_t.") { 0 } else { F::HOSTU_INVALID }))?; }
        let (pa, co) = texts(&want, cfg);
        Ctx::eq((e(&o(&t.partial_normalized_uri)), e(&o(&t.complete_normalized_uri))), (e(&pa), e(&co)))
    });
}
/// any parts whatever as text
fn parts(c: &mut Ctx, cfg: &DecoderConfig, u: &U) {
    c.check("the text of a URI", text(u).as_bytes(), true, &|| format!("{} under {}", text(u), show(cfg)), || {
        let b = |x: &Option<Vec<u8>>| x.as_ref().map(|v| Bstr::from(v.as_slice()));
        let mut v = Uri::with_config(*cfg);
        v.scheme = b(&u.s.scheme); v.username = b(&u.s.user); v.password = b(&u.s.pass); v.hostname = b(&u.s.host); v.port = b(&u.s.port); v.path = b(&u.s.path); v.query = b(&u.s.query); v.fragment = b(&u.s.frag);
        v.port_number = u.num;
        let (pa, co) = v.generate_normalized_uri(None);
        let (wp, wc) = texts(u, cfg);
        Ctx::eq((e(&o(&pa)), e(&o(&co))), (e(&wp), e(&wc)))?;
        // each part by itself, into flags that hold something already
        for f0 in [0u64, F::HOST_MISSING | F::PATH_UTF8_INVALID] {
            let (n, _, _) = normal(u, cfg, f0, HtpUnwanted::IGNORE);
            let one = |x: Option<&Vec<u8>>| f0 | x.map_or(0, |s| path_of_urlen(url_decode(s, cfg).flags));
            let mut f = f0;
            Ctx::eq((o(&v.normalized_username(&mut f)), f), (n.s.user.clone(), one(u.s.user.as_ref())))?;
            f = f0;
            Ctx::eq((o(&v.normalized_password(&mut f)), f), (n.s.pass.clone(), one(u.s.pass.as_ref())))?;
            f = f0;
            Ctx::eq((o(&v.normalized_hostname(&mut f)), f), (n.s.host.clone(), one(u.s.host.as_ref())))?;
            f = f0;
            Ctx::eq((o(&v.normalized_fragment(&mut f)), f), (n.s.frag.clone(), one(u.s.frag.as_ref())))?;
            f = f0;
            Ctx::eq((v.normalized_port(&mut f), f), (n.num, f0 | if u.s.port.is_some() && n.num.is_none() { F::HOSTU_INVALID } else { 0 }))?;
            Ctx::eq(o(&v.normalized_scheme()), n.s.scheme.clone())?;
            let only = U { s: Split { path: u.s.path.clone(), ..Split::default() }, num: None };
            for st0 in [HtpUnwanted::IGNORE, HtpUnwanted::CODE_404] {
                let (_, wf, ws) = normal(&only, cfg, f0, st0);
                let (mut f, mut st) = (f0, st0);
                Ctx::eq((o(&v.normalized_path(&mut f, &mut st)), f, st), (n.s.path.clone(), wf, ws))?;
            }
        }
        Ok(())
    });
}
const PIECES: &[&[u8]] = &[b"http", b"HTTP", b"://", b":", b"/", b"//", b"@", b"?", b"#", b"[", b"]", b"[::1]", b"a", b"Host.Example", b".", b"..", b"/../", b"/./", b"%2e%2e", b"%2E", b"80", b"0", b"65536", b"%38", b" ", b"%41", b"%2541", b"%252f", b"%25", b"%2f", b"%5C", b"\\",
    b"%00", b"\0", b"%u002f", b"%u2215", b"%uff0f", b"%zz", b"%", b"+", b"\xc3\xa9", b"%c3%a9", b"%c0%af", b"%ff", b"\xe9", b"%ef%bc%8f", b"_", b"-", b"a.b..", b"%2e", b"A%2E.", b"&", b"=", b"q=%2b%31", b"user:pw@", b"US%45R:P%57@", b"*", b"\t", b"\x0b"];
fn uri(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 4) { return r.pieces(PIECES, 10); }
    let mut s = vec![];
    let opt = |r: &mut Rng, s: &mut Vec<u8>, a: &[u8], v: &[&[u8]], n: usize, b: &[u8]| if r.chance(2, 3) { s.extend(a); s.extend(r.pieces(v, n)); s.extend(b); };
    const W: &[&[u8]] = &[b"a", b"B", b"%41", b"%2541", b"%00", b"%zz", b"+", b"%u0041", b"\\", b"%2e", b".", b"\xc3\xa9", b"%c3%a9", b"%c0%af", b"%ff", b"%25", b"%2f"];
    const P: &[&[u8]] = &[b"/", b"/", b"a", b".", b"..", b"B", b"%2e", b"%2e%2e/", b"%2f", b"%5c", b"\\", b"%252f", b"%252e", b"%00", b"%zz", b"%u002f", b"%u2215", b"%uff0f", b"%c0%af", b"%c0%ae", b"%c3%a9", b"%ef%bc%8e", b"\xff", b"%ff", b"+", b"%25", b"32f", b"%1f"];
    if r.chance(2, 3) {
        s.extend(*r.pick(&[&b"http://"[..], b"HtTp://", b"h%41:", b"x://"]));
        if r.chance(1, 2) { s.extend(r.pieces(W, 3)); if r.chance(1, 2) { s.push(b':'); s.extend(r.pieces(W, 3)); } s.push(b'@'); }
        opt(r, &mut s, b"", W, 4, b"");
        if r.chance(1, 2) { s.push(b':'); s.extend(*r.pick(&[&b"80"[..], b"0", b"65535", b"65536", b"8%30", b"", b" 80", b"+1", b"x"])); }
    }
    if r.chance(4, 5) { s.push(b'/'); s.extend(r.pieces(P, 10)); }
    opt(r, &mut s, b"?", W, 5, b"");
    opt(r, &mut s, b"#", W, 4, b"");
    s
}
fn main() {
    run("the target holds at least two of % : / @ ? # . + \\", |c| {
        let mut r = c.rng.clone();
        let n = if c.thorough { 6 } else { 5 };
        let mut cfgs: Vec<DecoderConfig> = (0..40).map(|_| decoder_cfg(&mut r)).collect();
        cfgs[0] = DecoderConfig::default();
        let mut i = 0;
        c.phase("'h://' before all strings over % 2 f . / @ : # ? up to length 5, 40 configurations", 30);
        all_strings(b"%2f./@:#?", n, &mut |s| { i += 1; let v = [&b"h://"[..], s].concat(); request(c, &cfgs[i % 40], &v, b"GET", i % 3 == 0, 0); !c.done() });
        c.phase("all strings over % 2 e 5 / . up to length 6 as path, 40 configurations", 20);
        all_strings(b"%2e5/.", n + 1, &mut |s| { i += 1; let v = [&b"/"[..], s].concat(); request(c, &cfgs[i % 40], &v, b"GET", i % 3 == 0, 0); !c.done() });
        c.phase("all strings over a A . : 8 [ up to length 5 after CONNECT", 10);
        all_strings(b"aA.:8[]%", n, &mut |s| { i += 1; request(c, &cfgs[i % 40], s, b"CONNECT", false, 0); !c.done() });
        c.phase("all sets of parts", 10);
        for k in 0..256u32 {
            for (j, v) in [&b""[..], b"A.", b"%41%00", b"%2525zz", b"80"].iter().enumerate() {
                let f = |b: u32| if k >> b & 1 == 1 { Some(v.to_vec()) } else { None };
                let u = U { s: Split { scheme: f(0), user: f(1), pass: f(2), host: f(3), port: f(4), path: f(5), query: f(6), frag: f(7) }, num: if j == 0 { Some(7) } else { None } };
                for g in 0..6 { parts(c, &cfgs[(g * 7 + k as usize) % 40], &u); }
            }
        }
        c.phase("random", 100);
        while !c.done() {
            let cfg = decoder_cfg(&mut r);
            for _ in 0..4 {
                let s = uri(&mut r);
                let m = *r.pick(&[&b"GET"[..], b"GET", b"POST", b"CONNECT", b"XYZ"]);
                let (ue, cut) = (r.chance(1, 2), r.below(40));
                request(c, &cfg, &s, m, ue, cut);
                let at = r.below(12);
                if at < 3 { hooked(c, &cfg, &s, at) }
                let mut f = || if r.chance(1, 2) { Some(uri(&mut r)) } else { None };
                let u = U { s: Split { scheme: f(), user: f(), pass: f(), host: f(), port: None, path: f(), query: f(), frag: f() }, num: None };
                let u = if r.chance(1, 3) { U { s: Split { port: Some(r.pick(&[&b"80"[..], b"0", b"99999", b"x", b""]).to_vec()), ..u.s }, num: Some(9) } } else { u };
                parts(c, &cfg, &u);
            }
        }
    });
}
