//! Executable versions of the specifications that more than one harness needs.
use htp::config::*;

/// The best-fit table is read off the library's own default map (its content is data, not behaviour):
/// the harness asks `get` for each code point.
pub fn best(cfg: &DecoderConfig, cp: u32) -> u8 {
    if cp < 0x100 { cp as u8 } else { cfg.bestfit_map.get(cp) }
}
pub const INVALID: u64 = 1;
pub const OVERLONG: u64 = 2;
pub const HALFFULL: u64 = 4;
pub const VALID: u64 = 8;
/// UTF-8 to single bytes. Returns the bytes and the set of findings.
pub fn utf8(s: &[u8], cfg: &DecoderConfig) -> (Vec<u8>, u64) {
    let rep = cfg.bestfit_map.replacement_byte;
    let (mut out, mut fl, mut seen) = (vec![], 0u64, false);
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        let need = match b { 0..=0x7f => 0, 0xc0..=0xdf => 1, 0xe0..=0xef => 2, 0xf0..=0xf4 => 3, _ => usize::MAX };
        if need == usize::MAX { out.push(rep); fl |= INVALID; i += 1; continue; }
        if need == 0 { out.push(b); i += 1; continue; }
        let mut k = 0;
        let mut cp = match need { 1 => b & 0x1f, 2 => b & 0x0f, _ => b & 7 } as u32;
        while k < need && i + 1 + k < s.len() {
            let c = s[i + 1 + k];
            if c & 0xc0 != 0x80 { break; }
            if k == 0 && ((b == 0xed && c > 0x9f) || (b == 0xf4 && c > 0x8f)) { break; }
            cp = cp * 64 + (c & 0x3f) as u32;
            k += 1;
        }
        if k == need {
            seen = true;
            if (need == 1 && cp < 0x80) || (need == 2 && cp < 0x800) || (need == 3 && cp < 0x10000) { fl |= OVERLONG; }
            if (0xff00..=0xffef).contains(&cp) { fl |= HALFFULL; }
            out.push(best(cfg, cp));
            i += need + 1;
        } else if i + 1 + k == s.len() {
            // the input ends inside the character
            for _ in 0..k { out.push(rep); }
            i = s.len();
        } else {
            out.push(rep);
            fl |= INVALID;
            i += 1 + k;
        }
    }
    if seen && fl & INVALID == 0 { fl |= VALID; }
    (out, fl)
}
/// Dot-segment removal over '/'-separated segments.
pub fn normalize(s: &[u8]) -> Vec<u8> {
    let mut out: Vec<Vec<u8>> = vec![];
    for seg in s.split(|c| *c == b'/') {
        if seg == b"." { continue; }
        if seg == b".." {
            if !(out.len() == 1 && out[0].is_empty()) { out.pop(); }
            continue;
        }
        out.push(seg.to_vec());
    }
    out.join(&b'/')
}
// ---------------------------------------------------------------- percent decoding
use htp::util::HtpFlags as F;
fn hexval(c: u8) -> Option<u8> {
    match c { b'0'..=b'9' => Some(c - 48), b'a'..=b'f' => Some(c - 87), b'A'..=b'F' => Some(c - 55), _ => None }
}
/// two characters taken as a byte, hexadecimal or not
pub fn x2(a: u8, b: u8) -> u8 {
    let d = |c: u8| -> i32 { if let Some(v) = hexval(c) { v as i32 } else if c >= b'A' { ((c & 0xdf) as i32) - 55 } else { c as i32 - 48 } };
    ((d(a) * 16 + d(b)).rem_euclid(256)) as u8
}
/// a decoding under way
pub struct Dec { pub out: Vec<u8>, pub flags: u64, pub status: HtpUnwanted }
impl Dec {
    fn react(&mut self, u: HtpUnwanted) { if u != HtpUnwanted::IGNORE { self.status = u; } }
}
pub enum Esc { Bytes(usize, u8, u64, bool), Literal, Invalid }
fn esc_at(s: &[u8], i: usize, cfg: &DecoderConfig) -> (Esc, bool) {
    // s[i] == '%'; second: whether it is the %u form
    let t = &s[i + 1..];
    if !t.is_empty() && (t[0] | 32) == b'u' {
        if !cfg.u_encoding_decode { return (Esc::Literal, true); }
        if t.len() >= 5 && t[1..5].iter().all(|c| hexval(*c).is_some()) { return (Esc::Bytes(6, 0, 0, true), true); }
        (Esc::Invalid, true)
    } else if t.len() >= 2 && t[..2].iter().all(|c| hexval(*c).is_some()) {
        (Esc::Bytes(3, x2(t[0], t[1]), 0, true), false)
    } else { (Esc::Invalid, false) }
}
/// byte and high byte of %uXXXX at i
fn u_at(s: &[u8], i: usize, cfg: &DecoderConfig) -> (u8, u8, u8) {
    let (hi, lo) = (x2(s[i + 2], s[i + 3]), x2(s[i + 4], s[i + 5]));
    (if hi == 0 { lo } else { cfg.bestfit_map.get((hi as u32) << 8 | lo as u32) }, hi, lo)
}
/// URL decoding of parameters, queries and the like.
pub fn url_decode(s: &[u8], cfg: &DecoderConfig) -> Dec {
    let mut d = Dec { out: vec![], flags: 0, status: HtpUnwanted::IGNORE };
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'+' { d.out.push(if cfg.plusspace_decode { b' ' } else { b'+' }); i += 1; continue; }
        if s[i] == 0 {
            d.flags |= F::URLEN_RAW_NUL;
            d.react(cfg.nul_raw_unwanted);
            if cfg.nul_raw_terminates { break; }
            d.out.push(0); i += 1; continue;
        }
        if s[i] != b'%' { d.out.push(s[i]); i += 1; continue; }
        let (e, u) = esc_at(s, i, cfg);
        let whole = if u { 6 } else { 3 };
        let (n, b, keep) = match e {
            Esc::Literal => (1, b'%', true),
            Esc::Bytes(n, b, _, _) => {
                if u {
                    d.react(cfg.u_encoding_unwanted);
                    let (b, hi, lo) = u_at(s, i, cfg);
                    if hi == 0 { d.flags |= F::URLEN_OVERLONG_U } else if hi == 0xff && lo <= 0xef { d.flags |= F::URLEN_HALF_FULL_RANGE }
                    (n, b, true)
                } else { (n, b, true) }
            }
            Esc::Invalid => {
                d.flags |= F::URLEN_INVALID_ENCODING;
                if u && i + 6 <= s.len() { d.react(cfg.u_encoding_unwanted); }
                d.react(cfg.url_encoding_invalid_unwanted);
                if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::PROCESS_INVALID && i + whole <= s.len() {
                    if u {
                        let (b, hi, lo) = u_at(s, i, cfg);
                        if hi == 0 { d.flags |= F::URLEN_OVERLONG_U } else if hi == 0xff && lo <= 0xef { d.flags |= F::URLEN_HALF_FULL_RANGE }
                        (6, b, true)
                    } else { (3, x2(s[i + 1], s[i + 2]), true) }
                } else { (1, b'%', cfg.url_encoding_invalid_handling != HtpUrlEncodingHandling::REMOVE_PERCENT) }
            }
        };
        if b == 0 {
            d.flags |= F::URLEN_ENCODED_NUL;
            d.react(cfg.nul_encoded_unwanted);
            if cfg.nul_encoded_terminates { break; }
        }
        if keep { d.out.push(b); }
        i += n;
    }
    d
}
/// URL decoding of paths.
pub fn path_decode(s: &[u8], cfg: &DecoderConfig) -> Dec {
    let mut d = Dec { out: vec![], flags: 0, status: HtpUnwanted::IGNORE };
    let sep = |b: u8| b == b'/' || (cfg.backslash_convert_slashes && b == b'\\');
    // a byte as it is stored
    fn put(d: &mut Dec, cfg: &DecoderConfig, b: u8) {
        let mut b = b;
        if b == b'\\' && cfg.backslash_convert_slashes { b = b'/'; }
        if cfg.convert_lowercase { b.make_ascii_lowercase(); }
        if b == b'/' && cfg.path_separators_compress && d.out.last() == Some(&b'/') { return; }
        d.out.push(b);
    }
    let mut i = 0;
    while i < s.len() {
        if s[i] != b'%' {
            let b = s[i];
            if b == 0 {
                d.react(cfg.nul_raw_unwanted);
                if cfg.nul_raw_terminates { break; }
            }
            if b < 32 { d.react(cfg.control_chars_unwanted); }
            put(&mut d, cfg, b);
            i += 1;
            continue;
        }
        let (e, u) = esc_at(s, i, cfg);
        let whole = if u { 6 } else { 3 };
        match e {
            Esc::Literal => { put(&mut d, cfg, b'%'); i += 1; }
            Esc::Bytes(n, b, _, _) if !u => {
                if b == 0 {
                    d.flags |= F::PATH_ENCODED_NUL;
                    d.react(cfg.nul_encoded_unwanted);
                    if cfg.nul_encoded_terminates { break; }
                }
                if sep(b) {
                    d.flags |= F::PATH_ENCODED_SEPARATOR;
                    d.react(cfg.path_separators_encoded_unwanted);
                    if !cfg.path_separators_decode { put(&mut d, cfg, b'%'); i += 1; continue; }
                }
                if b < 32 { d.react(cfg.control_chars_unwanted); }
                put(&mut d, cfg, b);
                i += n;
            }
            Esc::Bytes(..) => {
                d.react(cfg.u_encoding_unwanted);
                let (b, hi, _) = u_at(s, i, cfg);
                if hi == 0 { d.flags |= F::PATH_OVERLONG_U } else if hi == 0xff { d.flags |= F::PATH_HALF_FULL_RANGE }
                if sep(b) { d.flags |= F::PATH_ENCODED_SEPARATOR }
                if b == 0 {
                    d.flags |= F::PATH_ENCODED_NUL;
                    d.react(cfg.nul_encoded_unwanted);
                    if cfg.nul_encoded_terminates { break; }
                }
                if b < 32 { d.react(cfg.control_chars_unwanted); }
                put(&mut d, cfg, b);
                i += 6;
            }
            Esc::Invalid => {
                d.flags |= F::PATH_INVALID_ENCODING;
                d.react(cfg.url_encoding_invalid_unwanted);
                match cfg.url_encoding_invalid_handling {
                    HtpUrlEncodingHandling::REMOVE_PERCENT => i += 1,
                    HtpUrlEncodingHandling::PROCESS_INVALID if i + whole <= s.len() => {
                        let b = if u {
                            let (b, hi, _) = u_at(s, i, cfg);
                            if hi == 0 { d.flags |= F::PATH_OVERLONG_U } else {
                                if hi == 0xff { d.flags |= F::PATH_HALF_FULL_RANGE }
                                d.react(cfg.u_encoding_unwanted);
                            }
                            if sep(b) { d.flags |= F::PATH_ENCODED_SEPARATOR }
                            b
                        } else { x2(s[i + 1], s[i + 2]) };
                        if b < 32 { d.react(cfg.control_chars_unwanted); }
                        put(&mut d, cfg, b);
                        i += whole;
                    }
                    _ => { put(&mut d, cfg, b'%'); i += 1; }
                }
            }
        }
    }
    d
}
/// a decoder configuration drawn from all settings that decoding looks at
pub fn decoder_cfg(r: &mut crate::Rng) -> DecoderConfig {
    let mut c = DecoderConfig::default();
    macro_rules! b { ($($f:ident),*) => { $( c.$f = r.chance(1, 2); )* } }
    b!(backslash_convert_slashes, convert_lowercase, path_separators_compress, path_separators_decode, plusspace_decode,
       nul_raw_terminates, u_encoding_decode, nul_encoded_terminates, utf8_convert_bestfit, allow_space_uri, double_decode_normalized_path, double_decode_normalized_query, normalized_uri_include_all);
    let plain = r.chance(1, 4);
    macro_rules! u { ($($f:ident),*) => { $( c.$f = if plain { HtpUnwanted::IGNORE } else { *r.pick(&[HtpUnwanted::IGNORE, HtpUnwanted::CODE_400, HtpUnwanted::CODE_404]) }; )* } }
    u!(path_separators_encoded_unwanted, nul_raw_unwanted, control_chars_unwanted, u_encoding_unwanted, url_encoding_invalid_unwanted, nul_encoded_unwanted, utf8_invalid_unwanted);
    c.url_encoding_invalid_handling = *r.pick(&[HtpUrlEncodingHandling::PRESERVE_PERCENT, HtpUrlEncodingHandling::REMOVE_PERCENT, HtpUrlEncodingHandling::PROCESS_INVALID]);
    if r.chance(1, 3) { c.bestfit_map.replacement_byte = r.next() as u8; }
    c
}
pub fn show(c: &DecoderConfig) -> String {
    let mut v = vec![];
    macro_rules! b { ($($f:ident),*) => { $( if c.$f { v.push(stringify!($f).to_string()); } )* } }
    b!(backslash_convert_slashes, convert_lowercase, path_separators_compress, path_separators_decode, plusspace_decode,
       nul_raw_terminates, u_encoding_decode, nul_encoded_terminates, utf8_convert_bestfit, double_decode_normalized_path, double_decode_normalized_query, normalized_uri_include_all);
    macro_rules! u { ($($f:ident),*) => { $( if c.$f != HtpUnwanted::IGNORE { v.push(format!("{}={:?}", stringify!($f), c.$f)); } )* } }
    u!(path_separators_encoded_unwanted, nul_raw_unwanted, control_chars_unwanted, u_encoding_unwanted, url_encoding_invalid_unwanted, nul_encoded_unwanted, utf8_invalid_unwanted);
    format!("{} {:?} replacement={}", v.join(" "), c.url_encoding_invalid_handling, c.bestfit_map.replacement_byte)
}
pub const ESC_PIECES: &[&[u8]] = &[b"%", b"%u", b"%U", b"u", b"0", b"00", b"2", b"f", b"F", b"2f", b"5C", b"5c", b"%2F", b"%5c", b"%00", b"\0", b"%u0000", b"%u002f", b"%u2215", b"%uff0f",
    b"%uFFEF", b"%uFFF0", b"%u00", b"%u0100", b"%uFF", b"+", b"/", b"\\", b"//", b"A", b"Z", b"z", b"%41", b"%1f", b"\x1f", b" ", b"%20", b"g", b"%0g", b"%g0", b"%xyz", b"%u12g4", b"%uzz2f", b"%u00zz", b"%u\0\0\0\0", b"@", b"`", b"%@", b"%c3%a9", b"%FF", b"\xff", b"%u005c", b"%\xb0\xb0", b"%00a", b"ab"];
pub fn path_of_urlen(f: u64) -> u64 {
    let mut r = 0;
    if f & F::URLEN_INVALID_ENCODING != 0 { r |= F::PATH_INVALID_ENCODING }
    if f & F::URLEN_ENCODED_NUL != 0 { r |= F::PATH_ENCODED_NUL }
    if f & F::URLEN_RAW_NUL != 0 { r |= F::PATH_RAW_NUL }
    r
}
/// the first run of decimal digits of s (after anything else) as a number
pub fn content_length(s: &[u8]) -> Option<u64> {
    let a = s.iter().position(|c| c.is_ascii_digit())?;
    let n = s[a..].iter().take_while(|c| c.is_ascii_digit()).count();
    std::str::from_utf8(&s[a..a + n]).unwrap().parse().ok()
}
fn until(s: &[u8], set: &[u8]) -> usize { s.iter().position(|c| set.contains(c)).unwrap_or(s.len()) }
pub fn hostname(i: &[u8]) -> Option<(&[u8], &[u8])> {
    let i = i.strip_prefix(b"//").unwrap_or(i);
    if i.starts_with(b"/") { return None; }
    let i = &i[i.iter().take_while(|c| **c == b' ').count()..];
    let n = if i.starts_with(b"[") && until(&i[1..], b"/?#]") > 0 { let k = 1 + until(&i[1..], b"/?#]"); if i[k..].starts_with(b"]") { k + 1 } else { k } } else { until(i, b"/?#:") };
    if n == 0 { return None; }
    let mut h = &i[..n];
    while h.ends_with(b" ") { h = &h[..h.len() - 1] }
    Some((&i[n..], h))
}
pub fn port(i: &[u8]) -> Option<(&[u8], &[u8])> {
    let i = i.strip_prefix(b":")?;
    let i = &i[i.iter().take_while(|c| **c == b' ').count()..];
    let n = until(i, b"/?#");
    if n == 0 { return None; }
    Some((&i[n..], &i[..until(&i[..n], b" ")]))
}
pub fn port_number(p: &[u8]) -> Option<u16> {
    if p.is_empty() || !p.iter().all(|c| c.is_ascii_digit()) { return None; }
    std::str::from_utf8(p).unwrap().parse::<u16>().ok().filter(|x| *x > 0)
}
/// a host name made of labels of letters, digits, '-' and '_' of at most 63 bytes, or a bracketed IPv6 address
pub fn valid_hostname(h: &[u8]) -> bool {
    if h.is_empty() || h.len() > 255 { return false; }
    if h[0] == b'[' {
        let n = 1 + until(&h[1..], b"#?/]");
        if n > 1 && h[n..].starts_with(b"]") {
            if let Ok(t) = std::str::from_utf8(&h[1..n]) { return t.parse::<std::net::Ipv6Addr>().is_ok(); }
        }
    }
    if h[0] == b'.' || h.windows(2).any(|w| w == b"..") { return false; }
    h.split(|c| *c == b'.').all(|l| l.len() <= 63 && l.iter().all(|c| *c == b'_' || *c == b'-' || (*c as char).is_alphanumeric()))
}
/// host, port if given (itself None if not a number), validity
pub fn hostport(v: &[u8]) -> Option<(Vec<u8>, Option<Option<u16>>, bool)> {
    let (rest, h) = hostname(v)?;
    let ok = valid_hostname(h);
    Some(match port(rest) {
        Some((_, p)) => { let n = port_number(p); (h.to_vec(), Some(n), ok && n.is_some()) }
        None => (h.to_vec(), None, ok && rest.is_empty()),
    })
}
/// v holds n, up to case and NULs in v
pub fn holds_nocase_nozero(v: &[u8], n: &[u8]) -> bool {
    let w: Vec<u8> = v.iter().filter(|c| **c != 0).map(|c| c.to_ascii_lowercase()).collect();
    w.windows(n.len()).any(|x| x == n)
}
/// the components of a request URI
#[derive(Default, PartialEq, Debug, Clone)]
pub struct Split { pub scheme: Option<Vec<u8>>, pub user: Option<Vec<u8>>, pub pass: Option<Vec<u8>>, pub host: Option<Vec<u8>>, pub port: Option<Vec<u8>>, pub path: Option<Vec<u8>>, pub query: Option<Vec<u8>>, pub frag: Option<Vec<u8>> }
pub fn split_uri(s: &[u8]) -> Split {
    let mut r = Split::default();
    let mut i = s;
    if !s.starts_with(b"/") {
        if let Some(k) = s.iter().position(|c| *c == b':') {
            r.scheme = Some(s[..k].to_vec());
            i = &s[k + 1..];
            if i.starts_with(b"//") && !i[2..].starts_with(b"/") {
                let n = until(&i[2..], b"/?#@");
                if i[2 + n..].starts_with(b"@") {
                    let c = &i[2..2 + n];
                    match c.iter().position(|x| *x == b':') {
                        Some(k) => { r.user = Some(c[..k].to_vec()); r.pass = Some(c[k + 1..].to_vec()); }
                        None => r.user = Some(c.to_vec()),
                    }
                    i = &i[3 + n..];
                }
            }
            if let Some((rest, h)) = hostname(i) {
                r.host = Some(h.to_vec());
                i = rest;
                if let Some((rest, p)) = port(i) { r.port = Some(p.to_vec()); i = rest; }
                if i.starts_with(b":") { i = &i[1..] }
            }
        }
    }
    let n = until(i, b"?#");
    if n > 0 { r.path = Some(i[..n].to_vec()); i = &i[n..] }
    if i.starts_with(b"?") { let n = until(&i[1..], b"#"); r.query = Some(i[1..1 + n].to_vec()); i = &i[1 + n..] }
    if i.starts_with(b"#") { r.frag = Some(i[1..].to_vec()) }
    r
}
/// base64 (standard alphabet); padding may be left out or cut short, unused bits must be zero
pub fn base64(s: &[u8]) -> Option<Vec<u8>> {
    let val = |c: u8| -> Option<u32> { Some(match c { b'A'..=b'Z' => c - 65, b'a'..=b'z' => c - 71, b'0'..=b'9' => c + 4, b'+' => 62, b'/' => 63, _ => return None } as u32) };
    let n = s.iter().take_while(|c| **c != b'=').count();
    let pad = s.len() - n;
    if s[n..].iter().any(|c| *c != b'=') || n % 4 == 1 || (pad > 0 && (n % 4 < 2 || n % 4 + pad > 4)) { return None; }
    let mut out = vec![];
    for q in s[..n].chunks(4) {
        let mut x = 0u32;
        for k in 0..4 { x = x << 6 | q.get(k).map(|c| val(*c)).unwrap_or(Some(0))?; }
        let b = [(x >> 16) as u8, (x >> 8) as u8, x as u8];
        let m = q.len() - 1;
        if b[m..].iter().any(|y| *y != 0) { return None; }
        out.extend_from_slice(&b[..m]);
    }
    Some(out)
}

// ---- the request and the response line ----
pub fn white(c: u8) -> bool { b" \t\r\n\x0b\x0c".contains(&c) }
fn past(s: &[u8], f: impl Fn(u8) -> bool) -> (&[u8], &[u8]) { s.split_at(s.iter().position(|c| !f(*c)).unwrap_or(s.len())) }
pub fn strip(s: &[u8]) -> &[u8] {
    let a = past(s, white).1;
    &a[..a.iter().rposition(|c| !white(*c)).map_or(0, |k| k + 1)]
}
pub fn chomped(s: &[u8]) -> &[u8] { &s[..s.iter().rposition(|c| *c != 13 && *c != 10).map_or(0, |k| k + 1)] }
pub fn status_number(s: &[u8]) -> Option<u16> {
    let b = past(s, |c| c == 32 || c == 9).1;
    let (d, r) = past(b, |c| c.is_ascii_digit());
    if d.is_empty() || !past(r, |c| c == 32 || c == 9).1.is_empty() { return None; }
    let d = past(d, |c| c == b'0').1;
    if d.len() != 3 { return None; }
    std::str::from_utf8(d).unwrap().parse().ok()
}
pub fn protocol_number(s: &[u8]) -> htp::transaction::HtpProtocol {
    use htp::transaction::HtpProtocol as P;
    let aws = |c: u8| [32, 9, 10, 12, 13].contains(&c);
    let a = past(s, aws).1;
    if a.len() < 4 || !a[..4].eq_ignore_ascii_case(b"HTTP") { return P::INVALID; }
    let b = past(&a[4..], aws).1;
    if b.first() != Some(&b'/') { return P::INVALID; }
    let t = past(&b[1..], |c| aws(c) || c == b'0').1;
    for (v, p) in [(&b".9"[..], P::V0_9), (b"1.0", P::V1_0), (b"1.1", P::V1_1)] {
        if t.starts_with(v) && past(&t[v.len()..], aws).1.is_empty() { return p; }
    }
    P::INVALID
}
#[derive(PartialEq, Debug, Clone)]
pub struct RqLine { pub line: Vec<u8>, pub method: Vec<u8>, pub number: String, pub uri: Option<Vec<u8>>, pub protocol: Option<Vec<u8>>, pub version: htp::transaction::HtpProtocol, pub old: bool, pub kept: bool }
/// `apache`: read up to the first NUL; `keep`: leading white space counts; `last`: the URI may hold spaces
pub fn rq_line(line: &[u8], apache: bool, keep: bool, last: bool) -> RqLine {
    use htp::transaction::HtpProtocol as P;
    let s = if apache { past(line, |c| c != 0).0 } else { line };
    let (lead, a) = past(s, white);
    let (m, b) = past(a, |c| !white(c));
    let kept = keep && !lead.is_empty();
    let method = if kept { [lead, m].concat() } else { m.to_vec() };
    let names = ["HEAD", "GET", "PUT", "POST", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK", "VERSION-CONTROL", "CHECKOUT", "UNCHECKOUT", "CHECKIN", "UPDATE", "LABEL", "REPORT", "MKWORKSPACE", "MKACTIVITY", "BASELINE-CONTROL", "MERGE", "INVALID"];
    let number = names.iter().find(|n| n.as_bytes() == &method[..]).map_or("UNKNOWN".to_string(), |n| n.replace('-', "_"));
    let c = past(b, white).1;
    if c.is_empty() { return RqLine { line: line.to_vec(), method, number, uri: None, protocol: None, version: P::V0_9, old: true, kept }; }
    let t = strip(c);
    let at = |f: &dyn Fn(u8) -> bool| if last { t.iter().rposition(|c| f(*c)) } else { t.iter().position(|c| f(*c)) };
    let (u, p) = match at(&|c| c == 32).or_else(|| at(&white)) { Some(k) => (strip(&t[..k]), strip(&t[k + 1..])), None => (t, &b""[..]) };
    let none = p.is_empty();
    RqLine { line: line.to_vec(), method, number, uri: Some(u.to_vec()), protocol: if none { None } else { Some(p.to_vec()) }, version: if none { P::V0_9 } else { protocol_number(p) }, old: none, kept }
}
#[derive(PartialEq, Debug, Clone)]
pub struct RsLine { pub line: Vec<u8>, pub protocol: Option<Vec<u8>>, pub version: htp::transaction::HtpProtocol, pub status: Option<Vec<u8>>, pub number: Option<u16>, pub message: Option<Vec<u8>> }
pub fn rs_line(line: &[u8]) -> RsLine {
    let mut r = RsLine { line: line.to_vec(), protocol: None, version: htp::transaction::HtpProtocol::INVALID, status: None, number: None, message: None };
    let (p, b) = past(past(line, |c| white(c) || c == 0).1, |c| !white(c));
    if p.is_empty() { return r; }
    r.protocol = Some(p.to_vec());
    r.version = protocol_number(p);
    let (s, d) = past(past(b, white).1, |c| !white(c));
    if s.is_empty() { return r; }
    r.status = Some(s.to_vec());
    r.number = status_number(s);
    let (w, e) = past(d, |c| [32, 9, 10, 12, 13].contains(&c));
    if !w.is_empty() { r.message = Some(chomped(e).to_vec()); }
    r
}
