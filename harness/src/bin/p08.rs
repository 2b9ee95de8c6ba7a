//! P08: line and token primitives.
use harness::*;
use htp::config::HtpServerPersonality as SP;
use htp::util::*;

fn sp(c: u8) -> bool { [32, 9, 13, 10, 11, 12].contains(&c) }
fn token(c: u8) -> bool { c > 32 && c < 127 && !b"()<>@,;:\\\"/[]?={} \t".contains(&c) }
fn strip(s: &[u8]) -> &[u8] {
    let a = s.iter().position(|c| !sp(*c)).unwrap_or(s.len());
    let b = s.iter().rposition(|c| !sp(*c)).map(|x| x + 1).unwrap_or(a);
    &s[a..b.max(a)]
}
fn span(s: &[u8], f: impl Fn(u8) -> bool) -> (&[u8], &[u8]) {
    let n = s.iter().position(|c| !f(*c)).unwrap_or(s.len());
    (&s[n..], &s[..n])
}
fn eol(s: &[u8]) -> Option<(usize, &'static str)> {
    let n = s.iter().position(|c| *c == 13 || *c == 10)?;
    let r = &s[n..];
    match (r.first(), r.get(1), r.get(2)) {
        (Some(13), Some(10), _) => Some((n + 2, "CRLF")),
        (Some(13), Some(_), _) => Some((n + 1, "CR")),
        (Some(10), Some(13), Some(10)) => Some((n + 1, "LF")),
        (Some(10), Some(13), Some(_)) => Some((n + 2, "LFCR")),
        (Some(10), Some(13), None) => None,
        (Some(10), Some(_), _) => Some((n + 1, "LF")),
        _ => None,
    }
}
fn empty_line(s: &[u8]) -> bool { s == b"\r" || s == b"\n" || s == b"\r\n" }

fn one(c: &mut Ctx, s: &[u8]) {
    let nt = s.len() > 1;
    let inp = || esc(s);
    c.check("chomp", s, nt, &inp, || {
        let n = s.iter().rposition(|c| *c != 13 && *c != 10).map(|x| x + 1).unwrap_or(0);
        Ctx::eq(chomp(s), &s[..n])
    });
    c.check("trimmed", s, nt, &inp, || Ctx::eq(trimmed(s), strip(s)));
    for (name, got, want) in [
        ("take_is_space", take_is_space as fn(&[u8]) -> nom::IResult<&[u8], &[u8]>, span(s, sp)),
        ("take_not_is_space", take_not_is_space, span(s, |c| !sp(c))),
        ("take_until_null", take_until_null, span(s, |c| c != 0)),
        ("take_is_space_or_null", take_is_space_or_null, span(s, |c| sp(c) || c == 0)),
        ("nom_take_is_space", nom_take_is_space, span(s, |c| c == 32 || c == 9)),
        ("take_chunked_ctl_chars", take_chunked_ctl_chars, span(s, sp)),
    ] {
        c.check(name, s, nt, &inp, || match got(s) {
            Ok(r) => Ctx::eq(r, want),
            Err(e) => Err(format!("error {:?}", e)),
        });
    }
    c.check("take_ascii_whitespace", s, nt, &inp, || match take_ascii_whitespace()(s) {
        Ok(r) => Ctx::eq(r, span(s, |c| c == 32 || c == 9 || c == 10 || c == 12 || c == 13)),
        Err(e) => Err(format!("error {:?}", e)),
    });
    c.check("line up to LF", s, nt, &inp, || {
        let want = s.iter().position(|c| *c == 10).map(|n| (&s[n + 1..], &s[..n + 1]));
        Ctx::eq(take_till_lf(s).ok(), want)
    });
    c.check("line up to LF or NUL", s, nt, &inp, || {
        let want = s.iter().position(|c| *c == 10 || *c == 0).map(|n| (&s[n + 1..], &s[..n + 1]));
        Ctx::eq(take_till_lf_null(s).ok(), want)
    });
    c.check("line up to EOL", s, nt, &inp, || {
        let got = take_till_eol(s).ok().map(|(r, (l, e))| (r, l, format!("{:?}", e)));
        let want = eol(s).map(|(n, e)| (&s[n..], &s[..n], e.to_string()));
        Ctx::eq(got, want)
    });
    for p in [SP::MINIMAL, SP::GENERIC, SP::IDS, SP::IIS_5_0, SP::APACHE_2, SP::IIS_7_5, SP::IIS_5_1] {
        c.check("ignorable line", s, nt, &|| format!("{:?} {}", p, esc(s)), || {
            let want = (p == SP::IIS_5_0 && s.iter().all(|c| sp(*c))) || empty_line(s);
            Ctx::eq(is_line_ignorable(p, s), want)
        });
    }
    c.check("status line or body", s, nt, &inp, || {
        let (r, _) = span(s, |c| sp(c) || c == 0);
        let http = r.len() >= 4 && r[..4].eq_ignore_ascii_case(b"http");
        Ctx::eq(treat_response_line_as_body(s), !http)
    });
    c.check("chunk length line starts with hex", s, nt, &inp, || {
        let (r, _) = span(s, sp);
        Ctx::eq(is_valid_chunked_length_data(s), r.is_empty() || r[0].is_ascii_hexdigit())
    });
    c.check("blank chunk line", s, nt, &inp, || Ctx::eq(is_chunked_ctl_line(s), s.iter().all(|c| sp(*c))));
    for rev in [false, true] {
        for trim in [false, true] {
            c.check("split on a byte", s, nt, &|| format!("reverse={} trim={} {}", rev, trim, esc(s)), || {
                let p = if rev { s.iter().rposition(|c| *c == b':' || *c == b' ') } else { s.iter().position(|c| *c == b':' || *c == b' ') };
                let (a, b) = match p {
                    Some(n) => (&s[..n], &s[n + 1..]),
                    None => (s, &s[s.len()..]),
                };
                let want = if trim { (strip(a), strip(b)) } else { (a, b) };
                Ctx::eq(split_on_predicate(s, rev, trim, |c| *c == b':' || *c == b' '), want)
            });
        }
    }
}

fn main() {
    run("every string over a 9-byte alphabet up to the phase length, every single byte, every two-byte string, then seeded random strings; non-trivial = length > 1", |c| {
        c.phase("bytes", 100);
        for b in 0..=255u8 {
            c.check("is_token", &[b], true, &|| format!("{:#x}", b), || Ctx::eq(is_token(b), token(b)));
            c.check("is_space", &[b], true, &|| format!("{:#x}", b), || Ctx::eq(is_space(b), sp(b)));
            for d in 0..=255u8 {
                one(c, &[b, d]);
            }
        }
        c.phase("exhaustive", 60);
        let n = if c.thorough { 7 } else { 5 };
        all_strings(b"\r\n \t:a0\0;", n, &mut |s| { one(c, s); !c.done() });
        all_strings(b"\r\n\x0b\x0cxhH", n, &mut |s| { one(c, s); !c.done() });
        c.phase("random", 40);
        while !c.done() {
            let s = c.rng.pieces(&[b"\r", b"\n", b"\r\n", b"\n\r", b" ", b"\t", b":", b"\0", b"HTTP/1.1", b"hTtp", b"http", b"abc", b"0f", b";", b"G", b"\x0b", b"\x0c"], 12);
            one(c, &s);
        }
    });
}
