//! The contracts that the proofs assume about dependencies (nom's leaf parsers and combinators, core's number parsing,
//! flate2's writers), compared with the real ones. Bounded; it says nothing about libhtp itself.
use harness::*;
use nom::bytes::{complete as bc, streaming as bs};
use nom::character::{complete as cc, streaming as cs};
use nom::combinator::{map, not, opt, peek};
use nom::error::Error as E;
use nom::{Err as NE, IResult};
use std::io::{Cursor, Write};

#[derive(PartialEq, Debug, Clone, Copy)]
enum K { Error, Incomplete }
type W = Result<usize, K>;
/// the length taken; the parts must be those of the input
fn got<'a>(i: &'a [u8], r: IResult<&'a [u8], &'a [u8], E<&'a [u8]>>) -> Result<W, String> {
    Ok(match r {
        Ok((rest, t)) => { if t != &i[..t.len()] || rest != &i[t.len()..] || rest.as_ptr() as usize != i.as_ptr() as usize + t.len() { return Err("the parts are not those of the input".into()); } Ok(t.len()) }
        Err(NE::Error(_)) => Err(K::Error),
        Err(NE::Incomplete(_)) => Err(K::Incomplete),
        Err(NE::Failure(_)) => return Err("Failure".into()),
    })
}
fn left<'a, T>(i: &'a [u8], r: &IResult<&'a [u8], T, E<&'a [u8]>>) -> Result<W, String> {
    Ok(match r { Ok((rest, _)) => { if *rest != &i[i.len() - rest.len()..] { return Err("the rest is not a suffix".into()); } Ok(i.len() - rest.len()) } Err(NE::Error(_)) => Err(K::Error), Err(NE::Incomplete(_)) => Err(K::Incomplete), Err(NE::Failure(_)) => return Err("Failure".into()) })
}
fn run_of(f: &dyn Fn(u8) -> bool, i: &[u8]) -> usize { i.iter().position(|c| !f(*c)).unwrap_or(i.len()) }
fn lower(c: u8) -> u8 { if c >= b'A' && c <= b'Z' { c + 32 } else { c } }
fn first(t: &[u8], i: &[u8]) -> Option<usize> { (0..i.len() + 1).find(|k| i[*k..].starts_with(t)) }
fn one(c: &mut Ctx, i: &[u8]) {
    let inp = || esc(i);
    macro_rules! same { ($n:expr, $got:expr, $want:expr) => { c.check($n, i, true, &inp, || { let g: W = $got?; Ctx::eq(g, $want) }); } }
    let preds: [(&str, fn(u8) -> bool); 5] = [("space", |c| c == b' ' || c == b'\t'), ("digit", |c| c.is_ascii_digit()), ("cr or blank", |c| c == 13 || c == 32 || c == 9), ("letter a", |c| c == b'a'), ("anything", |_| true)];
    for (_, f) in preds.iter() {
        let (n, m, l) = (run_of(f, i), run_of(&|c| !f(c), i), i.len());
        same!("complete take_while", got(i, bc::take_while(*f)(i)), Ok(n));
        same!("complete take_while1", got(i, bc::take_while1(*f)(i)), if n > 0 { Ok(n) } else { Err(K::Error) });
        same!("complete take_till", got(i, bc::take_till(*f)(i)), Ok(m));
        same!("streaming take_till", got(i, bs::take_till(*f)(i)), if m < l { Ok(m) } else { Err(K::Incomplete) });
        same!("streaming take_while", got(i, bs::take_while(*f)(i)), if n < l { Ok(n) } else { Err(K::Incomplete) });
        same!("streaming take_while1", got(i, bs::take_while1(*f)(i)), if n == l { Err(K::Incomplete) } else if n == 0 { Err(K::Error) } else { Ok(n) });
        for k in 1..5usize { same!("take_while_m_n", got(i, bc::take_while_m_n(k, k, *f)(i)), if n >= k { Ok(k) } else { Err(K::Error) }); }
    }
    for t in [&b"a"[..], b"\n", b"\r\n", b"aB", b"HTTP/", b"\0", b"  ", b"\n\r\n\r"] {
        let p = i.starts_with(t);
        let nc = i.len() >= t.len() && i.iter().zip(t).all(|(a, b)| lower(*a) == lower(*b));
        let q = t.starts_with(i) && i.len() < t.len();
        same!("complete tag", got(i, bc::tag(t)(i)), if p { Ok(t.len()) } else { Err(K::Error) });
        same!("streaming tag", got(i, bs::tag(t)(i)), if p { Ok(t.len()) } else if q { Err(K::Incomplete) } else { Err(K::Error) });
        same!("complete tag_no_case", got(i, bc::tag_no_case(t)(i)), if nc { Ok(t.len()) } else { Err(K::Error) });
        same!("complete take_until", got(i, bc::take_until(t)(i)), first(t, i).ok_or(K::Error));
        same!("streaming take_until", got(i, bs::take_until(t)(i)), first(t, i).ok_or(K::Incomplete));
        // the combinators
        same!("opt", { let r = opt(bs::tag::<_, _, E<&[u8]>>(t))(i); if let Ok((_, o)) = &r { if o.is_some() != p { return Err("some iff it matches".into()); } } left(i, &r) }, if p { Ok(t.len()) } else if q { Err(K::Incomplete) } else { Ok(0) });
        same!("not", left(i, &not(bs::tag::<_, _, E<&[u8]>>(t))(i)), if p { Err(K::Error) } else if q { Err(K::Incomplete) } else { Ok(0) });
        same!("peek", left(i, &peek(bs::tag::<_, _, E<&[u8]>>(t))(i)), if p { Ok(0) } else if q { Err(K::Incomplete) } else { Err(K::Error) });
        same!("map", { let r = map(bs::tag::<_, _, E<&[u8]>>(t), |x: &[u8]| x.len())(i); if let Ok((_, n)) = &r { if *n != t.len() { return Err("mapped value".into()); } } left(i, &r) }, if p { Ok(t.len()) } else if q { Err(K::Incomplete) } else { Err(K::Error) });
        same!("complete", left(i, &nom::combinator::complete(bs::tag::<_, _, E<&[u8]>>(t))(i)), if p { Ok(t.len()) } else { Err(K::Error) });
        for u in [&b"a"[..], b"aB\n", b"\n"] {
            let (pu, qu) = (i.starts_with(u), u.starts_with(i) && i.len() < u.len());
            same!("alt", left(i, &nom::branch::alt((bs::tag::<_, _, E<&[u8]>>(t), bs::tag(u)))(i)), if p { Ok(t.len()) } else if q { Err(K::Incomplete) } else if pu { Ok(u.len()) } else if qu { Err(K::Incomplete) } else { Err(K::Error) });
            let j = if p { &i[t.len()..] } else { i };
            let (pj, qj) = (j.starts_with(u), u.starts_with(j) && j.len() < u.len());
            same!("tuple", left(i, &nom::sequence::tuple((bs::tag::<_, _, E<&[u8]>>(t), bs::tag(u)))(i)), if p { if pj { Ok(t.len() + u.len()) } else if qj { Err(K::Incomplete) } else { Err(K::Error) } } else if q { Err(K::Incomplete) } else { Err(K::Error) });
        }
        let mut n = 0;
        while i[n..].starts_with(t) { n += t.len(); }
        same!("fold_many0", { let r = nom::multi::fold_many0(bc::tag::<_, _, E<&[u8]>>(t), || 0usize, |a, x: &[u8]| a + x.len())(i); if let Ok((_, m)) = &r { if *m != n { return Err("the folded value".into()); } } left(i, &r) }, Ok(n));
    }
    for a in [&b"a"[..], b"\r\n", b"/?#:", b"\xe9z"] {
        let n = run_of(&|c| !a.contains(&c), i);
        same!("complete is_not", got(i, bc::is_not(a)(i)), if n > 0 { Ok(n) } else { Err(K::Error) });
        same!("complete one_of", left(i, &cc::one_of::<_, _, E<&[u8]>>(a)(i)), if i.first().is_some_and(|c| a.contains(c)) { Ok(1) } else { Err(K::Error) });
    }
    for k in 0..4usize { same!("complete take", got(i, bc::take(k)(i)), if i.len() >= k { Ok(k) } else { Err(K::Error) }); }
    for ch in [':', '@', '%'] { same!("complete char", left(i, &cc::char::<_, E<&[u8]>>(ch)(i)), if i.first().is_some_and(|c| *c as u32 == ch as u32) { Ok(1) } else { Err(K::Error) }); }
    let d = run_of(&|c| c.is_ascii_digit(), i);
    same!("complete digit1", got(i, cc::digit1(i)), if d > 0 { Ok(d) } else { Err(K::Error) });
    let s = run_of(&|c| c == 32 || c == 9, i);
    same!("streaming space0", got(i, cs::space0(i)), if s < i.len() { Ok(s) } else { Err(K::Incomplete) });
    use nom::number::{complete as nc, streaming as ns};
    let num = |k: usize, e: K| if i.len() >= k { Ok(k) } else { Err(e) };
    same!("complete be_u8", { let r = nc::be_u8::<_, E<&[u8]>>(i); if let Ok((_, x)) = &r { if *x != i[0] { return Err("value".into()); } } left(i, &r) }, num(1, K::Error));
    same!("streaming le_u8", { let r = ns::le_u8::<_, E<&[u8]>>(i); if let Ok((_, x)) = &r { if *x != i[0] { return Err("value".into()); } } left(i, &r) }, num(1, K::Incomplete));
    same!("streaming le_u16", { let r = ns::le_u16::<_, E<&[u8]>>(i); if let Ok((_, x)) = &r { if *x as u32 != i[0] as u32 + 256 * i[1] as u32 { return Err("value".into()); } } left(i, &r) }, num(2, K::Incomplete));
    same!("streaming le_i32", left(i, &ns::le_i32::<_, E<&[u8]>>(i)), num(4, K::Incomplete));
    // core
    let utf = std::str::from_utf8(i);
    if i.iter().all(|c| *c < 128) { same!("ASCII is UTF-8", Ok::<W, String>(utf.map(|s| s.len()).map_err(|_| K::Error)), Ok(i.len())); }
    if let Ok(st) = utf {
        let t = if i.len() > 1 && i[0] == b'+' { &i[1..] } else { i };
        for radix in [10u32, 16] {
            let v = t.iter().try_fold(0u128, |a, c| (*c as char).to_digit(radix).filter(|_| *c < 128).map(|d| (a * radix as u128 + d as u128).min(1 << 100))).filter(|_| !t.is_empty());
            let w = |max: u128| v.filter(|x| *x <= max);
            let inp = || esc(i);
            c.check("u64::from_str_radix", i, true, &inp, || Ctx::eq(u64::from_str_radix(st, radix).ok().map(|x| x as u128), w(u64::MAX as u128)));
            if radix == 10 {
                c.check("parse u64", i, true, &inp, || Ctx::eq(st.parse::<u64>().ok().map(|x| x as u128), w(u64::MAX as u128)));
                c.check("parse u16", i, true, &inp, || Ctx::eq(st.parse::<u16>().ok().map(|x| x as u128), w(u16::MAX as u128)));
            }
        }
    }
}
/// a decoder only appends to its buffer, takes at most what it is given, and reports WriteZero only for a full buffer
fn decoder(c: &mut Ctx, d: &[u8], cap: usize, which: u8) {
    c.check("flate2's writers append to their buffer", d, true, &|| format!("{} into {} bytes, decoder {}", esc(&d[..d.len().min(200)]), cap, which), || {
        enum D { A(flate2::write::DeflateDecoder<Cursor<Box<[u8]>>>), Z(flate2::write::ZlibDecoder<Cursor<Box<[u8]>>>) }
        let buf = Cursor::new(vec![0u8; cap].into_boxed_slice());
        let mut w = if which == 0 { D::A(flate2::write::DeflateDecoder::new(buf)) } else { D::Z(flate2::write::ZlibDecoder::new(buf)) };
        let held = |w: &mut D| { let c = match w { D::A(x) => x.get_mut(), D::Z(x) => x.get_mut() }; c.get_ref()[..c.position() as usize].to_vec() };
        let (mut at, mut old) = (0, vec![]);
        for step in 0..200 {
            let end = (at + 1 + step % 7 * 5).min(d.len());
            let n = match &mut w { D::A(x) => x.write(&d[at..end]), D::Z(x) => x.write(&d[at..end]) };
            let new = held(&mut w);
            if !new.starts_with(&old) { return Err("what was in the buffer has changed".into()); }
            old = new;
            match n { Ok(n) => { if n > end - at { return Err("took more than it was given".into()); } at += n; if n == 0 { break; } }
                Err(e) if e.kind() == std::io::ErrorKind::WriteZero => { if old.len() < cap { return Err(format!("WriteZero with {} of {} bytes used", old.len(), cap)); } match &mut w { D::A(x) => x.get_mut().set_position(0), D::Z(x) => x.get_mut().set_position(0) } old.clear(); }
                Err(_) => break }
            if step % 5 == 4 { let _ = match &mut w { D::A(x) => x.flush(), D::Z(x) => x.flush() }; let new = held(&mut w); if !new.starts_with(&old) { return Err("what was in the buffer has changed by flush".into()); } old = new; }
        }
        Ok(())
    });
}
fn main() {
    run("the dependency is called", |c| {
        c.phase("enumeration", 50);
        for n in 0..6 { all_strings(b"aB \n\r0", n, &mut |s| { one(c, s); !c.done() }); }
        c.phase("decoders", 20);
        let mut n = 0;
        while !c.done() && n < 3000 {
            n += 1;
            let mut p = c.rng.bytes(b"abc", 400);
            if c.rng.chance(1, 3) { p = vec![b'x'; 3000]; }
            let z = c.rng.chance(1, 2);
            let mut d = if z { let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(6)); e.write_all(&p).unwrap(); e.finish().unwrap() } else { let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(6)); e.write_all(&p).unwrap(); e.finish().unwrap() };
            if c.rng.chance(1, 3) && !d.is_empty() { let k = c.rng.below(d.len()); d[k] ^= 1 << c.rng.below(8); }
            let cap = *c.rng.pick(&[1usize, 10, 64, 8192]);
            decoder(c, &d, cap, z as u8);
        }
        c.phase("random", 30);
        while !c.done() {
            let s = match c.rng.below(4) { 0 => c.rng.bytes(b"0123456789", 22), 1 => c.rng.bytes(b"+0123456789abcdefAF", 20), 2 => c.rng.bytes(b"HTTP/1.0 \t\r\n:", 16), _ => { let n = c.rng.below(8); (0..n).map(|_| c.rng.next() as u8).collect() } };
            one(c, &s);
        }
    });
}
