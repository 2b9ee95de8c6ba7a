//! P06: comparison, search and lookup by name.
use harness::*;
use htp::bstr::Bstr;
use htp::table::Table;
use htp::transaction::{Header, Headers};
use std::cmp::Ordering;

fn low(s: &[u8]) -> Vec<u8> { s.to_ascii_lowercase() }
fn nozero(s: &[u8]) -> Vec<u8> { s.iter().filter(|c| **c != 0).cloned().collect() }
fn ws_at(s: &[u8]) -> usize {
    // length of the Unicode white space character s starts with
    match s {
        [0x09..=0x0d | 0x20, ..] => 1,
        [0xc2, 0x85 | 0xa0, ..] => 2,
        [0xe1, 0x9a, 0x80, ..] | [0xe2, 0x80, 0x80..=0x8a | 0xa8 | 0xa9 | 0xaf, ..] | [0xe2, 0x81, 0x9f, ..] | [0xe3, 0x80, 0x80, ..] => 3,
        _ => 0,
    }
}
fn utrim(s: &[u8]) -> &[u8] {
    let mut s = s;
    loop { let n = ws_at(s); if n == 0 { break; } s = &s[n..]; }
    loop {
        let mut cut = 0;
        for n in 1..=3 { if s.len() >= n && ws_at(&s[s.len() - n..]) == n { cut = n; break; } }
        if cut == 0 { break; }
        s = &s[..s.len() - cut];
    }
    s
}
fn atrim(s: &[u8]) -> &[u8] {
    let w = |c: &u8| c.is_ascii_whitespace();
    let a = s.iter().position(|c| !w(c)).unwrap_or(s.len());
    let b = s.iter().rposition(|c| !w(c)).map(|x| x + 1).unwrap_or(a);
    &s[a..b]
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> { (0..=h.len()).find(|k| h[*k..].starts_with(n)) }
fn two(c: &mut Ctx, a: &[u8], b: &[u8]) {
    let nt = !a.is_empty() && !b.is_empty();
    let mut key = a.to_vec(); key.push(0xfe); key.extend_from_slice(b);
    c.check("comparison and search", &key, nt, &|| format!("{} and {}", esc(a), esc(b)), || {
        let s = Bstr::from(a);
        let eq = |n: &str, x: Ordering, y: Ordering| if x == y { Ok(()) } else { Err(format!("{}: got {:?}, the contract says {:?}", n, x, y)) };
        let bq = |n: &str, x: bool, y: bool| if x == y { Ok(()) } else { Err(format!("{}: got {}, the contract says {}", n, x, y)) };
        let iq = |n: &str, x: Option<usize>, y: Option<usize>| if x == y { Ok(()) } else { Err(format!("{}: got {:?}, the contract says {:?}", n, x, y)) };
        eq("cmp_slice", s.cmp_slice(b), a.cmp(b))?;
        bq("eq_slice", s.eq_slice(b), a == b)?;
        eq("cmp_nocase", s.cmp_nocase(b), low(a).cmp(&low(b)))?;
        bq("eq_nocase", s.eq_nocase(b), low(a) == low(b))?;
        eq("cmp_nocase_trimmed", s.cmp_nocase_trimmed(b), low(atrim(a)).cmp(&low(b)))?;
        eq("cmp_nocase_nozero", s.cmp_nocase_nozero(b), low(&nozero(a)).cmp(&low(b)))?;
        bq("eq_nocase_nozero", s.eq_nocase_nozero(b), low(&nozero(a)) == low(b))?;
        eq("cmp_nocase_nozero_trimmed", s.cmp_nocase_nozero_trimmed(b), low(&nozero(utrim(a))).cmp(&low(b)))?;
        bq("starts_with", s.starts_with(b), a.starts_with(b))?;
        bq("starts_with_nocase", s.starts_with_nocase(b), low(a).starts_with(&low(b)))?;
        iq("index_of", s.index_of(b), find(a, b))?;
        let la = low(a);
        iq("index_of_nocase", s.index_of_nocase(b), if b.is_empty() { None } else { find(&la, &low(b)) })?;
        let z = if b.is_empty() { None } else { (0..a.len()).find(|k| a[*k] != 0 && low(&nozero(&a[*k..])).starts_with(&low(b))) };
        iq("index_of_nocase_nozero", s.index_of_nocase_nozero(b), z)?;
        let mut t = s.clone();
        t.add(b);
        let mut w = a.to_vec(); w.extend_from_slice(b);
        if t.as_slice() != &w[..] { return Err(format!("add: {}", esc(t.as_slice()))); }
        let mut t = Bstr::with_capacity(8);
        t.add_noex(a);
        let cap = t.capacity();
        let mut w: Vec<u8> = a.iter().take(cap).cloned().collect();
        t.add_noex(b);
        w.extend(b.iter().take(cap - w.len()));
        if t.as_slice() != &w[..] { return Err(format!("add_noex: {}, the contract says {}", esc(t.as_slice()), esc(&w))); }
        Ok(())
    });
}
fn lookup(c: &mut Ctx, names: &[Vec<u8>], key: &[u8]) {
    let show = || format!("{} among [{}]", esc(key), names.iter().map(|n| esc(n)).collect::<Vec<_>>().join(", "));
    let mut k: Vec<u8> = names.concat(); k.extend_from_slice(key);
    c.check("lookup by name", &k, names.len() > 1, &show, || {
        let mut t: Table<usize> = Table::with_capacity(2);
        let mut h = Headers::with_capacity(2);
        for (i, n) in names.iter().enumerate() {
            t.add(Bstr::from(n.as_slice()), i);
            h.elements.push(Header::new(Bstr::from(n.as_slice()), Bstr::from(i.to_string().as_str())));
        }
        let a = names.iter().position(|n| low(atrim(n)) == low(key));
        let z = names.iter().position(|n| low(&nozero(utrim(n))) == low(key));
        let num = |x: Option<&Header>| x.map(|h| String::from_utf8_lossy(h.value.as_slice()).parse::<usize>().unwrap());
        Ctx::eq(("Table::get_nocase", t.get_nocase(key).map(|x| x.1)), ("Table::get_nocase", a))?;
        Ctx::eq(("Headers::get_nocase", num(h.get_nocase(key))), ("Headers::get_nocase", a))?;
        Ctx::eq(("Headers::get_nocase_nozero", num(h.get_nocase_nozero(key))), ("Headers::get_nocase_nozero", z))?;
        let m = num(h.get_nocase_mut(key).map(|x| &*x));
        Ctx::eq(("Headers::get_nocase_mut", m), ("Headers::get_nocase_mut", a))?;
        let m = num(h.get_nocase_nozero_mut(key).map(|x| &*x));
        Ctx::eq(("Headers::get_nocase_nozero_mut", m), ("Headers::get_nocase_nozero_mut", z))?;
        Ctx::eq((t.size(), h.size()), (names.len(), names.len()))?;
        for i in 0..names.len() {
            if t.get(i).map(|x| (x.0.as_slice().to_vec(), x.1)) != Some((names[i].clone(), i)) || t[i].1 != i { return Err(format!("entry {}", i)); }
        }
        if t.get(names.len()).is_some() { return Err("an entry too many".into()); }
        Ok(())
    });
}
fn main() {
    run("both strings are non-empty, or several names are stored", |c| {
        c.phase("all pairs over a A NUL space, up to length 5 and 2", 45);
        all_strings(b"aAb\0 ", 5, &mut |s| { all_strings(b"aAb\0 ", 2, &mut |t| { two(c, s, t); true }); !c.done() });
        c.phase("random", 100);
        let alpha = b"aAbBzZ@[`{\0\0 \t\x0b\x0c\r\n\xc2\x85\xa0\xe2\x80\x81\xe3\xc1\xe1-_";
        let mut r = c.rng.clone();
        while !c.done() {
            let a = r.bytes(alpha, 12);
            let b = match r.below(5) {
                0 => r.bytes(alpha, 4),
                1 => { let mut b = nozero(&a); for x in b.iter_mut() { if r.chance(1, 2) { *x ^= 0x20 & if x.is_ascii_alphabetic() { 0x20 } else { 0 }; } } b }
                2 => { let k = r.below(a.len() + 1); let l = r.below(a.len() - k + 1); low(&nozero(&a[k..k + l])) }
                3 => { let k = r.below(a.len() + 1); a[..k].to_vec() }
                _ => { let mut b = a.clone(); if !b.is_empty() { let k = r.below(b.len()); b[k] = *r.pick(alpha); } b }
            };
            two(c, &a, &b);
            let names: Vec<Vec<u8>> = (0..r.below(6)).map(|_| {
                let mut n = if r.chance(1, 2) { b.clone() } else { r.bytes(b"aAbB\0", 3) };
                if r.chance(1, 3) { let k = r.below(n.len() + 1); n.insert(k, 0); }
                if r.chance(1, 3) { n.insert(0, *r.pick(b" \t\x0b")); }
                if r.chance(1, 3) { n.push(*r.pick(b" \t\x0b\n")); }
                if r.chance(1, 8) { n.extend_from_slice(b"\xc2\xa0"); }
                if r.chance(1, 3) { for x in n.iter_mut() { x.make_ascii_uppercase(); } }
                n
            }).collect();
            lookup(c, &names, &b);
            let k = r.bytes(b"aAbB", 3);
            lookup(c, &names, &k);
        }
    });
}
