//! P15: a header block is split into exactly its fields.
use harness::*;
use htp::config::Config;
use htp::util::HtpFlags as F;

/// one field as it is written: its first line, its continuation lines (white space byte, text), and whether its lines end in CR LF
#[derive(Clone)]
struct L { first: Vec<u8>, conts: Vec<(u8, Vec<u8>)>, crlf: bool }
/// name, value, flags
type H = (Vec<u8>, Vec<u8>, u64);
fn sp(c: u8) -> bool { matches!(c, b' ' | b'\t' | b'\r' | b'\n' | 11 | 12) }
fn trim(s: &[u8]) -> Vec<u8> {
    let a = s.iter().position(|c| !sp(*c)).unwrap_or(s.len());
    let b = s.iter().rposition(|c| !sp(*c)).map_or(a, |x| x + 1);
    s[a..b].to_vec()
}
fn blank(c: u8) -> bool { c == b' ' || c == b'\t' }
fn token(c: u8) -> bool { c > 32 && c < 127 && !b"()<>@,;:\\\"/[]?={} \t".contains(&c) }
/// white space, a token, white space, a colon
fn fieldlike(s: &[u8]) -> bool {
    let n = s.iter().take_while(|c| blank(**c)).count();
    let m = s[n..].iter().take_while(|c| token(**c)).count();
    let k = s[n + m..].iter().take_while(|c| blank(**c)).count();
    m > 0 && s.get(n + m + k) == Some(&b':')
}
/// neither a token nor one with white space around it
fn nontoken(s: &[u8]) -> bool {
    let n = s.iter().take_while(|c| blank(**c)).count();
    let m = s[n..].iter().take_while(|c| token(**c)).count();
    let k = s[n + m..].iter().take_while(|c| blank(**c)).count();
    n + m + k < s.len()
}
/// the fields a block stands for
fn fields(ls: &[L], response: bool) -> Vec<H> {
    let mut out = vec![];
    let mut todo: Vec<(Vec<u8>, Vec<(u8, Vec<u8>)>)> = vec![];
    for l in ls {
        // in a response a continuation that looks like a field of its own is one
        let mut cur = (l.first.clone(), vec![]);
        for (w, t) in &l.conts {
            if response && fieldlike(t) { todo.push(cur); cur = (t.clone(), vec![]); } else { cur.1.push((*w, t.clone())); }
        }
        todo.push(cur);
    }
    for (first, conts) in todo {
        let mut fl = 0;
        let colon = first.iter().position(|c| *c == b':');
        let (name, mut val) = match colon { Some(k) => (first[..k].to_vec(), first[k + 1..].iter().copied().skip_while(|c| blank(*c)).collect::<Vec<u8>>()), None => (vec![], first.clone()) };
        match colon {
            None => fl |= F::FIELD_UNPARSEABLE | if response { F::FIELD_INVALID } else { 0 },
            Some(_) if name.is_empty() => fl |= F::FIELD_INVALID,
            Some(_) => {
                if blank(name[0]) { fl |= F::INVALID_FOLDING | if response { F::FIELD_INVALID } else { 0 } }
                if blank(*name.last().unwrap()) || nontoken(&name) { fl |= F::FIELD_INVALID }
            }
        }
        for (w, t) in &conts {
            if !val.is_empty() { val.push(*w) }
            val.extend_from_slice(t);
        }
        if !conts.is_empty() { fl |= F::FIELD_FOLDED }
        out.push((trim(&name), trim(&val), fl));
    }
    out
}
/// one entry per name; repetitions joined to the first, 64 of them beyond the second occurrences
fn table(fs: &[H]) -> Vec<H> {
    let mut t: Vec<H> = vec![];
    let mut reps = 0;
    for f in fs {
        match t.iter_mut().find(|e| e.0.eq_ignore_ascii_case(&f.0)) {
            None => t.push(f.clone()),
            Some(e) => {
                if e.2 & F::FIELD_REPEATED != 0 { if reps == 64 { continue } reps += 1 }
                e.2 |= F::FIELD_REPEATED;
                if !f.0.eq_ignore_ascii_case(b"content-length") { e.1.extend_from_slice(b", "); e.1.extend_from_slice(&f.1) }
            }
        }
    }
    t
}
fn wire(ls: &[L], end: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for l in ls {
        let e: &[u8] = if l.crlf { b"\r\n" } else { b"\n" };
        v.extend_from_slice(&l.first);
        v.extend_from_slice(e);
        for (w, t) in &l.conts { v.push(*w); v.extend_from_slice(t); v.extend_from_slice(e) }
    }
    v.extend_from_slice(end);
    v
}
fn got<'a>(h: impl Iterator<Item = &'a htp::transaction::Header>) -> Vec<(String, String, u64)> { h.map(|h| (esc(h.name.as_slice()), esc(h.value.as_slice()), h.flags)).collect() }
fn judge(c: &mut Ctx, ls: &[L], end: &[u8], response: bool, cuts: &[usize]) {
    let b = wire(ls, end);
    let head: &[u8] = if response { b"HTTP/1.1 304 N\r\n" } else { b"GET /1 HTTP/1.1\r\n" };
    let next: &[u8] = if response { b"HTTP/1.1 304 SECOND\r\n\r\n" } else { b"GET /second HTTP/1.1\r\n\r\n" };
    let all: Vec<u8> = [head, &b, next].concat();
    let cuts: Vec<usize> = cuts.iter().map(|x| x % all.len()).collect();
    let mut cuts = cuts; cuts.sort(); cuts.dedup();
    let mut key = all.clone();
    key.extend(cuts.iter().map(|x| *x as u8));
    c.check(if response { "the headers of a response" } else { "the headers of a request" }, &key, !ls.is_empty(), &|| format!("{} cut at {:?}", esc(&all), cuts), || {
        let mut d = Driver::new(Config::default());
        if response { d.req(b"GET /1 HTTP/1.1\r\nHost: h\r\n\r\nGET /2 HTTP/1.1\r\nHost: h\r\n\r\n"); d.res_chunks(&all, &cuts); } else { d.req_chunks(&all, &cuts); }
        let fs = fields(ls, response);
        let want: Vec<(String, String, u64)> = table(&fs).iter().map(|h| (esc(&h.0), esc(&h.1), h.2)).collect();
        let t = d.tx(0).ok_or("no transaction")?;
        Ctx::eq(got((if response { &t.response_headers } else { &t.request_headers }).into_iter()), want)?;
        let mask = F::FIELD_UNPARSEABLE | F::FIELD_INVALID | F::INVALID_FOLDING;
        // in a response FIELD_INVALID of a field without a colon or with leading white space is the field's alone
        let marks: u64 = fs.iter().map(|f| if response && f.2 & (F::FIELD_UNPARSEABLE | F::INVALID_FOLDING) != 0 { f.2 & !F::FIELD_INVALID } else { f.2 } & mask).fold(0, |a, b| a | b);
        let loose = if response && fs.iter().any(|f| f.2 & (F::FIELD_UNPARSEABLE | F::INVALID_FOLDING) != 0) { F::FIELD_INVALID } else { 0 };
        if t.flags & mask & !loose != marks & !loose { return Err(format!("flags of the transaction {:x}, those of its fields {:x}", t.flags & mask, marks)); }
        // the block ended at its empty line: what follows it is the next message
        let u = d.tx(1).ok_or("no second transaction: the header block did not end where it ends")?;
        if response { Ctx::eq(u.response_message.as_ref().map(|x| esc(x.as_slice())), Some(esc(b"SECOND"))) } else { Ctx::eq(u.request_uri.as_ref().map(|x| esc(x.as_slice())), Some(esc(b"/second"))) }
    });
}
const FIRST: [&[u8]; 34] = [b"A: b", b"A:b", b"A:", b"A: ", b"A :b", b"A\t: b", b"a:  b  ", b"A:\tb\t", b"A: b: c", b"A:b:c:", b":v", b": v", b"::v", b"nocolon", b"no colon", b"n(o: v", b"A B: v", b"A\0: v", b"A: v\0w", b"\x80:v", b"A,B:v", b"Content-Length: 0", b"content-length: 00", b"CONTENT-LENGTH:0", b"X-Long-Header-Name: some value, with: things; in=it", b"B: \x0b\x0cv\x0c", b"B: \"q\"", b"x:y ", b"x", b"=x", b"A:=:", b"Via: 1", b"via: 2", b"A:\0"];
const CONT: [(u8, &[u8]); 12] = [(b' ', b"c"), (b'\t', b"c"), (b' ', b" c"), (b' ', b"c d "), (b'\t', b"\tc"), (b' ', b"c: d"), (b' ', b"D:e"), (b'\t', b"\tD : e"), (b' ', b"a b: c"), (b' ', b"(x): y"), (b' ', b"=\0"), (b' ', b":z")];
fn l(f: &[u8], cs: &[(u8, &[u8])], crlf: bool) -> L {
    // a first line without a colon may only be continued with a tab: after LF and a space the name itself goes on (src/headers.rs, name)
    let bare = !f.contains(&b':');
    L { first: f.to_vec(), conts: cs.iter().filter(|c| !bare || c.0 == b'\t').map(|c| (c.0, c.1.to_vec())).collect(), crlf }
}
/// in a response a continuation that is a field of its own is followed by its continuations
fn fine(ls: &[L]) -> bool { ls.iter().all(|l| l.conts.iter().all(|c| !c.1.is_empty())) }
fn main() {
    run("every block has its fields read one by one", |c| {
        let ends: [&[u8]; 2] = [b"\r\n", b"\n"];
        c.phase("one field and its neighbours", 30);
        for response in [false, true] { for crlf in [true, false] { for end in ends {
            for f in FIRST {
                judge(c, &[l(f, &[], crlf)], end, response, &[]);
                judge(c, &[l(b"P: 1", &[], crlf), l(f, &[], crlf), l(b"Q: 2", &[], crlf)], end, response, &[]);
                for x in CONT {
                    judge(c, &[l(f, &[x], crlf), l(b"Q: 2", &[], crlf)], end, response, &[]);
                    judge(c, &[l(b"P: 1", &[], true), l(f, &[x], crlf)], end, response, &[]);
                }
            }
        } } }
        c.phase("white space before the first name, a first field of many shapes", 5);
        for response in [false] { for f in FIRST { for w in [b" ".as_slice(), b"  ", b"\t"] {
            if !f.contains(&b':') { continue }
            judge(c, &[l(&[w, f].concat(), &[], true), l(b"Q: 2", &[], true)], b"\r\n", response, &[]);
        } } }
        c.phase("repetitions", 10);
        for response in [false, true] { for n in [2usize, 3, 4, 63, 64, 65, 66, 67, 68, 100, 130] { for name in ["A", "Content-Length", "Via"] {
            let mut ls: Vec<L> = (0..n).map(|i| l(format!("{}: {}", if i % 2 == 0 { name.to_string() } else { name.to_lowercase() }, if name == "Content-Length" { 0 } else { i }).as_bytes(), &[], true)).collect();
            judge(c, &ls, b"\r\n", response, &[]);
            // the count is of all names together
            for k in (0..ls.len()).rev().step_by(3) { ls.insert(k, l(format!("Z: {}", k).as_bytes(), &[], true)) }
            judge(c, &ls, b"\r\n", response, &[]);
        } } }
        c.phase("pairs of continuation lines", 15);
        for response in [false, true] { for f in [b"A: b".as_slice(), b"A:", b"A: ", b": v", b"n(o: v"] { for x in CONT { for y in CONT { judge(c, &[l(f, &[x, y], true), l(b"Q: 2", &[], true)], b"\r\n", response, &[]); } } } }
        c.phase("random blocks", 100);
        while !c.done() {
            let response = c.rng.chance(1, 2);
            let n = 1 + c.rng.below(6);
            let crlf = c.rng.chance(3, 4);
            let mut ls = vec![];
            for _ in 0..n {
                let f: Vec<u8> = if c.rng.chance(1, 2) { c.rng.pick(&FIRST).to_vec() } else {
                    let mut f: Vec<u8> = c.rng.bytes(b"AaB-:: \t(=,\0\x80/x", 8).into_iter().filter(|c| *c != 10 && *c != 13).collect();
                    if f.first().map_or(true, |c| blank(*c) || *c == 0) { f.insert(0, b'k') }
                    f
                };
                let k = if c.rng.chance(1, 3) { 1 + c.rng.below(3) } else { 0 };
                let cs: Vec<(u8, &[u8])> = (0..k).map(|_| *c.rng.pick(&CONT)).collect();
                let e = if c.rng.chance(1, 10) { !crlf } else { crlf };
                ls.push(l(&f, &cs, e));
            }
            if !fine(&ls) { continue }
            let cuts: Vec<usize> = if c.rng.chance(1, 2) { vec![] } else { (0..1 + c.rng.below(4)).map(|_| c.rng.below(4096)).collect() };
            let end = *c.rng.pick(&ends);
            judge(c, &ls, end, response, &cuts);
        }
    });
}
