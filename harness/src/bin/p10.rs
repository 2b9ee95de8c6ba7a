//! P10: what is held back never exceeds the field limit.
use harness::gen::{self, Op};
use harness::*;
use htp::config::Config;
use htp::connection_parser::HtpStreamState as S;

fn held(d: &Driver) -> (usize, usize) {
    let h = |o: &Option<htp::bstr::Bstr>| o.as_ref().map_or(0, |x| x.len());
    (d.p.request_buf.len() + h(&d.p.request_header), d.p.response_buf.len() + h(&d.p.response_header))
}
fn cfg(l: usize) -> Config {
    let mut c = Config::default();
    c.set_field_limit(l);
    c
}
/// any traffic: never more than the limit
fn history(c: &mut Ctx, ops: &[Op], l: usize) {
    let mut key = gen::key(ops);
    key.extend(l.to_le_bytes());
    c.check("held data within the limit", &key, ops.len() > 2, &|| format!("limit {}: {}", l, gen::show_ops(ops)), || {
        let mut d = Driver::new(cfg(l));
        for (k, o) in ops.iter().enumerate() {
            d.op(o);
            let (a, b) = held(&d);
            if a > l || b > l { return Err(format!("after operation {} {} request bytes and {} response bytes are held", k, a, b)); }
        }
        Ok(())
    });
}
/// `before` brings the parser to the state, then `line` arrives in pieces and its end never: held exactly, or refused
/// once it is longer than the limit; then `end` completes it
fn partial(c: &mut Ctx, what: &str, response: bool, before: &[u8], line: &[u8], cuts: &[usize], end: &[u8], l: usize, whole_refused: bool, see: &dyn Fn(&Driver) -> Option<Vec<u8>>, want: &[u8]) {
    let mut key = before.to_vec();
    key.extend_from_slice(line);
    key.extend_from_slice(end);
    key.extend(l.to_le_bytes());
    for k in cuts { key.extend(k.to_le_bytes()); }
    c.check(what, &key, line.len() + end.len() > l || cuts.len() > 0, &|| format!("limit {}: after {} the data {} cut at {:?}, then {}", l, esc(before), esc(line), cuts, esc(end)), || {
        let mut d = Driver::new(cfg(l));
        if response {
            d.req(b"GET / HTTP/1.1\r\n\r\n");
            if !before.is_empty() { d.res(before); }
        } else if !before.is_empty() { d.req(before); }
        let mut n = 0;
        for x in chunks(line, cuts) {
            let st = if response { d.res(x) } else { d.req(x) };
            n += x.len();
            let (a, b) = held(&d);
            let h = if response { b } else { a };
            if h > l { return Err(format!("{} bytes are held", h)); }
            if n > l {
                if st != S::ERROR { return Err(format!("{} bytes without an end of line were accepted: {:?}", n, st)); }
                return Ok(());
            }
            if st == S::ERROR { return Err(format!("refused at {} bytes", n)); }
            if h != n { return Err(format!("{} of {} bytes are held", h, n)); }
        }
        let st = if response { d.res(end) } else { d.req(end) };
        let (a, b) = held(&d);
        if a > l || b > l { return Err(format!("{} {} bytes are held", a, b)); }
        let total = line.len() + end.iter().position(|x| *x == 10).map_or(end.len(), |p| p + 1);
        if total > l && whole_refused {
            if st != S::ERROR { return Err(format!("a line of {} bytes was accepted: {:?}", total, st)); }
        } else if total <= l {
            if st == S::ERROR { return Err(format!("a line of {} bytes was refused", total)); }
            let got = see(&d);
            if got.as_deref() != Some(want) { return Err(format!("read as {:?}, expected {}", got.as_deref().map(esc), esc(want))); }
        }
        Ok(())
    });
}
fn all(c: &mut Ctx, k: usize, cut: &dyn Fn(&mut Rng, usize) -> Vec<usize>, l: usize) {
    let fill = vec![b'a'; k];
    let mut line = b"GET /".to_vec();
    line.extend(&fill);
    line.extend(b" HTTP/1.1");
    let cuts = cut(&mut c.rng, line.len());
    for end in [&b"\r\n"[..], b"\n"] {
        partial(c, "request line", false, b"", &line, &cuts, end, l, true, &|d| d.tx(0).and_then(|t| t.request_line.as_ref()).map(|x| x.to_vec()), &line);
        partial(c, "second request line", false, b"GET / HTTP/1.1\r\n\r\n", &line, &cuts, end, l.max(16), true, &|d| d.tx(1).and_then(|t| t.request_line.as_ref()).map(|x| x.to_vec()), &line);
    }
    let mut line = b"HTTP/1.1 200 ".to_vec();
    line.extend(&fill);
    line.push(b'x');
    let cuts = cut(&mut c.rng, line.len());
    let mut w = line.clone();
    w.extend(b"\r\n");
    partial(c, "response line", true, b"", &line, &cuts, b"\r\nX", l.max(18), true, &|d| d.tx(0).and_then(|t| t.response_line.as_ref()).map(|x| x.to_vec()), &w);
    let mut line = b"N: v".to_vec();
    line.extend(&fill);
    let cuts = cut(&mut c.rng, line.len());
    for response in [false, true] {
        let first: &[u8] = if response { b"HTTP/1.1 200 OK\r\n" } else { b"GET / HTTP/1.1\r\n" };
        for more in [&b""[..], b"M: w\r\n", b"A: b\r\nC: d\n"] {
            let before = [first, more].concat();
            // the beginning of a field is held; a first byte is given so that the one before it is over
            let see = |d: &Driver| {
                let t = d.tx(0)?;
                let h = if response { &t.response_headers } else { &t.request_headers };
                h.get_nocase_nozero("n").map(|x| x.value.to_vec())
            };
            let lim = l.max(20);
            if more.is_empty() || line.len() > 1 {
                partial(c, if response { "response header" } else { "request header" }, response, &before, &line, &cuts, b"\r\n\r\n", lim, false, &see, &line[3..]);
            }
        }
    }
    let mut line = vec![b'0'; k];
    line.push(b'4');
    let cuts = cut(&mut c.rng, line.len());
    partial(c, "request chunk length", false, b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", &line, &cuts, b"\r\nbody", l.max(45), true, &|d| Some(d.tx(0)?.request_entity_len.to_string().into_bytes()), b"4");
    partial(c, "response chunk length", true, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", &line, &cuts, b"\r\nbody", l.max(45), true, &|d| Some(d.tx(0)?.response_entity_len.to_string().into_bytes()), b"4");
}
fn main() {
    run("lines, header fields and chunk length lines of every length around the limit in every two-piece cut, and seeded random traffic under small limits", |c| {
        c.phase("around the limit", 50);
        for l in [18usize, 20, 31, 48, 64] {
            for k in 0..70usize {
                if c.done() { break; }
                all(c, k, &|_, _| vec![], l);
                all(c, k, &|r, n| vec![r.below(n + 1)], l);
                all(c, k, &|_, n| (1..n.max(1)).collect(), l);
                all(c, k, &|_, n| vec![n / 2, n.saturating_sub(1)], l);
            }
        }
        c.phase("every cut", 20);
        for k in [5usize, 10, 14, 20] {
            for at in 0..k + 16 {
                for l in [16 + k, 15 + k, 14 + k, 13 + k, 17 + k, 20] {
                    if c.done() { break; }
                    all(c, k, &|_, n| vec![at.min(n)], l);
                }
            }
        }
        c.phase("traffic", 30);
        while !c.done() {
            let (g, r) = (c.rng.chance(1, 3), c.rng.chance(1, 4));
            let ops = gen::history(&mut c.rng, g, r);
            for _ in 0..3 {
                let l = 4 + c.rng.below(60);
                history(c, &ops, l);
            }
        }
    });
}
