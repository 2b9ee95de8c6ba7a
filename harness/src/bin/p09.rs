//! P09: transactions are tracked one by one and retired only when complete.
use harness::gen::{self, Op};
use harness::rec::{self, K};
use harness::*;
use htp::config::Config;
use htp::connection_parser::ConnectionParser;
use htp::transaction::{HtpRequestProgress, HtpResponseProgress};
use htp::transactions::Transactions;
use std::collections::HashSet;
use std::rc::Rc;

fn history(c: &mut Ctx, ops: &[Op], auto: bool, flush: bool, max: u32) {
    let mut key = gen::key(ops);
    key.extend([auto as u8, flush as u8, max as u8]);
    c.check("a history of a connection", &key, ops.len() > 2, &|| format!("auto_destroy {} flush_incomplete {} max_tx {}: {}", auto, flush, max, gen::show_ops(ops)), || {
        let mut cfg = Config::default();
        cfg.set_tx_auto_destroy(auto);
        cfg.set_flush_incomplete(flush);
        cfg.max_tx = max;
        rec::register(&mut cfg);
        rec::clear();
        let mut d = Driver::new(cfg);
        let mut seen: HashSet<usize> = HashSet::new();
        let mut removed: HashSet<usize> = HashSet::new();
        let (mut rq, mut rs) = (0, 0);
        let (mut nreq, mut nres, mut ninv) = (0usize, 0usize, 0usize);
        let mut done: HashSet<usize> = HashSet::new();
        let (mut lastq, mut lasts) = (None, None);
        let mut from = 0;
        let mut failed = false;
        for o in ops {
            let st = d.op(o);
            if matches!(st, Some(htp::connection_parser::HtpStreamState::ERROR)) { failed = true; }
            if let Op::Remove(i) = o { removed.insert(*i); if d.tx(*i).is_some() { return Err(format!("transaction {} is still there after its removal", i)); } }
            let (q, s) = (d.p.request_index(), d.p.response_index());
            // known finding: an invented request while an earlier one is pending (own contract below)
            let mut at = rq;
            for e in &rec::all()[from..] {
                if e.k == K::ResponseStart && e.invented { if e.tx != at { return Ok(()); } at += 1; }
            }
            if q < rq || s < rs { return Err(format!("an index went back: {} {} after {} {}", q, s, rq, rs)); }
            let tr = rec::all();
            for e in &tr[from..] {
                match e.k {
                    K::RequestComplete => {
                        if removed.is_empty() && lastq.map_or(false, |l| e.tx <= l) { return Err(format!("request {} reported complete after {:?}", e.tx, lastq)); }
                        if e.req != HtpRequestProgress::COMPLETE { return Err(format!("request {} reported complete while {:?}", e.tx, e.req)); }
                        lastq = Some(e.tx);
                        nreq += 1;
                    }
                    K::ResponseComplete => {
                        if removed.is_empty() && lasts.map_or(false, |l| e.tx <= l) { return Err(format!("response {} reported complete after {:?}", e.tx, lasts)); }
                        if e.res != HtpResponseProgress::COMPLETE { return Err(format!("response {} reported complete while {:?}", e.tx, e.res)); }
                        lasts = Some(e.tx);
                        nres += 1;
                    }
                    K::TransactionComplete => {
                        let both = e.req == HtpRequestProgress::COMPLETE && e.res == HtpResponseProgress::COMPLETE;
                        if !both && !(matches!(o, Op::Close) && flush) { return Err(format!("transaction {} reported complete while {:?} {:?}", e.tx, e.req, e.res)); }
                        if removed.is_empty() && !done.insert(e.tx) && !(matches!(o, Op::Close) && flush) { return Err(format!("transaction {} reported complete twice", e.tx)); }
                        done.insert(e.tx);
                    }
                    K::ResponseStart if e.invented => ninv += 1,
                    _ => {}
                }
            }
            from = tr.len();
            if removed.is_empty() && !failed {
                if q != nreq + ninv && q + 1 != nreq + ninv { return Err(format!("request index {} after {} completed and {} invented requests", q, nreq, ninv)); }
                if !(s <= nres && nres <= s + 1) { return Err(format!("response index {} after {} completed responses", s, nres)); }
            }
            if s > nres { return Err(format!("response index {} after {} completed responses", s, nres)); }
            rq = q;
            rs = s;
            let mut held = 0;
            for k in 0..q.max(s) + 3 {
                match d.tx(k) {
                    Some(t) => {
                        held += 1;
                        if t.index != k { return Err(format!("transaction {} held as {}", t.index, k)); }
                        if k > q.max(s) { return Err(format!("transaction {} exists, indices are {} {}", k, q, s)); }
                        seen.insert(k);
                        if auto && k < q && k < s && done.contains(&k) && !removed.contains(&k) && t.is_complete() && !failed && !flush { return Err(format!("transaction {} is complete and left behind, but not destroyed", k)); }
                    }
                    None => if seen.contains(&k) && !removed.contains(&k) && !(auto && done.contains(&k)) { return Err(format!("transaction {} disappeared", k)); }
                }
            }
            if held > max as usize { return Err(format!("{} transactions held", held)); }
            if k_size(&d.p) != d.p.tx_size() { return Err(format!("tx_size {} want {}", d.p.tx_size(), k_size(&d.p))); }
        }
        Ok(())
    });
}
fn k_size(p: &ConnectionParser) -> usize {
    let i = p.request_index().max(p.response_index());
    i + p.tx(i).map_or(0, |t| (t.request_progress != HtpRequestProgress::NOT_STARTED || t.response_progress != HtpResponseProgress::NOT_STARTED) as usize)
}
/// the container alone against a plain map
fn container(c: &mut Ctx, ops: &[u8], auto: bool, max: u32) {
    let mut key = ops.to_vec();
    key.extend([auto as u8, max as u8]);
    c.check("the container of transactions", &key, ops.len() > 2, &|| format!("auto_destroy {} max_tx {} operations {:?}", auto, max, ops), || {
        let mut cfg = Config::default();
        cfg.set_tx_auto_destroy(auto);
        cfg.max_tx = max;
        let p = ConnectionParser::new(Config::default());
        let mut t = Transactions::new(&Rc::new(cfg), &p.logger);
        let (mut q, mut s) = (0usize, 0usize);
        let mut m: std::collections::BTreeMap<usize, (bool, bool)> = Default::default();
        for o in ops {
            match o % 8 {
                k @ (0 | 1) => {
                    let i = if k == 0 { q } else { s };
                    let room = m.contains_key(&i) || m.len() < max as usize;
                    if room { m.entry(i).or_insert((false, false)); }
                    let g = if k == 0 { t.request_mut() } else { t.response_mut() };
                    Ctx::eq(g.map(|t| t.index), if room { Some(i) } else { None })?;
                }
                k @ (2 | 3) => {
                    let i = if k == 2 { q } else { s };
                    if let Some(x) = t.get_mut(i) { if k == 2 { x.request_progress = HtpRequestProgress::COMPLETE } else { x.response_progress = HtpResponseProgress::COMPLETE } }
                    if let Some(x) = m.get_mut(&i) { if k == 2 { x.0 = true } else { x.1 = true } }
                }
                k @ (4 | 5) => {
                    let i = if k == 4 { q } else { s };
                    if auto && q.max(s) > i && m.get(&i) == Some(&(true, true)) { m.remove(&i); }
                    if k == 4 { q += 1; Ctx::eq(t.request_next(), q)? } else { s += 1; Ctx::eq(t.response_next(), s)? }
                }
                6 => { let i = (o / 8) as usize % 4; Ctx::eq(t.remove(i).map(|t| t.index), m.remove(&i).map(|_| i))? }
                _ => { let i = (o / 8) as usize % 4; Ctx::eq(t.get(i).map(|t| t.index), m.get(&i).map(|_| i))? }
            }
            Ctx::eq((t.request_index(), t.response_index()), (q, s))?;
            let got: Vec<(usize, bool, bool)> = (0..40).filter_map(|i| t.get(i).map(|x| (x.index, x.request_progress == HtpRequestProgress::COMPLETE, x.response_progress == HtpResponseProgress::COMPLETE))).collect();
            Ctx::eq(got, m.iter().map(|(k, v)| (*k, v.0, v.1)).collect::<Vec<_>>())?;
        }
        Ok(())
    });
}
/// a response ahead of the requests while an earlier request is still arriving
fn ahead(c: &mut Ctx, cut: usize) {
    let q: &[u8] = b"GET /a HTTP/1.1\r\nHost: h\r\n\r\n";
    let r: &[u8] = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n";
    let ops = [Op::Req(q[..cut].to_vec()), Op::Res(r.to_vec()), Op::Res(r.to_vec()), Op::Req(q[cut..].to_vec()), Op::Close];
    c.check("a response ahead of a pending request", &gen::key(&ops), true, &|| gen::show_ops(&ops), || {
        let mut cfg = Config::default();
        rec::register(&mut cfg);
        rec::clear();
        let mut d = Driver::new(cfg);
        for o in &ops { d.op(o); }
        let done: Vec<usize> = rec::all().iter().filter(|e| e.k == K::RequestComplete).map(|e| e.tx).collect();
        Ctx::eq(done, vec![0])
    });
}
/// a refused CONNECT followed by another request, with the caller obeying DATA_OTHER
fn connect(c: &mut Ctx, status: &[u8], auto: bool, flush: bool, close: bool) {
    let q: &[u8] = b"CONNECT h:443 HTTP/1.1\r\nHost: h:443\r\n\r\nGET /a HTTP/1.1\r\nHost: h\r\n\r\n";
    let r = [b"HTTP/1.1 ", status, b"\r\nContent-Length: 0\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"].concat();
    c.check("a refused CONNECT and the next request", &[status, &[auto as u8, flush as u8, close as u8]].concat(), true, &|| format!("auto_destroy {} flush {} close {}: requests {} responses {}", auto, flush, close, esc(q), esc(&r)), || {
        let mut cfg = Config::default();
        cfg.set_tx_auto_destroy(auto);
        cfg.set_flush_incomplete(flush);
        rec::register(&mut cfg);
        rec::clear();
        let mut d = Driver::new(cfg);
        let (mut a, mut b, mut rounds) = (0, 0, 0);
        while (a < q.len() || b < r.len()) && rounds < 9 {
            if a < q.len() { let s = d.req(&q[a..]); a += if s == htp::connection_parser::HtpStreamState::DATA_OTHER { d.p.request_data_consumed() } else { q.len() - a }; }
            if b < r.len() { let s = d.res(&r[b..]); b += if s == htp::connection_parser::HtpStreamState::DATA_OTHER { d.p.response_data_consumed() } else { r.len() - b }; }
            rounds += 1;
        }
        if close { d.close(); }
        let of = |k: K| rec::all().iter().filter(|e| e.k == k).map(|e| e.tx).collect::<Vec<_>>();
        Ctx::eq((of(K::RequestComplete), of(K::ResponseComplete), of(K::TransactionComplete)), (vec![0, 1], vec![0, 1], vec![0, 1]))?;
        Ctx::eq((d.tx(0).is_some(), d.tx(1).is_some(), d.p.request_index(), d.p.response_index()), (!auto, !auto, 2, 2))
    });
}
fn main() {
    run("more than two operations", |c| {
        c.phase("a response ahead", 5);
        ahead(c, 5);
        c.phase("a refused CONNECT", 5);
        for s in [&b"403 No"[..], b"404 x", b"502 Bad"] { for k in 0..8 { connect(c, s, k & 1 > 0, k & 2 > 0, k & 4 > 0); } }
        c.phase("operations on the container", 30);
        while !c.done() {
            let n = c.rng.below(14);
            let ops: Vec<u8> = (0..n).map(|_| c.rng.next() as u8).collect();
            let (a, m) = (c.rng.chance(1, 2), *c.rng.pick(&[0, 1, 2, 3, 512]));
            container(c, &ops, a, m);
        }
        c.phase("histories", 70);
        while !c.done() {
            let (gaps, rem) = (c.rng.chance(1, 4), c.rng.chance(1, 3));
            let ops = gen::history(&mut c.rng, gaps, rem);
            let (a, f, m) = (c.rng.chance(1, 2), c.rng.chance(1, 3), *c.rng.pick(&[1, 2, 3, 512]));
            history(c, &ops, a, f, m);
        }
    });
}
