//! Drives a whole connection through the public API.
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use htp::transaction::Transaction;

pub struct Driver {
    pub p: ConnectionParser,
}
impl Driver {
    pub fn new(cfg: Config) -> Driver {
        let mut p = ConnectionParser::new(cfg);
        p.open(
            Some(std::net::IpAddr::V4(std::net::Ipv4Addr::new(127, 0, 0, 1))),
            Some(10000),
            Some(std::net::IpAddr::V4(std::net::Ipv4Addr::new(127, 0, 0, 1))),
            Some(80),
            None,
        );
        Driver { p }
    }
    pub fn req(&mut self, d: &[u8]) -> HtpStreamState {
        self.p.request_data(ParserData::from(d), None)
    }
    pub fn res(&mut self, d: &[u8]) -> HtpStreamState {
        self.p.response_data(ParserData::from(d), None)
    }
    pub fn req_chunks(&mut self, d: &[u8], cuts: &[usize]) -> HtpStreamState {
        let mut st = HtpStreamState::NEW;
        for c in chunks(d, cuts) {
            st = self.req(c);
        }
        st
    }
    pub fn res_chunks(&mut self, d: &[u8], cuts: &[usize]) -> HtpStreamState {
        let mut st = HtpStreamState::NEW;
        for c in chunks(d, cuts) {
            st = self.res(c);
        }
        st
    }
    pub fn op(&mut self, o: &crate::gen::Op) -> Option<HtpStreamState> {
        use crate::gen::Op::*;
        match o {
            Req(d) => Some(self.req(d)),
            Res(d) => Some(self.res(d)),
            ReqGap(n) => Some(self.p.request_data(ParserData::from(*n), None)),
            ResGap(n) => Some(self.p.response_data(ParserData::from(*n), None)),
            Remove(i) => { self.p.remove_tx(*i); None }
            ReqClose => { self.p.request_close(None); None }
            Close => { self.p.close(None); None }
        }
    }
    pub fn tx(&self, i: usize) -> Option<&Transaction> {
        self.p.tx(i)
    }
    pub fn close(&mut self) {
        self.p.close(None)
    }
}
/// Cut `d` at the given increasing offsets (0 and len excluded automatically).
pub fn chunks<'a>(d: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut a = 0;
    for &c in cuts {
        if c > a && c < d.len() {
            v.push(&d[a..c]);
            a = c;
        }
    }
    if a < d.len() {
        v.push(&d[a..]);
    }
    v
}
