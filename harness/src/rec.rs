//! Records every callback of a connection, in order.
use htp::config::Config;
use htp::connection_parser::ParserData;
use htp::transaction::{Transaction, HtpRequestProgress, HtpResponseProgress};
use htp::HtpStatus;
use std::cell::RefCell;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    RequestStart, RequestUriNormalize, RequestLine, RequestHeaderData, RequestHeaders, RequestBodyData, RequestTrailerData, RequestTrailer, RequestComplete,
    ResponseStart, ResponseLine, ResponseHeaderData, ResponseHeaders, ResponseBodyData, ResponseTrailerData, ResponseTrailer, ResponseComplete, TransactionComplete,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ev { pub k: K, pub tx: usize, pub data: Option<Vec<u8>>, pub len: usize, pub gap: bool, pub req: HtpRequestProgress, pub res: HtpResponseProgress, pub invented: bool }
thread_local! {
    pub static TRACE: RefCell<Vec<Ev>> = Default::default();
    /// answer of the n-th callback from now (None: all ok)
    pub static REFUSE: RefCell<Option<(usize, HtpStatus)>> = Default::default();
}
fn note(k: K, t: &Transaction, d: Option<&ParserData>) -> Result<(), HtpStatus> {
    let invented = t.request_uri.as_ref().map_or(false, |u| u.as_slice() == b"/libhtp::request_uri_not_seen");
    TRACE.with(|x| x.borrow_mut().push(Ev { k, tx: t.index, data: d.and_then(|d| d.data()).map(|d| d.to_vec()), len: d.map_or(0, |d| d.len()), gap: d.map_or(false, |d| d.is_gap()), req: t.request_progress, res: t.response_progress, invented }));
    REFUSE.with(|r| {
        let mut r = r.borrow_mut();
        match r.as_mut() {
            Some((0, _)) => Err(r.take().unwrap().1),
            Some((n, _)) => { *n -= 1; Ok(()) }
            None => Ok(()),
        }
    })
}
macro_rules! tx { ($c:ident, $($reg:ident $k:ident),*) => { $( { fn f(t: &mut Transaction) -> Result<(), HtpStatus> { note(K::$k, t, None) } $c.$reg(f); } )* } }
macro_rules! da { ($c:ident, $($reg:ident $k:ident),*) => { $( { fn f(t: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> { note(K::$k, t, Some(d)) } $c.$reg(f); } )* } }
pub fn register(c: &mut Config) {
    tx!(c, register_request_start RequestStart, register_request_line RequestLine, register_request_headers RequestHeaders, register_request_trailer RequestTrailer, register_request_complete RequestComplete,
        register_response_start ResponseStart, register_response_line ResponseLine, register_response_headers ResponseHeaders, register_response_trailer ResponseTrailer, register_response_complete ResponseComplete, register_transaction_complete TransactionComplete);
    { fn f(t: &mut Transaction) -> Result<(), HtpStatus> { note(K::RequestUriNormalize, t, None) } c.hook_request_uri_normalize.register(f); }
    da!(c, register_request_header_data RequestHeaderData, register_request_body_data RequestBodyData, register_request_trailer_data RequestTrailerData, register_response_header_data ResponseHeaderData, register_response_body_data ResponseBodyData, register_response_trailer_data ResponseTrailerData);
}
pub fn clear() { TRACE.with(|t| t.borrow_mut().clear()); REFUSE.with(|r| *r.borrow_mut() = None) }
pub fn len() -> usize { TRACE.with(|t| t.borrow().len()) }
pub fn all() -> Vec<Ev> { TRACE.with(|t| t.borrow().clone()) }
pub fn refuse(n: usize, s: HtpStatus) { REFUSE.with(|r| *r.borrow_mut() = Some((n, s))) }
