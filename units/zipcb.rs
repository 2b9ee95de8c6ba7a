// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
use std::cmp::Ordering;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include bstr.inc
//@include pdata.inc
//@include conn.inc
//@include body.inc
// the options' getters (contracts proved in unit cfg)
impl Options {
    pub uninterp spec fn limit(&self) -> u64;
    pub uninterp spec fn ratio(&self) -> u64;
    #[verifier::external_body] pub fn get_bomb_limit(&self) -> (r: u64) ensures r == self.limit() { unimplemented!() }
    #[verifier::external_body] pub fn get_bomb_ratio(&self) -> (r: u64) ensures r == self.ratio() { unimplemented!() }
    #[verifier::external_body] pub fn get_time_test_freq(&self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] pub fn vx_copy(&self) -> (r: Options) ensures r == *self { unimplemented!() }
}
impl Decompressor {
    #[verifier::external_body] pub fn callback_inc(&mut self) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] pub fn timer_reset(&mut self) -> (r: Option<u64>) { unimplemented!() }
}
/// std::io::Error, of which only its presence matters here
pub struct IoErr;
pub fn vx_ioerr() -> (r: IoErr) { IoErr }
/// output of n bytes made from m bytes is too much
pub open spec fn bomb(n: u64, m: u64, o: Options) -> bool { n > o.limit() && (m * o.ratio() > u64::MAX || n > m * o.ratio()) }
pub open spec fn handed(o: Told, d: ParserData, end: bool) -> Told { if d.left() == 0 && !end { o } else { heard(heard(o, d, true), d, false) } }
/*@ config
pre: std :: io :: Error :: new ( __ANY ) =>> vx_ioerr()
pre: self . cfg . compression_options ; =>> self.cfg.compression_options.vx_copy();
presig: std :: io :: Result < usize > =>> core::result::Result<usize, IoErr>
@*/
/*@ fn request.rs::ConnectionParser::request_decompressor_callback
pre: Data :: new ( req , & parser_data ) =>> Data::new(&parser_data)
ret: r
spec:
    requires
        old(self).rqt() is Some, !old(self).refused@,
        // the decompressor is out of its slot while it runs (request_body_data)
        old(self).rqt()->0.request_decompressor is None,
    ensures ({
        let t = old(self).rqt()->0;
        let d = fresh_data(data, None);
        let n = wadd(t.request_entity_len, d.left() as int);
        // counted, and handed on once
        &&& final(self).rq_only(old(self))
        &&& final(self).rqt() == Some(Transaction { request_entity_len: n, ..t })
        &&& !final(self).refused@ ==> final(self).rq@ == handed(old(self).rq@, d, data is None)
        // more than allowed, or a refusal: no more is to come
        &&& r is Err == (final(self).refused@ || bomb(n, t.request_message_len, old(self).cfg.compression_options))
        &&& r is Ok ==> r->Ok_0 == d.left()
    }),
@*/
/*@ fn response.rs::ConnectionParser::response_decompressor_callback
pre: Data :: new ( resp , & parser_data ) =>> Data::new(&parser_data)
ret: r
spec:
    requires
        old(self).rst() is Some, !old(self).refused@,
        old(self).rst()->0.response_decompressor is None,
    ensures ({
        let t = old(self).rst()->0;
        let d = fresh_data(data, None);
        let n = wadd(t.response_entity_len, d.left() as int);
        &&& final(self).rs_only(old(self))
        &&& final(self).rst() == Some(Transaction { response_entity_len: n, ..t })
        &&& !final(self).refused@ ==> final(self).rs@ == handed(old(self).rs@, d, false)
        &&& r is Err == (final(self).refused@ || bomb(n, t.response_message_len, old(self).cfg.compression_options))
        &&& r is Ok ==> r->Ok_0 == d.left()
    }),
@*/
} // verus!
fn main() {}
