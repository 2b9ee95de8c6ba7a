// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
use core::cmp::Ordering;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include bstr.inc
//@include flags.inc
//@include frame.inc
//@include rqframe.inc
/// the content type a value names: unit ctype
pub uninterp spec fn rq_type(v: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub fn parse_content_type(v: &[u8]) -> (r: Result<Bstr>) ensures r is Ok, r->Ok_0@ == rq_type(v@) { unimplemented!() }
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
ret: r
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures r is Ok, final(self).request_headers == old(self).request_headers,
        oview(final(self).request_content_type) == (match old(self).request_headers.first(n_ct()) { Some(h) => Some(rq_type(h.value@)), None => oview(old(self).request_content_type) }),
@*/
}
fn main() {}
