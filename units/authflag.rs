// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
use core::cmp::Ordering;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include bstr.inc
//@include flags.inc
//@include frame.inc
/*@ item uri.rs::Uri
fields: hostname, port_number
@*/
/*@ item config.rs::Config
fields: parse_request_auth
@*/
/*@ item transaction.rs::Transaction
fields: cfg, flags, request_headers, request_transfer_coding, request_protocol_number, request_content_length, request_hostname, request_port_number, request_content_type, parsed_uri
@*/
#[verifier::external_body] pub fn vx_ne(a: Option<u16>, b: Option<u16>) -> (r: bool) ensures r == (a != b) { unimplemented!() }
#[verifier::external_body] pub fn parse_hostport(v: &Bstr) -> (r: core::result::Result<(&[u8], (&[u8], Option<(&[u8], Option<u16>)>, bool)), u8>) { unimplemented!() }
#[verifier::external_body] pub fn parse_content_type(v: &[u8]) -> (r: Result<Bstr>) { unimplemented!() }
/// the Authorization header of these headers cannot be decoded (contract of parse_authorization, proved in unit auth)
pub uninterp spec fn auth_declined(h: Headers) -> bool;
#[verifier::external_body] pub fn parse_authorization(tx: &mut Transaction) -> (r: Result<()>)
    ensures *final(tx) == *old(tx), match r { Ok(_) => !auth_declined(old(tx).request_headers), Err(e) => auth_declined(old(tx).request_headers) && e == HtpStatus::DECLINED } { unimplemented!() }
pub mod bits {
    use vstd::prelude::*;
    #[verifier::opaque] pub open spec fn bit(w: u64, f: u64) -> bool { w & f != 0 }
    #[verifier::opaque] pub open spec fn rest(w: u64, m: u64) -> u64 { w & !m }
    pub broadcast proof fn lemma_or(a: u64, b: u64, c: u64) ensures #[trigger] bit(a | b, c) == (bit(a, c) || bit(b, c)) {
        reveal(bit);
        assert(((a | b) & c != 0) == (a & c != 0 || b & c != 0)) by(bit_vector);
    }
    pub broadcast proof fn lemma_or_rest(a: u64, b: u64, c: u64) ensures rest(b, c) == 0 ==> #[trigger] rest(a | b, c) == rest(a, c) {
        reveal(rest);
        assert(b & !c == 0 ==> (a | b) & !c == a & !c) by(bit_vector);
    }
    pub broadcast group all { lemma_or, lemma_or_rest }
}
use bits::*;
proof fn lemma_bits() ensures
    !bit(HtpFlags::REQUEST_INVALID_T_E, HtpFlags::AUTH_INVALID),
    !bit(HtpFlags::REQUEST_INVALID, HtpFlags::AUTH_INVALID),
    !bit(HtpFlags::REQUEST_SMUGGLING, HtpFlags::AUTH_INVALID),
    !bit(HtpFlags::REQUEST_INVALID_C_L, HtpFlags::AUTH_INVALID),
    !bit(HtpFlags::HOSTH_INVALID, HtpFlags::AUTH_INVALID),
    !bit(HtpFlags::HOST_AMBIGUOUS, HtpFlags::AUTH_INVALID),
    !bit(HtpFlags::HOST_MISSING, HtpFlags::AUTH_INVALID),
    bit(HtpFlags::AUTH_INVALID, HtpFlags::AUTH_INVALID),
{
    reveal(bit);
    assert(HtpFlags::REQUEST_INVALID_T_E & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_SMUGGLING & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_C_L & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::HOSTH_INVALID & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::HOST_AMBIGUOUS & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::HOST_MISSING & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::AUTH_INVALID & HtpFlags::AUTH_INVALID != 0) by(compute);
}
/*@ fn transaction.rs::Transaction::get_parsed_uri_hostname
ret: r
closure 0 args: parsed_uri: &Uri
closure 0: -> (x: Option<&Bstr>) ensures match x { Some(b) => parsed_uri.hostname == Some(*b), None => parsed_uri.hostname is None }
spec:
    ensures match r { Some(b) => self.parsed_uri is Some && self.parsed_uri->0.hostname == Some(*b), None => self.parsed_uri is None || self.parsed_uri->0.hostname is None },
@*/
/*@ fn transaction.rs::Transaction::get_parsed_uri_port_number
ret: r
closure 0 args: parsed_uri: &Uri
closure 0: -> (x: Option<&u16>) ensures match x { Some(b) => parsed_uri.port_number == Some(*b), None => parsed_uri.port_number is None }
spec:
    ensures match r { Some(b) => self.parsed_uri is Some && self.parsed_uri->0.port_number == Some(*b), None => self.parsed_uri is None || self.parsed_uri->0.port_number is None },
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
ret: r
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_bits(); }
spec:
    ensures r is Ok ==> bit(final(self).flags, HtpFlags::AUTH_INVALID) == (bit(old(self).flags, HtpFlags::AUTH_INVALID) || (old(self).cfg.parse_request_auth && auth_declined(old(self).request_headers))),
@*/
}
fn main() {}
