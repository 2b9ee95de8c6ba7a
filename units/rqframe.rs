// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
use core::cmp::Ordering;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include bstr.inc
//@include flags.inc
//@include frame.inc
//@include rqframe.inc
pub uninterp spec fn content_type(v: Seq<u8>) -> Result<Seq<u8>>;
#[verifier::external_body] pub fn parse_content_type(v: &[u8]) -> (r: Result<Bstr>)
    ensures match r { Ok(b) => content_type(v@) is Ok && content_type(v@)->Ok_0 == b@, Err(e) => content_type(v@) == Result::<Seq<u8>>::Err(e) } { unimplemented!() }
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
ret: r
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& n.request_transfer_coding == coding(o)
        &&& n.request_content_length == (if te(o) is None && cl(o) is Some { content_length(cl(o)->0.value@) } else { o.request_content_length })
        &&& n.request_headers == o.request_headers && n.parsed_uri == o.parsed_uri && n.cfg == o.cfg && n.request_protocol_number == o.request_protocol_number
    }),
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
sig: pub fn process_request_headers_1(&mut self) -> (r: Result<()>)
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& bit(n.flags, HtpFlags::REQUEST_INVALID_T_E) == (bit(o.flags, HtpFlags::REQUEST_INVALID_T_E) || bad_te(o))
    }),
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
sig: pub fn process_request_headers_2(&mut self) -> (r: Result<()>)
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& bit(n.flags, HtpFlags::REQUEST_INVALID) == (bit(o.flags, HtpFlags::REQUEST_INVALID) || invalid(o))
    }),
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
sig: pub fn process_request_headers_3(&mut self) -> (r: Result<()>)
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& oview(n.request_hostname) =~= the_host(o)
    }),
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
sig: pub fn process_request_headers_4(&mut self) -> (r: Result<()>)
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& n.request_port_number == the_port(o)
    }),
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
sig: pub fn process_request_headers_5(&mut self) -> (r: Result<()>)
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& bit(n.flags, HtpFlags::REQUEST_INVALID_C_L) == (bit(o.flags, HtpFlags::REQUEST_INVALID_C_L) || bad_cl(o))
    }),
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
sig: pub fn process_request_headers_6(&mut self) -> (r: Result<()>)
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& bit(n.flags, HtpFlags::REQUEST_SMUGGLING) == (bit(o.flags, HtpFlags::REQUEST_SMUGGLING) || smuggling(o))
    }),
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
sig: pub fn process_request_headers_7(&mut self) -> (r: Result<()>)
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& bit(n.flags, HtpFlags::HOST_MISSING) == (bit(o.flags, HtpFlags::HOST_MISSING) || host_missing(o))
    }),
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
sig: pub fn process_request_headers_8(&mut self) -> (r: Result<()>)
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& bit(n.flags, HtpFlags::HOSTH_INVALID) == (bit(o.flags, HtpFlags::HOSTH_INVALID) || hosth_invalid(o))
    }),
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
sig: pub fn process_request_headers_9(&mut self) -> (r: Result<()>)
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& bit(n.flags, HtpFlags::HOST_AMBIGUOUS) == (bit(o.flags, HtpFlags::HOST_AMBIGUOUS) || ambiguous(o))
    }),
@*/
/*@ fn transaction.rs::Transaction::process_request_headers
attr: #[verifier::spinoff_prover]
sig: pub fn process_request_headers_10(&mut self) -> (r: Result<()>)
pre: get_nocase_nozero_mut =>> get_nocase_nozero
pre: te . value . index_of_nocase_nozero ( "chunked" ) =>> vx_index_of_nocase_nozero(&te.value, "chunked")
pre: self . request_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_protocol_number >= HtpProtocol :: V1_1 =>> vx_ge(self.request_protocol_number, HtpProtocol::V1_1)
pre: self . request_port_number != port =>> vx_ne(self.request_port_number, port)
pre: host . cmp_nocase ( hostname ) != Ordering :: Equal =>> !vx_same_nocase(host, hostname)
pre: , Some ( & mut self . logger ) =>>
pre: parse_authorization ( self ) . or_else ( | rc | __ANY ) ? =>> match parse_authorization(self) { Ok(()) => (), Err(rc) => { let rr: Result<()> = __ANY; rr? } }
start: broadcast use bits::all; proof { lemma_names(); lemma_bits(); }
spec:
    ensures ({
        let o = *old(self); let n = *final(self);
        &&& rest(n.flags, ours()) == rest(o.flags, ours())
    }),
@*/
}
fn main() {}
