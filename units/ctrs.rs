// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include bstr.inc
//@include flags.inc
//@include frame.inc
/// nom's streaming take_till (assumed contract on the dependency): the bytes before the first that f holds for; an error if there is none
#[verifier::external_body] pub fn vx_till<'a, F: Fn(u8) -> bool>(f: F, i: &'a [u8]) -> (r: core::result::Result<(&'a [u8], &'a [u8]), u8>)
    requires forall|c: u8| f.requires((c,)),
    ensures match r {
        Ok((rest, taken)) => taken@.len() < i@.len() && taken@ == i@.subrange(0, taken@.len() as int) && f.ensures((i@[taken@.len() as int],), true) && forall|k: int| 0 <= k < taken@.len() ==> f.ensures((#[trigger] i@[k],), false),
        Err(_) => i@.subrange(0, i@.len() as int) == i@ && forall|k: int| 0 <= k < i@.len() ==> f.ensures((#[trigger] i@[k],), false) } { unimplemented!() }
pub open spec fn oview(x: Option<Bstr>) -> Option<Seq<u8>> { match x { Some(b) => Some(b@), None => None } }
pub open spec fn ends_type(c: u8) -> bool { c == 59 || c == 32 || 9 <= c <= 13 }
/// the part of a Content-Type value before the first ';' or white space
pub open spec fn media_type(v: Seq<u8>) -> Seq<u8> decreases v.len() { if v.len() == 0 || ends_type(v[0]) { Seq::empty() } else { seq![v[0]] + media_type(v.subrange(1, v.len() as int)) } }
pub broadcast proof fn lemma_type(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|k: int| 0 <= k < n ==> !ends_type(#[trigger] s[k]), n < s.len() ==> ends_type(s[n])
    ensures #[trigger] media_type(s) == #[trigger] s.subrange(0, n)
    decreases n
{
    if n == 0 { assert(s.subrange(0, 0) =~= Seq::<u8>::empty()); } else {
        let t = s.subrange(1, s.len() as int);
        assert forall|k: int| 0 <= k < n - 1 implies !ends_type(#[trigger] t[k]) by { assert(t[k] == s[k + 1]); }
        lemma_type(t, n - 1);
        assert(seq![s[0]] + t.subrange(0, n - 1) =~= s.subrange(0, n));
    }
}
/*@ fn util.rs::is_space
ret: r
spec: ensures r == (c == 32 || 9 <= c <= 13)
@*/
//@include rsframe.inc
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
ret: r
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( __ANY ) ( & ct . value , ) =>> vx_till(__ANY, ct.value.as_slice())
pre: { ct } else { & ct . value } =>> { ct } else { ct.value.as_slice() }
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: c: u8
closure 2: -> (b: bool) ensures b == ends_type(c)
closure 3 args: te: Header
closure 3: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: broadcast use lemma_type; proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let t = old(self).rst()->0; let u = final(self).rst()->0; let b = body(t);
            oview(u.response_content_type) == (if b is Tunnel || b is Switch || b is Interim || b is Nothing || t.response_headers.first(n_ct()) is None { oview(t.response_content_type) } else { Some(lowered(media_type(t.response_headers.first(n_ct())->0.value@))) })
        }),
@*/
}
fn main() {}
