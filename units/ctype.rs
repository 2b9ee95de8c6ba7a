#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include nom.inc
//@include nom2.inc
//@include base.inc
//@include bstr.inc
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
/// `?` on a parser result (assumed: the conversion of its error)
#[verifier::external_body] pub fn vx_nom<'a, T>(r: IResult<&'a [u8], T>) -> (x: Result<(&'a [u8], T)>)
    ensures match r { Ok(v) => x is Ok && x->Ok_0 == v, Err(_) => x is Err } { unimplemented!() }
pub uninterp spec fn lowered(s: Seq<u8>) -> Seq<u8>;
impl Bstr {
    #[verifier::external_body] pub fn make_ascii_lowercase(&mut self) ensures final(self)@ == lowered(old(self)@) { unimplemented!() }
}
// ---- the rule -------------------------------------------------------------------------------
pub open spec fn skip_aws(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| ascii_ws(c), s) }
pub open spec fn ends_type(c: u8) -> bool { c == 59 || c == 44 || c == 32 }
pub open spec fn after_type(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| !ends_type(c), s) }
/// the bytes up to the first ';', ',' or blank
pub open spec fn type_of(s: Seq<u8>) -> Seq<u8> { s.subrange(0, s.len() - after_type(s).len()) }
pub open spec fn media(v: Seq<u8>) -> Seq<u8> { type_of(skip_aws(v)) }
/*@ fn util.rs::take_ascii_whitespace
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures r is Ok, splits(input, r->Ok_0.0, r->Ok_0.1), r->Ok_0.0@ == skip_aws(input@)
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)),
  forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> r is Ok && splits(i, r->Ok_0.0, r->Ok_0.1) && r->Ok_0.0@ == skip_aws(i@)
@*/
/*@ fn parsers.rs::content_type
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures r is Ok, r->Ok_0.1@ == media(input@)
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> r is Ok && r->Ok_0.1@ == media(i@)
@*/
/*@ fn parsers.rs::parse_content_type
ret: r
pre: content_type()(__ANY)? =>> vx_nom(content_type()(__ANY))?
spec: ensures r is Ok, r->Ok_0@ == lowered(media(header@))
@*/
}
fn main() {}
