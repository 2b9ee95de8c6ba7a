#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include base.inc
//@include nom.inc
//@include nom2.inc
//@include bstr.inc
//@include flags.inc
//@include decoder.inc
//@include x2c.inc
//@include urldec.inc
/*@ item lib.rs::HtpStatus
@*/
/*@ fn urlencoded.rs::decode_uri_with_flags
ret: r
subst: Bstr::from(consumed) =>> Bstr::from(consumed.as_slice())
start: proof { lemma_set3(*flags); }
spec: ensures r is Ok && r->Ok_0@ == decoded(*decoder_cfg, input@).0,
   *final(flags) == path_flags(*old(flags), decoded(*decoder_cfg, input@).1),
@*/
/*@ fn urlencoded.rs::decode_uri_inplace
ret: r
subst: Bstr::from(consumed) =>> Bstr::from(consumed.as_slice())
spec: ensures r is Ok && final(input)@ == decoded(*cfg, old(input)@).0
@*/
/// the findings as reported on a path, added to the flags x
pub open spec fn path_flags(x: u64, f: u64) -> u64 {
    let x = if f & HtpFlags::URLEN_INVALID_ENCODING != 0 { x | HtpFlags::PATH_INVALID_ENCODING } else { x };
    let x = if f & HtpFlags::URLEN_ENCODED_NUL != 0 { x | HtpFlags::PATH_ENCODED_NUL } else { x };
    if f & HtpFlags::URLEN_RAW_NUL != 0 { x | HtpFlags::PATH_RAW_NUL } else { x }
}
// the order in which they are set does not matter
proof fn lemma_set3(x: u64) ensures x | HtpFlags::PATH_ENCODED_NUL | HtpFlags::PATH_INVALID_ENCODING == x | HtpFlags::PATH_INVALID_ENCODING | HtpFlags::PATH_ENCODED_NUL, x | HtpFlags::PATH_RAW_NUL | HtpFlags::PATH_INVALID_ENCODING == x | HtpFlags::PATH_INVALID_ENCODING | HtpFlags::PATH_RAW_NUL, x | HtpFlags::PATH_RAW_NUL | HtpFlags::PATH_ENCODED_NUL == x | HtpFlags::PATH_ENCODED_NUL | HtpFlags::PATH_RAW_NUL, x | HtpFlags::PATH_INVALID_ENCODING | HtpFlags::PATH_RAW_NUL | HtpFlags::PATH_ENCODED_NUL == x | HtpFlags::PATH_INVALID_ENCODING | HtpFlags::PATH_ENCODED_NUL | HtpFlags::PATH_RAW_NUL, x | HtpFlags::PATH_ENCODED_NUL | HtpFlags::PATH_INVALID_ENCODING | HtpFlags::PATH_RAW_NUL == x | HtpFlags::PATH_INVALID_ENCODING | HtpFlags::PATH_ENCODED_NUL | HtpFlags::PATH_RAW_NUL, x | HtpFlags::PATH_ENCODED_NUL | HtpFlags::PATH_RAW_NUL | HtpFlags::PATH_INVALID_ENCODING == x | HtpFlags::PATH_INVALID_ENCODING | HtpFlags::PATH_ENCODED_NUL | HtpFlags::PATH_RAW_NUL, x | HtpFlags::PATH_RAW_NUL | HtpFlags::PATH_INVALID_ENCODING | HtpFlags::PATH_ENCODED_NUL == x | HtpFlags::PATH_INVALID_ENCODING | HtpFlags::PATH_ENCODED_NUL | HtpFlags::PATH_RAW_NUL, x | HtpFlags::PATH_RAW_NUL | HtpFlags::PATH_ENCODED_NUL | HtpFlags::PATH_INVALID_ENCODING == x | HtpFlags::PATH_INVALID_ENCODING | HtpFlags::PATH_ENCODED_NUL | HtpFlags::PATH_RAW_NUL
{
    lemma_abc(x, HtpFlags::PATH_INVALID_ENCODING, HtpFlags::PATH_ENCODED_NUL, HtpFlags::PATH_RAW_NUL);
}
proof fn lemma_abc(x: u64, a: u64, b: u64, c: u64) ensures x | b | a == x | a | b, x | c | a == x | a | c, x | c | b == x | b | c, x | a | c | b == x | a | b | c, x | b | a | c == x | a | b | c, x | b | c | a == x | a | b | c, x | c | a | b == x | a | b | c, x | c | b | a == x | a | b | c
{ assert(x | b | a == x | a | b && x | c | a == x | a | c && x | c | b == x | b | c && x | a | c | b == x | a | b | c && x | b | a | c == x | a | b | c && x | b | c | a == x | a | b | c && x | c | a | b == x | a | b | c && x | c | b | a == x | a | b | c) by(bit_vector); }
type Result<T, E = HtpStatus> = core::result::Result<T, E>;
impl<'a> std::convert::From<NErr<NomErrorS<&'a [u8]>>> for HtpStatus {
    #[verifier::external_body]
    fn from(e: NErr<NomErrorS<&'a [u8]>>) -> (r: HtpStatus) { HtpStatus::ERROR }
}
}
fn main() {}
