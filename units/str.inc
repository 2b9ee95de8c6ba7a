// ---- std::str / integer parsing (assumed contracts on core; strings are their bytes) ------
pub struct VStr { pub b: Ghost<Seq<u8>> }
pub struct VErr;
pub mod sx {
    use vstd::prelude::*;
    pub uninterp spec fn utf8_valid(s: Seq<u8>) -> bool;
    pub broadcast axiom fn ax_ascii_utf8(s: Seq<u8>)
        requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] < 128,
        ensures #[trigger] utf8_valid(s);
}
pub use sx::utf8_valid;
#[verifier::external_body]
pub fn vx_from_utf8(s: &[u8]) -> (r: Result<VStr, VErr>)
    ensures r is Ok <==> utf8_valid(s@), r is Ok ==> r->Ok_0.b@ == s@
{ unimplemented!() }
pub open spec fn digit_of(c: u8, radix: int) -> Option<int> {
    let v = if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 122 { c - 97 + 10 } else if 65 <= c <= 90 { c - 65 + 10 } else { 99 };
    if v < radix { Some(v as int) } else { None }
}
pub open spec fn digits_ok(s: Seq<u8>, radix: int) -> bool {
    s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> digit_of(#[trigger] s[k], radix) is Some
}
/// the number written by the digits
pub open spec fn value_of(s: Seq<u8>, radix: int) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { value_of(s.subrange(0, s.len() - 1), radix) * radix + (digit_of(s[s.len() - 1], radix)->Some_0) }
}
/// core's integer parsers accept one leading plus sign
pub open spec fn no_plus(s: Seq<u8>) -> Seq<u8> { if s.len() > 1 && s[0] == 43 { s.subrange(1, s.len() as int) } else { s } }
pub open spec fn parses(s: Seq<u8>, radix: int, max: int) -> Option<int> {
    let t = no_plus(s);
    if digits_ok(t, radix) && value_of(t, radix) <= max { Some(value_of(t, radix)) } else { None }
}
pub open spec fn opt_int_eq(r: Option<int>, s: Option<int>) -> bool { r == s }
impl VStr {
    #[verifier::external_body]
    pub fn parse_u64(&self) -> (r: Result<u64, VErr>)
        ensures match parses(self.b@, 10, u64::MAX as int) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_u16(&self) -> (r: Result<u16, VErr>)
        ensures match parses(self.b@, 10, u16::MAX as int) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_u64_from_str_radix(s: VStr, radix: u32) -> (r: Result<u64, VErr>)
    requires 2 <= radix <= 36
    ensures match parses(s.b@, radix as int, u64::MAX as int) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err }
{ unimplemented!() }
/*@ config
subst: std::str::from_utf8 =>> vx_from_utf8
subst: parse::<u64>() =>> parse_u64()
subst: parse::<u16>() =>> parse_u16()
subst: u64::from_str_radix =>> vx_u64_from_str_radix
@*/
