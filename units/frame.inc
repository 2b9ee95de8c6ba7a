// ---- what the two framing decisions see of headers and values (shared by units rqframe and rsframe) ----
pub open spec fn lower(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
pub open spec fn lowered(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| lower(s[i])) }
/*@ item transaction.rs::HtpTransferCoding
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item transaction.rs::HtpProtocol
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
/*@ item transaction.rs::Header
@*/
// the derived order of protocol versions (order of declaration)
pub open spec fn rank(p: HtpProtocol) -> int {
    match p { HtpProtocol::ERROR => -3, HtpProtocol::INVALID => -2, HtpProtocol::UNKNOWN => -1, HtpProtocol::V0_9 => 9, HtpProtocol::V1_0 => 100, HtpProtocol::V1_1 => 101 }
}
#[verifier::external_body] pub fn vx_lt(a: HtpProtocol, b: HtpProtocol) -> (r: bool) ensures r == (rank(a) < rank(b)) { unimplemented!() }
#[verifier::external_body] pub fn vx_ge(a: HtpProtocol, b: HtpProtocol) -> (r: bool) ensures r == (rank(a) >= rank(b)) { unimplemented!() }
// the header table: the first header of that name, up to case and NULs (contract proved in unit names)
#[verifier::external_body] pub struct Headers { _0: u8 }
impl Headers {
    pub uninterp spec fn first(&self, name: Seq<u8>) -> Option<Header>;
    #[verifier::external_body] pub fn get_nocase_nozero(&self, key: &[u8]) -> (r: Option<&Header>)
        ensures match r { Some(h) => self.first(key@) == Some(*h), None => self.first(key@) is None } { unimplemented!() }
}
// values: contracts proved in units names (search, comparison) and nums (Content-Length)
pub uninterp spec fn holds_nocase_nozero(v: Seq<u8>, n: Seq<u8>) -> bool;
#[verifier::external_body] pub fn vx_index_of_nocase_nozero(v: &Bstr, n: &[u8]) -> (r: Option<usize>) ensures r is Some == holds_nocase_nozero(v@, n@) { unimplemented!() }
pub uninterp spec fn content_length(v: Seq<u8>) -> Option<u64>;
#[verifier::external_body] pub fn parse_content_length(v: &[u8]) -> (r: Option<u64>) ensures r == content_length(v@) { unimplemented!() }
// a.cmp_nocase(b) == Ordering::Equal (unit names)
#[verifier::external_body] pub fn vx_same_nocase(a: &Bstr, o: &[u8]) -> (r: bool) ensures r == (lowered(a@) == lowered(o@)) { unimplemented!() }
impl Bstr {
    #[verifier::external_body] pub fn make_ascii_lowercase(&mut self) ensures final(self)@ == lowered(old(self)@) { unimplemented!() }
}
