#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include nom.inc
//@include base.inc
//@include str.inc
/*@ config
drop: htp_warn htp_error htp_info htp_debug
@*/
// --------------------------------------------------------------------------- specifications
pub open spec fn ctl(c: u8) -> bool { c == 13 || c == 10 || c == 32 || c == 9 || c == 11 || c == 12 }
pub open spec fn skip_nsp(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| nom_sp(c), s) }
pub open spec fn skip_aws(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| ascii_ws(c), s) }
pub open spec fn skip_ctl(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| ctl(c), s) }
pub open spec fn skip_nondigit(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| !is_digit(c), s) }
pub open spec fn skip_digit(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| is_digit(c), s) }
pub open spec fn skip_hex(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| hexd(c), s) }
/// the part of s before its suffix t
pub open spec fn before(s: Seq<u8>, t: Seq<u8>) -> Seq<u8> { s.subrange(0, s.len() - t.len()) }
pub struct Digits { pub lead: Seq<u8>, pub digits: Seq<u8>, pub rest: Seq<u8> }
/// first run of digits: what comes before it (blanks skipped), the digits, what follows (blanks skipped)
pub open spec fn first_digits(s: Seq<u8>) -> Option<Digits> {
    let a = skip_nsp(s);
    let b = skip_nondigit(a);
    let c = skip_digit(b);
    if b.len() == 0 { None } else { Some(Digits { lead: before(a, b), digits: before(b, c), rest: skip_nsp(c) }) }
}
pub open spec fn digits_ens<'a>(i: &'a [u8], r: IResult<&'a [u8], (&'a [u8], &'a [u8])>) -> bool {
    match first_digits(i@) {
        Some(d) => r is Ok && r->Ok_0.0@ == d.rest && r->Ok_0.1.0@ == d.lead && r->Ok_0.1.1@ == d.digits,
        None => r is Err,
    }
}
pub open spec fn content_length_spec(s: Seq<u8>) -> Option<int> {
    match first_digits(s) {
        Some(d) => if value_of(d.digits, 10) <= u64::MAX { Some(value_of(d.digits, 10)) } else { None },
        None => None,
    }
}
/// Ok(None) for a line without hex digits at all or above i32::MAX
pub open spec fn chunk_spec(s: Seq<u8>) -> Option<(Option<int>, bool)> {
    let a = skip_nsp(skip_ctl(s));
    let b = skip_hex(a);
    let h = before(a, b);
    let rest = skip_nsp(b);
    if h.len() == 0 { if rest.len() == 0 { Some((None, false)) } else { None } }
    else if value_of(h, 16) > u64::MAX { None }
    else if value_of(h, 16) > i32::MAX { Some((None, false)) }
    else { Some((Some(value_of(h, 16)), rest.contains(59))) }
}
pub open spec fn status_spec(s: Seq<u8>) -> Option<int> {
    match first_digits(s) {
        Some(d) => if d.lead.len() == 0 && d.rest.len() == 0 && 100 <= value_of(d.digits, 10) <= 999 { Some(value_of(d.digits, 10)) } else { None },
        None => None,
    }
}
pub open spec fn port_spec(s: Seq<u8>) -> Option<int> {
    if digits_ok(s, 10) && 1 <= value_of(s, 10) <= 65535 { Some(value_of(s, 10)) } else { None }
}
/// what must remain after optional whitespace, "HTTP", whitespace, "/", whitespace and zeros
pub open spec fn version_at(s: Seq<u8>) -> Option<Seq<u8>> {
    let a = skip_aws(s);
    if !(a.len() >= 4 && lower(a[0]) == 104 && lower(a[1]) == 116 && lower(a[2]) == 116 && lower(a[3]) == 112) { None } else {
        let b = skip_aws(a.subrange(4, a.len() as int));
        if b.len() == 0 || b[0] != 47 { None } else { Some(skip_while(|c: u8| ascii_ws(c) || c == 48, b.subrange(1, b.len() as int))) }
    }
}
pub open spec fn v09(t: Seq<u8>) -> bool { t.len() >= 2 && t[0] == 46 && t[1] == 57 }
pub open spec fn v10(t: Seq<u8>) -> bool { t.len() >= 3 && t[0] == 49 && t[1] == 46 && t[2] == 48 }
pub open spec fn v11(t: Seq<u8>) -> bool { t.len() >= 3 && t[0] == 49 && t[1] == 46 && t[2] == 49 }
pub open spec fn blank_after(t: Seq<u8>, n: int) -> bool { skip_aws(t.subrange(n, t.len() as int)).len() == 0 }
pub open spec fn protocol_spec(s: Seq<u8>) -> HtpProtocol {
    match version_at(s) {
        None => HtpProtocol::INVALID,
        Some(t) => if v09(t) && blank_after(t, 2) { HtpProtocol::V0_9 }
            else if v10(t) && blank_after(t, 3) { HtpProtocol::V1_0 }
            else if v11(t) && blank_after(t, 3) { HtpProtocol::V1_1 }
            else { HtpProtocol::INVALID },
    }
}
pub struct Logger;
/*@ item transaction.rs::HtpProtocol
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item transaction.rs::HtpResponseNumber
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item lib.rs::HtpStatus
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ fn util.rs::nom_take_is_space
ret: r
start: proof { assert(data@.subrange(data@.len() as int, data@.len() as int).len() == 0); }
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1), r->Ok_0.0@ == skip_nsp(data@),
@*/
/*@ fn util.rs::is_chunked_ctl_char
ret: r
spec: ensures r == ctl(c)
@*/
/*@ fn util.rs::take_chunked_ctl_chars
ret: r
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1), r->Ok_0.0@ == skip_ctl(data@),
@*/
/*@ fn util.rs::take_ascii_whitespace
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures r is Ok, splits(input, r->Ok_0.0, r->Ok_0.1), r->Ok_0.0@ == skip_aws(input@)
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)),
  forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> r is Ok && splits(i, r->Ok_0.0, r->Ok_0.1) && r->Ok_0.0@ == skip_aws(i@)
@*/
/*@ fn util.rs::ascii_digits
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], (&[u8], &[u8])>) ensures digits_ens(input, r)
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)),
  forall|i: &[u8], r: IResult<&[u8], (&[u8], &[u8])>| #[trigger] p.ensures((i,), r) ==> digits_ens(i, r)
@*/
/*@ fn util.rs::hex_digits
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures r is Ok, r->Ok_0.1@ == before(skip_nsp(input@), skip_hex(skip_nsp(input@))), r->Ok_0.0@ == skip_nsp(skip_hex(skip_nsp(input@)))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)),
  forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> r is Ok && ({
    &&& r->Ok_0.1@ == before(skip_nsp(i@), skip_hex(skip_nsp(i@)))
    &&& r->Ok_0.0@ == skip_nsp(skip_hex(skip_nsp(i@)))
  })
@*/
pub proof fn lemma_digits(s: Seq<u8>)
    requires s.len() > 0, forall|k: int| 0 <= k < s.len() ==> is_digit(#[trigger] s[k])
    ensures digits_ok(s, 10), utf8_valid(s), no_plus(s) == s
{ broadcast use sx::ax_ascii_utf8; assert(is_digit(s[0])); }
pub proof fn lemma_digit_iff(c: u8) ensures is_digit(c) <==> digit_of(c, 10) is Some {}
/*@ fn util.rs::convert_port
ret: r
subst: port.iter().all(__ANY) =>> vx_all(port, __ANY)
closures: pure
start: proof {
    if digits_ok(port@, 10) { assert forall|k: int| 0 <= k < port@.len() implies is_digit(#[trigger] port@[k]) by { lemma_digit_iff(port@[k]); } lemma_digits(port@); }
    else if port@.len() > 0 { let k = choose|k: int| 0 <= k < port@.len() && digit_of(#[trigger] port@[k], 10) is None; assert(!is_digit(port@[k])); }
  }
spec: ensures match port_spec(port@) { Some(v) => r is Some && r->Some_0 == v, None => r is None }
@*/
pub proof fn lemma_skip_props(f: spec_fn(u8) -> bool, s: Seq<u8>) -> (n: int)
    ensures 0 <= n <= s.len(), skip_while(f, s) == s.subrange(n, s.len() as int), forall|k: int| 0 <= k < n ==> f(#[trigger] s[k]), n < s.len() ==> !f(s[n])
    decreases s.len()
{
    if s.len() > 0 && f(s[0]) {
        let t = s.subrange(1, s.len() as int);
        let m = lemma_skip_props(f, t);
        assert forall|k: int| 0 <= k < m + 1 implies f(#[trigger] s[k]) by { if k > 0 { assert(t[k - 1] == s[k]); } }
        if m < t.len() { assert(t[m] == s[m + 1]); }
        assert(t.subrange(m, t.len() as int) =~= s.subrange(m + 1, s.len() as int));
        m + 1
    } else { assert(s.subrange(0, s.len() as int) =~= s); 0 }
}
pub proof fn lemma_first_digits(s: Seq<u8>)
    ensures match first_digits(s) { Some(d) => digits_ok(d.digits, 10) && utf8_valid(d.digits) && no_plus(d.digits) == d.digits, None => true }
{
    let a = skip_nsp(s);
    let b = skip_nondigit(a);
    let na = lemma_skip_props(|c: u8| !is_digit(c), a);
    let nb = lemma_skip_props(|c: u8| is_digit(c), b);
    if b.len() > 0 {
        assert(b[0] == a[na]);
        assert(is_digit(b[0]));
        let d = first_digits(s)->Some_0.digits;
        assert(nb > 0);
        assert(d == b.subrange(0, nb));
        assert forall|k: int| 0 <= k < d.len() implies is_digit(#[trigger] d[k]) by { assert(d[k] == b[k]); }
        lemma_digits(d);
    }
}
/*@ fn parsers.rs::parse_content_length
ret: r
start: proof { lemma_first_digits(input@); }
spec: ensures match content_length_spec(input@) { Some(v) => r is Some && r->Some_0 == v, None => r is None }
@*/
pub proof fn lemma_hex(s: Seq<u8>)
    requires s.len() > 0, forall|k: int| 0 <= k < s.len() ==> hexd(#[trigger] s[k])
    ensures digits_ok(s, 16), utf8_valid(s), no_plus(s) == s
{ broadcast use sx::ax_ascii_utf8; assert(hexd(s[0])); }
pub proof fn lemma_chunk(s: Seq<u8>)
    ensures ({ let a = skip_nsp(skip_ctl(s)); let h = before(a, skip_hex(a)); h.len() > 0 ==> digits_ok(h, 16) && utf8_valid(h) && no_plus(h) == h })
{
    let a = skip_nsp(skip_ctl(s));
    let n = lemma_skip_props(|c: u8| hexd(c), a);
    let h = before(a, skip_hex(a));
    assert(h == a.subrange(0, n));
    assert forall|k: int| 0 <= k < h.len() implies hexd(#[trigger] h[k]) by { assert(h[k] == a[k]); }
    if h.len() > 0 { lemma_hex(h); }
}
type Result<T, E = HtpStatus> = core::result::Result<T, E>;
impl<'a> std::convert::From<NErr<NomErrorS<&'a [u8]>>> for HtpStatus {
    #[verifier::external_body]
    fn from(e: NErr<NomErrorS<&'a [u8]>>) -> (r: HtpStatus) { HtpStatus::ERROR }
}
pub assume_specification<T> [<[T]>::contains] (_0: &[T], _1: &T) -> (r: bool) where T: PartialEq ensures r == _0@.contains(*_1);
/*@ fn parsers.rs::parse_chunked_length
ret: r
closure 0: -> (e: HtpStatus) ensures e == HtpStatus::ERROR
closure 1: -> (e: HtpStatus) ensures e == HtpStatus::ERROR
subst: std::i32::MAX =>> i32::MAX
start: proof { lemma_chunk(input@); }
spec: ensures match chunk_spec(input@) {
    Some((Some(v), ext)) => r is Ok && r->Ok_0.0 is Some && r->Ok_0.0->Some_0 == v && r->Ok_0.1 == ext,
    Some((None, ext)) => r is Ok && r->Ok_0.0 is None && r->Ok_0.1 == ext,
    None => r is Err && r->Err_0 == HtpStatus::ERROR,
  }
@*/
/*@ fn parsers.rs::parse_status
ret: r
start: proof { lemma_first_digits(status@); }
spec: ensures match status_spec(status@) { Some(v) => r is VALID && r->VALID_0 == v, None => r is INVALID }
@*/
/*@ fn parsers.rs::protocol_version
ret: r
closure 1: -> (__b: (&[u8], bool)) ensures __b.0 == __a0.5, __b.1 == (__a0.2@.len() > 0 || __a0.4@.len() > 0)
closures: pure
spec: ensures match r {
    Err(_) => match version_at(input@) { None => true, Some(t) => !v09(t) && !v10(t) && !v11(t) },
    Ok((rest, (v, _))) => version_at(input@) is Some && ({ let t = version_at(input@)->Some_0;
        ||| v@.len() == 2 && v09(v@) && v09(t) && rest@ == skip_aws(t.subrange(2, t.len() as int))
        ||| v@.len() == 3 && v10(v@) && v10(t) && rest@ == skip_aws(t.subrange(3, t.len() as int))
        ||| v@.len() == 3 && v11(v@) && v11(t) && rest@ == skip_aws(t.subrange(3, t.len() as int)) }),
  }
@*/
/*@ fn parsers.rs::parse_protocol
ret: r
spec: ensures r == protocol_spec(input@)
@*/
}
fn main() {}
