#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include nom.inc
//@include base.inc

// --------------------------------------------------------------------------- specifications
pub open spec fn sp(c: u8) -> bool { c == 32 || c == 9 || c == 13 || c == 10 || c == 11 || c == 12 }
pub open spec fn eolc(c: u8) -> bool { c == 10 || c == 13 }
pub open spec fn separator(c: u8) -> bool {
    c == 40 || c == 41 || c == 60 || c == 62 || c == 64 || c == 44 || c == 59 || c == 58 || c == 92 || c == 34
    || c == 47 || c == 91 || c == 93 || c == 63 || c == 61 || c == 123 || c == 125 || c == 32 || c == 9
}
pub open spec fn token(c: u8) -> bool { 32 < c < 127 && !separator(c) }
pub open spec fn all_sp(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> sp(#[trigger] s[k]) }
/// s without its leading whitespace
pub open spec fn lstrip(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && sp(s[0]) { lstrip(s.subrange(1, s.len() as int)) } else { s }
}
pub open spec fn rstrip(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && sp(s[s.len() - 1]) { rstrip(s.subrange(0, s.len() - 1)) } else { s }
}
pub open spec fn rchomp(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && eolc(s[s.len() - 1]) { rchomp(s.subrange(0, s.len() - 1)) } else { s }
}
pub open spec fn line_empty(s: Seq<u8>) -> bool { s =~= seq![13u8] || s =~= seq![10u8] || s =~= seq![13u8, 10u8] }
pub open spec fn ctl(c: u8) -> bool { c == 13 || c == 10 || c == 32 || c == 9 || c == 11 || c == 12 }


pub open spec fn skip_nsp(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| nom_sp(c), s) }
pub open spec fn span_hex(s: Seq<u8>) -> (Seq<u8>, Seq<u8>) {
    let r = skip_while(|c: u8| hexd(c), s);
    (s.subrange(0, s.len() - r.len()), r)
}
pub open spec fn chunk_data_valid(s: Seq<u8>) -> bool {
    let r = skip_while(|c: u8| ctl(c), s);
    r.len() == 0 || hexd(r[0])
}
pub open spec fn http_start(s: Seq<u8>) -> bool {
    let r = skip_while(|c: u8| sp(c) || c == 0, s);
    prefix_nocase(seq![104u8, 116, 116, 112], r)
}
/// The end-of-line conventions: position n of the first CR or LF; what follows decides.
pub open spec fn skip_line(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| !eolc(c), s) }
/// (which end-of-line starts the given data, its length); None while more data is needed
pub open spec fn eol_kind(s: Seq<u8>) -> Option<(Eol, int)> {
    if s.len() < 2 { None }
    else if s[0] == 13 { if s[1] == 10 { Some((Eol::CRLF, 2)) } else { Some((Eol::CR, 1)) } }
    else if s[1] != 13 { Some((Eol::LF, 1)) }
    else if s.len() < 3 { None }
    else if s[2] == 10 { Some((Eol::LF, 1)) }
    else { Some((Eol::LFCR, 2)) }
}
pub open spec fn eol_spec<'a>(data: &'a [u8], r: IResult<&'a [u8], (&'a [u8], Eol)>) -> bool {
    let rest = skip_line(data@);
    let n = data@.len() - rest.len();
    match (r, eol_kind(rest)) {
        (Ok((left, (line, eol))), Some((k, l))) => eol == k && line@ =~= data@.subrange(0, n + l) && left@ =~= data@.subrange(n + l, data@.len() as int),
        (Err(e), None) => e is Incomplete,
        _ => false,
    }
}
/*@ item config.rs::HtpServerPersonality
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item util.rs::Eol
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ fn util.rs::is_separator
ret: r
spec: ensures r == separator(c)
@*/
/*@ fn util.rs::is_token
ret: r
spec: ensures r == token(c)
@*/
/*@ fn util.rs::is_space
attr: #[verifier::when_used_as_spec(sp)]
ret: r
spec: ensures r == sp(c)
@*/
/*@ fn util.rs::chomp
ret: r
spec: ensures r@ == rchomp(data@)
start: let ghost d0 = data@;
loop 0:
  invariant rchomp(data@) == rchomp(d0)
  ensures rchomp(data@) == data@, rchomp(data@) == rchomp(d0)
  decreases data@.len()
@*/
/*@ fn util.rs::trim_start
ret: r
spec: ensures r@ == lstrip(input@)
loop 0:
  invariant lstrip(result@) == lstrip(input@)
  ensures lstrip(result@) == result@, lstrip(result@) == lstrip(input@)
  decreases result@.len()
@*/
/*@ fn util.rs::trim_end
ret: r
spec: ensures r@ == rstrip(input@)
loop 0:
  invariant rstrip(result@) == rstrip(input@)
  ensures rstrip(result@) == result@, rstrip(result@) == rstrip(input@)
  decreases result@.len()
@*/
/*@ fn util.rs::trimmed
ret: r
spec: ensures r@ == rstrip(lstrip(input@))
@*/
//@include cut.inc
/*@ fn util.rs::is_line_empty
ret: r
spec: ensures r == line_empty(data@)
@*/
/*@ fn util.rs::take_till_lf
ret: r
closures: pure
spec: ensures match r {
    Ok((rest, line)) => splits(data, rest, line) && line@.len() > 0 && line@[line@.len() - 1] == 10
        && forall|k: int| 0 <= k < line@.len() - 1 ==> #[trigger] line@[k] != 10,
    Err(e) => e is Incomplete && forall|k: int| 0 <= k < data@.len() ==> #[trigger] data@[k] != 10,
  }
@*/
/*@ fn util.rs::take_till_lf_null
ret: r
closures: pure
spec: ensures match r {
    Ok((rest, line)) => splits(data, rest, line) && line@.len() > 0 && (line@[line@.len() - 1] == 10 || line@[line@.len() - 1] == 0)
        && forall|k: int| 0 <= k < line@.len() - 1 ==> #[trigger] line@[k] != 10 && line@[k] != 0,
    Err(e) => e is Incomplete && forall|k: int| 0 <= k < data@.len() ==> #[trigger] data@[k] != 10 && data@[k] != 0,
  }
@*/
/*@ fn util.rs::is_line_whitespace
subst: data.iter().any(__ANY) =>> vx_any(data, __ANY)
subst: data.iter().all(__ANY) =>> vx_all(data, __ANY)
tail: proof { if __tail { assert(all_sp(data@)); } else { assert(!all_sp(data@)); } }
ret: r
closures: pure
spec: ensures r == all_sp(data@)
@*/
/*@ fn util.rs::is_line_terminator
ret: r
spec: ensures r == ((server_personality == HtpServerPersonality::IIS_5_0 && all_sp(data@)) || line_empty(data@)
     || (data@.len() == 2 && nom_sp(data@[0]) && data@[1] == 10 && next_no_lf))
@*/
/*@ fn util.rs::is_line_ignorable
ret: r
spec: ensures r == ((server_personality == HtpServerPersonality::IIS_5_0 && all_sp(data@)) || line_empty(data@))
@*/
/*@ fn util.rs::is_chunked_ctl_char
ret: r
spec: ensures r == ctl(c)
@*/
/*@ fn util.rs::is_chunked_ctl_line
ret: r
spec: ensures r == (forall|k: int| 0 <= k < l@.len() ==> ctl(#[trigger] l@[k]))
loop 0 iter: it
loop 0: invariant forall|k: int| 0 <= k < it.index@ ==> ctl(#[trigger] l@[k])
@*/
/*@ fn util.rs::take_chunked_ctl_chars
ret: r
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1),
   forall|k: int| 0 <= k < r->Ok_0.1@.len() ==> ctl(#[trigger] r->Ok_0.1@[k]),
   r->Ok_0.0@.len() > 0 ==> !ctl(r->Ok_0.0@[0]),
@*/
/*@ fn util.rs::nom_take_is_space
ret: r
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1),
   forall|k: int| 0 <= k < r->Ok_0.1@.len() ==> nom_sp(#[trigger] r->Ok_0.1@[k]),
   r->Ok_0.0@.len() > 0 ==> !nom_sp(r->Ok_0.0@[0]),
@*/
/*@ fn util.rs::take_ascii_whitespace
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures r is Ok, splits(input, r->Ok_0.0, r->Ok_0.1), r->Ok_0.0@ == skip_while(|c: u8| ascii_ws(c), input@)
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)),
  forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> r is Ok && splits(i, r->Ok_0.0, r->Ok_0.1) && r->Ok_0.0@ == skip_while(|c: u8| ascii_ws(c), i@)
@*/
/*@ fn util.rs::take_until_null
ret: r
closures: pure
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1),
   forall|k: int| 0 <= k < r->Ok_0.1@.len() ==> #[trigger] r->Ok_0.1@[k] != 0,
   r->Ok_0.0@.len() > 0 ==> r->Ok_0.0@[0] == 0,
@*/
/*@ fn util.rs::take_is_space
ret: r
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1),
   forall|k: int| 0 <= k < r->Ok_0.1@.len() ==> sp(#[trigger] r->Ok_0.1@[k]),
   r->Ok_0.0@.len() > 0 ==> !sp(r->Ok_0.0@[0]),
@*/
/*@ fn util.rs::take_is_space_or_null
ret: r
closures: pure
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1),
   forall|k: int| 0 <= k < r->Ok_0.1@.len() ==> sp(#[trigger] r->Ok_0.1@[k]) || r->Ok_0.1@[k] == 0,
   r->Ok_0.0@.len() > 0 ==> !sp(r->Ok_0.0@[0]) && r->Ok_0.0@[0] != 0,
@*/
/*@ fn util.rs::take_not_is_space
ret: r
closures: pure
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1),
   forall|k: int| 0 <= k < r->Ok_0.1@.len() ==> !sp(#[trigger] r->Ok_0.1@[k]),
   r->Ok_0.0@.len() > 0 ==> sp(r->Ok_0.0@[0]),
@*/
/*@ fn util.rs::is_valid_chunked_length_data
ret: r
closures: pure
spec: ensures r == chunk_data_valid(data@)
@*/
/*@ fn util.rs::treat_response_line_as_body
ret: r
spec: ensures r == !http_start(data@)
@*/
/*@ fn util.rs::hex_digits
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures r is Ok, r->Ok_0.1@ == span_hex(skip_nsp(input@)).0, r->Ok_0.0@ == skip_nsp(span_hex(skip_nsp(input@)).1)
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)),
  forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> r is Ok && ({
    &&& r->Ok_0.1@ == span_hex(skip_nsp(i@)).0
    &&& r->Ok_0.0@ == skip_nsp(span_hex(skip_nsp(i@)).1)
  })
@*/
/*@ fn util.rs::take_till_eol
ret: r
start: proof { assert(data@.subrange(data@.len() as int, data@.len() as int).len() == 0); }
closures: pure
spec: ensures eol_spec(data, r)
@*/
}
fn main() {}
