#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug
@*/
//@include base.inc
//@include flags.inc
//@include trim.inc
// ---- nom: results, and the leaf parsers (assumed contracts on the dependency); the combinators are written out by the extractor ----
pub enum Needed { Unknown, Size(usize) }
impl Needed { #[verifier::external_body] pub fn new(n: usize) -> Needed { Needed::Unknown } }
pub struct NomErrorS<I> { pub input: I }
pub enum NErr<E> { Incomplete(Needed), Error(E), Failure(E) }
pub use NErr::Incomplete;
pub type IResult<I, O, E = NomErrorS<I>> = core::result::Result<(I, O), NErr<E>>;
#[verifier::external_body] pub fn vx_nerr<'a>(i: &'a [u8]) -> (r: NomErrorS<&'a [u8]>) { unimplemented!() }
pub open spec fn cut(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(k, s.len() as int) }
pub broadcast proof fn lemma_cut_cut(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] cut(cut(s, a), b) == cut(s, a + b)
{ assert(cut(cut(s, a), b) =~= cut(s, a + b)); }
pub open spec fn pre(t: Seq<u8>, s: Seq<u8>) -> bool { t.len() <= s.len() && s.subrange(0, t.len() as int) =~= t }
/// (rest, taken) of the first n bytes
pub open spec fn parts(i: Seq<u8>, n: int, rest: Seq<u8>, taken: Seq<u8>) -> bool { 0 <= n <= i.len() && taken =~= i.subrange(0, n) && rest =~= cut(i, n) }
#[verifier::external_body] pub fn vxp_complete_tag<'a, const N: usize>(i: &'a [u8], t: &[u8; N]) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures match r { Ok((rest, o)) => pre(t@, i@) && parts(i@, N as int, rest@, o@), Err(e) => e is Error && !pre(t@, i@) } { unimplemented!() }
#[verifier::external_body] pub fn vxp_tag<'a>(i: &'a [u8], t: &[u8; 1]) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures match r { Ok((rest, o)) => i@.len() > 0 && i@[0] == t@[0] && parts(i@, 1, rest@, o@), Err(e) => if i@.len() == 0 { e is Incomplete } else { e is Error && i@[0] != t@[0] } } { unimplemented!() }
#[verifier::external_body] pub fn vxp_complete_one_of<'a>(i: &'a [u8], t: &[u8; 2]) -> (r: IResult<&'a [u8], char>)
    ensures match r { Ok((rest, o)) => i@.len() > 0 && (i@[0] == t@[0] || i@[0] == t@[1]) && rest@ =~= cut(i@, 1), Err(e) => e is Error && (i@.len() == 0 || (i@[0] != t@[0] && i@[0] != t@[1])) } { unimplemented!() }
/// index of the first byte that does not satisfy f (the length if all do)
pub open spec fn run(f: spec_fn(u8) -> bool, s: Seq<u8>) -> int decreases s.len() { if s.len() > 0 && f(s[0]) { 1 + run(f, cut(s, 1)) } else { 0 } }
pub proof fn lemma_run(f: spec_fn(u8) -> bool, s: Seq<u8>)
    ensures 0 <= run(f, s) <= s.len(), forall|k: int| 0 <= k < run(f, s) ==> f(#[trigger] s[k]), run(f, s) < s.len() ==> !f(s[run(f, s)])
    decreases s.len()
{
    if s.len() > 0 && f(s[0]) {
        let t = cut(s, 1);
        lemma_run(f, t);
        assert forall|k: int| 0 <= k < run(f, s) implies f(#[trigger] s[k]) by { if k > 0 { assert(t[k - 1] == s[k]); } }
        if run(f, t) < t.len() { assert(t[run(f, t)] == s[run(f, s)]); }
    }
}
pub proof fn lemma_run_is(f: spec_fn(u8) -> bool, s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|k: int| 0 <= k < n ==> f(#[trigger] s[k]), n < s.len() ==> !f(s[n])
    ensures run(f, s) == n
{
    lemma_run(f, s);
    let m = run(f, s);
    if m < n { assert(f(s[m])); } else if n < m { assert(f(s[n])); }
}
pub open spec fn blank(c: u8) -> bool { c == 32 || c == 9 }
#[verifier::external_body] pub fn space0<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures match r { Ok((rest, o)) => run(|c: u8| blank(c), i@) < i@.len() && parts(i@, run(|c: u8| blank(c), i@), rest@, o@), Err(e) => e is Incomplete && run(|c: u8| blank(c), i@) == i@.len() } { unimplemented!() }
#[verifier::external_body] pub fn vx_take_token<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures match r { Ok((rest, o)) => run(|c: u8| token(c), i@) < i@.len() && parts(i@, run(|c: u8| token(c), i@), rest@, o@), Err(e) => e is Incomplete && run(|c: u8| token(c), i@) == i@.len() } { unimplemented!() }
#[verifier::external_body] pub fn vx_take_crb1<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures match r { Ok((rest, o)) => 0 < run(|c: u8| c == 13 || blank(c), i@) < i@.len() && parts(i@, run(|c: u8| c == 13 || blank(c), i@), rest@, o@),
        Err(e) => if run(|c: u8| c == 13 || blank(c), i@) == i@.len() { e is Incomplete } else { e is Error && run(|c: u8| c == 13 || blank(c), i@) == 0 } } { unimplemented!() }
#[verifier::external_body] pub fn vx_take_line<'a>(i: &'a [u8], p: &Parser) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures match r { Ok((rest, o)) => run(|c: u8| !eolc(p.side, c), i@) < i@.len() && parts(i@, run(|c: u8| !eolc(p.side, c), i@), rest@, o@), Err(e) => e is Incomplete && run(|c: u8| !eolc(p.side, c), i@) == i@.len() } { unimplemented!() }
/*@ item headers.rs::Side
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item headers.rs::Parser
@*/
/*@ consts headers.rs::HeaderFlags
@*/
/*@ item headers.rs::Name
@*/
/*@ item headers.rs::Value
@*/
/*@ item headers.rs::Header
@*/
pub type ParsedBytes<'a> = (&'a [u8], u64);
pub type ParsedHeaders = (Vec<Header>, bool);
pub type FoldingBytes<'a> = (&'a [u8], &'a [u8], u64);
pub type FoldingOrTerminator<'a> = (ParsedBytes<'a>, Option<&'a [u8]>);
pub type ValueBytes<'a> = (&'a [u8], FoldingOrTerminator<'a>);
pub open spec fn eolc(side: Side, c: u8) -> bool { c == 10 || (side == Side::Response && c == 13) }
/*@ fn headers.rs::Parser::is_eol
nom:
sig: pub fn is_eol(&self, c: u8) -> (r: bool)
spec: ensures r == eolc(self.side, c)
@*/
/*@ fn headers.rs::Parser::complete_eol_regular
nom:
sig: pub fn complete_eol_regular<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>)
spec: ensures match r { Ok((rest, eol)) => eolr(self.side, input@) > 0 && parts(input@, eolr(self.side, input@), rest@, eol@), Err(e) => e is Error && eolr(self.side, input@) == 0 }
@*/
/// length of the end of line the data begins with
pub open spec fn eolr(side: Side, s: Seq<u8>) -> int {
    if s.len() > 1 && s[0] == 13 && s[1] == 10 { 2 } else if side == Side::Response && s.len() > 1 && s[0] == 10 && s[1] == 13 { 2 } else if s.len() > 0 && eolc(side, s[0]) { 1 } else { 0 }
}
/// the line ends that are not taken one by one (deformed ones, an empty continuation line): nothing is stated about them
pub open spec fn odd(side: Side, s: Seq<u8>) -> bool {
    ||| s.len() > 3 && s[0] == 10 && s[1] == 13 && s[2] == 13
    ||| side == Side::Response && eolr(side, s) > 0 && s.len() > eolr(side, s) && blank(s[eolr(side, s)])
    ||| side == Side::Response && s.len() > 2 && s[0] == 13 && s[1] == 10 && s[2] == 13 && (s.len() == 3 || s[3] == 13 || blank(s[3]))
}
pub open spec fn lws(c: u8) -> bool { blank(c) || c == 0 }
pub open spec fn suffix(t: Seq<u8>, s: Seq<u8>) -> bool { t.len() <= s.len() && t =~= cut(s, s.len() - t.len()) }
/*@ fn headers.rs::Parser::folding_empty
nom:
sig: pub fn folding_empty<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], ParsedBytes<'a>>)
pre: & input [ .. eol1 . len ( ) + 1 + eol2 . len ( ) ] =>> vx_to(input, eol1.len() + 1 + eol2.len())
spec: ensures match r {
        Ok((rest, (eol, f))) => odd(self.side, input@) || self.side == Side::Request, Err(e) => e is Error },
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len() && r->Ok_0.1.1 == 0,
@*/
#[verifier::external_body] pub fn vx_to<'a>(i: &'a [u8], n: usize) -> (r: &'a [u8]) requires n <= i@.len() ensures r@ == i@.subrange(0, n as int) { &i[..n] }
/*@ fn headers.rs::Parser::complete_eol_deformed
nom:
sig: pub fn complete_eol_deformed<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], ParsedBytes<'a>>)
pre: take_while1 ( | c | c == b'\r' || c == b' ' || c == b'\t' ) =>> vx_take_crb1
pre: & input [ .. ( eol1 . len ( ) + eol2 . len ( ) + eol3 . unwrap_or ( b"" ) . len ( ) ) ] =>> vx_to(input, eol1.len() + eol2.len() + vx_len(eol3))
spec: ensures !odd(self.side, input@) ==> r is Err && r->Err_0 is Error,
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len() && (r->Ok_0.1.1 == 0 || r->Ok_0.1.1 == HeaderFlags::DEFORMED_EOL),
@*/
pub fn vx_len(o: Option<&[u8]>) -> (r: usize) ensures r == (if o is Some { o->0@.len() as int } else { 0 }) { match o { Some(x) => x.len(), None => 0 } }
/*@ fn headers.rs::Parser::complete_eol
nom:
sig: pub fn complete_eol<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], ParsedBytes<'a>>)
spec: ensures !odd(self.side, input@) ==> match r { Ok((rest, (eol, f))) => f == 0 && eolr(self.side, input@) > 0 && parts(input@, eolr(self.side, input@), rest@, eol@), Err(e) => e is Error && eolr(self.side, input@) == 0 },
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len() && (r->Ok_0.1.1 == 0 || r->Ok_0.1.1 == HeaderFlags::DEFORMED_EOL),
@*/
/*@ fn headers.rs::null
nom:
sig: pub fn null<'a>(input: &'a [u8]) -> (r: IResult<&'a [u8], ParsedBytes<'a>>)
spec: ensures match r { Ok((rest, (o, f))) => input@.len() > 0 && input@[0] == 0 && parts(input@, 1, rest@, o@) && f == HeaderFlags::NULL_TERMINATED, Err(e) => e is Error && (input@.len() == 0 || input@[0] != 0) },
@*/
/*@ fn headers.rs::folding_lws
nom:
sig: pub fn folding_lws<'a>(input: &'a [u8]) -> (r: IResult<&'a [u8], ParsedBytes<'a>>)
spec: ensures match r { Ok((rest, (o, f))) => input@.len() > 0 && lws(input@[0]) && parts(input@, 1, rest@, o@) && f == HeaderFlags::FOLDING, Err(e) => if input@.len() == 0 { e is Incomplete } else { e is Error && !lws(input@[0]) } },
@*/
/*@ fn headers.rs::Parser::eol
nom:
sig: pub fn eol<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], ParsedBytes<'a>>)
spec: ensures !odd(self.side, input@) ==> ({ let n = eolr(self.side, input@); match r {
        Ok((rest, (eol, f))) => f == 0 && n > 0 && n < input@.len() && !lws(input@[n]) && parts(input@, n, rest@, eol@),
        Err(e) => if n == 0 { e is Error } else if n == input@.len() { e is Incomplete } else { e is Error && lws(input@[n]) } } }),
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len() && (r->Ok_0.1.1 == 0 || r->Ok_0.1.1 == HeaderFlags::DEFORMED_EOL),
@*/
/*@ fn headers.rs::Parser::null_or_eol
nom:
sig: pub fn null_or_eol<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], ParsedBytes<'a>>)
spec: ensures !odd(self.side, input@) && input@.len() > 0 && input@[0] != 0 ==> ({ let n = eolr(self.side, input@); match r {
        Ok((rest, (eol, f))) => f == 0 && n > 0 && n < input@.len() && !lws(input@[n]) && parts(input@, n, rest@, eol@),
        Err(e) => if n == 0 { e is Error } else if n == input@.len() { e is Incomplete } else { e is Error && lws(input@[n]) } } }),
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len(),
@*/
/*@ fn headers.rs::Parser::complete_null_or_eol
nom:
sig: pub fn complete_null_or_eol<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], ParsedBytes<'a>>)
spec: ensures !odd(self.side, input@) && input@.len() > 0 && input@[0] != 0 ==> match r { Ok((rest, (eol, f))) => f == 0 && eolr(self.side, input@) > 0 && parts(input@, eolr(self.side, input@), rest@, eol@), Err(e) => e is Error && eolr(self.side, input@) == 0 },
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len(),
@*/
/*@ fn headers.rs::Parser::folding
nom:
sig: pub fn folding<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], FoldingBytes<'a>>)
spec: ensures !odd(self.side, input@) || self.side == Side::Response ==> ({ let n = eolr(self.side, input@); match r {
        Ok((rest, (eol, fold, f))) => f == HeaderFlags::FOLDING && n > 0 && n < input@.len() && lws(input@[n]) && eol@ =~= input@.subrange(0, n) && fold@ =~= seq![input@[n]] && rest@ =~= cut(input@, n + 1),
        Err(e) => if n == 0 { e is Error } else if n == input@.len() { e is Incomplete } else { e is Error && !lws(input@[n]) } } }),
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len() && r->Ok_0.1.1@.len() == 1,
start: assert(0u64 | 1u64 == 1u64) by (bit_vector);
@*/
/// the data begins with a line end that is taken as it is: what follows decides whether the line goes on
pub open spec fn ends(side: Side, s: Seq<u8>) -> bool { !odd(side, s) && eolr(side, s) > 0 && eolr(side, s) < s.len() }
pub open spec fn fot(side: Side, s: Seq<u8>, rest: Seq<u8>, o: FoldingOrTerminator) -> bool {
    let n = eolr(side, s);
    if lws(s[n]) { o.0.0@ =~= s.subrange(0, n) && o.0.1 == HeaderFlags::FOLDING && o.1 is Some && o.1->0@ =~= seq![s[n]] && rest =~= cut(s, n + 1) }
    else { o.0.0@ =~= s.subrange(0, n) && o.0.1 == 0 && o.1 is None && rest =~= cut(s, n) }
}
/*@ fn headers.rs::Parser::complete_folding_or_terminator
nom:
sig: pub fn complete_folding_or_terminator<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], FoldingOrTerminator<'a>>)
spec: ensures ends(self.side, input@) ==> r is Ok && fot(self.side, input@, r->Ok_0.0@, r->Ok_0.1),
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len(), r is Ok && r->Ok_0.1.1 is Some ==> r->Ok_0.1.1->0@.len() == 1,
@*/
/*@ fn headers.rs::Parser::streaming_folding_or_terminator
nom:
sig: pub fn streaming_folding_or_terminator<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], FoldingOrTerminator<'a>>)
spec: ensures ends(self.side, input@) ==> r is Ok && fot(self.side, input@, r->Ok_0.0@, r->Ok_0.1),
    eolr(self.side, input@) == input@.len() && input@.len() > 0 && !odd(self.side, input@) ==> r is Err && r->Err_0 is Incomplete,
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len(), r is Ok && r->Ok_0.1.1 is Some ==> r->Ok_0.1.1->0@.len() == 1,
@*/
/*@ fn headers.rs::Parser::folding_or_terminator
nom:
sig: pub fn folding_or_terminator<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], FoldingOrTerminator<'a>>)
spec: ensures ends(self.side, input@) ==> r is Ok && fot(self.side, input@, r->Ok_0.0@, r->Ok_0.1),
    !self.complete && eolr(self.side, input@) == input@.len() && input@.len() > 0 && !odd(self.side, input@) ==> r is Err && r->Err_0 is Incomplete,
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len(), r is Ok && r->Ok_0.1.1 is Some ==> r->Ok_0.1.1->0@.len() == 1,
@*/
// ---------------------------------------------------------------------------------------------------- values
pub open spec fn lrun(side: Side, s: Seq<u8>) -> int { run(|c: u8| !eolc(side, c), s) }
/// length of the line's text: up to its line end
pub open spec fn vlen(side: Side, s: Seq<u8>) -> int { let n = lrun(side, s); if n > 0 && n <= s.len() && s[n - 1] == 13 { n - 1 } else { n } }
/// the data begins with a line that ends in a way taken as it is, and it is known what follows
pub open spec fn line(side: Side, s: Seq<u8>) -> bool { lrun(side, s) < s.len() && ends(side, cut(s, vlen(side, s))) }
/// the line is not finished, or what follows is not known
pub open spec fn unfinished(side: Side, s: Seq<u8>) -> bool {
    lrun(side, s) == s.len() || (vlen(side, s) + eolr(side, cut(s, vlen(side, s))) == s.len() && !odd(side, cut(s, vlen(side, s))))
}
#[verifier::external_body] pub fn vx_last_is(s: &[u8], c: u8) -> (r: bool) ensures r == (s@.len() > 0 && s@[s@.len() - 1] == c) { s.last() == Some(&c) }
#[verifier::external_body] pub fn vx_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
#[verifier::external_body] pub fn vx_extend(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { v.extend(s) }
/*@ fn headers.rs::Parser::value_bytes
nom:
sig: pub fn value_bytes<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], ValueBytes<'a>>)
pre: take_till ( self . is_eol ( ) ) ( input ) =>> vx_take_line(input, self)
pre: value . last ( ) == Some ( & b'\r' ) =>> vx_last_is(value, b'\r')
pre: & value [ .. value . len ( ) - 1 ] =>> vx_to(value, value.len() - 1)
pre: & input [ value . len ( ) .. ] =>> vx_from(input, value.len())
spec: ensures
    line(self.side, input@) ==> r is Ok && r->Ok_0.1.0@ =~= input@.subrange(0, vlen(self.side, input@)) && fot(self.side, cut(input@, vlen(self.side, input@)), r->Ok_0.0@, r->Ok_0.1.1),
    !self.complete && unfinished(self.side, input@) ==> r is Err && r->Err_0 is Incomplete,
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len(), r is Ok && r->Ok_0.1.1.1 is Some ==> r->Ok_0.1.1.1->0@.len() == 1,
start: proof { lemma_run(|c: u8| !eolc(self.side, c), input@); }
@*/
#[verifier::external_body] pub fn vx_from<'a>(i: &'a [u8], n: usize) -> (r: &'a [u8]) requires n <= i@.len() ensures r@ == cut(i@, n as int) { &i[n..] }
/*@ fn headers.rs::separator_regular
nom:
sig: pub fn separator_regular<'a>(input: &'a [u8]) -> (r: IResult<&'a [u8], (&'a [u8], &'a [u8])>)
spec: ensures match r { Ok((rest, _)) => sepr(input@) && rest@ =~= cut(input@, 1 + run(|c: u8| blank(c), cut(input@, 1))), Err(e) => if input@.len() > 0 && input@[0] == 58 { e is Incomplete && !sepr(input@) } else { e is Error } },
start: proof { if input@.len() > 0 { lemma_run(|c: u8| blank(c), cut(input@, 1)); } }
@*/
pub open spec fn sepr(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 58 && run(|c: u8| blank(c), cut(s, 1)) < s.len() - 1 }
pub open spec fn tc1(s: Seq<u8>) -> int { run(|c: u8| blank(c), s) }
pub open spec fn tc2(s: Seq<u8>) -> int { tc1(s) + run(|c: u8| token(c), cut(s, tc1(s))) }
pub open spec fn tc3(s: Seq<u8>) -> int { tc2(s) + run(|c: u8| blank(c), cut(s, tc2(s))) }
pub proof fn lemma_tc(s: Seq<u8>) ensures 0 <= tc1(s) <= tc2(s) <= tc3(s) <= s.len()
{ lemma_run(|c: u8| blank(c), s); lemma_run(|c: u8| token(c), cut(s, tc1(s))); lemma_run(|c: u8| blank(c), cut(s, tc2(s))); }
/*@ fn headers.rs::token_chars
nom:
sig: pub fn token_chars<'a>(input: &'a [u8]) -> (r: IResult<&'a [u8], (&'a [u8], &'a [u8], &'a [u8])>)
pre: take_while ( is_token ) =>> vx_take_token
spec: ensures match r { Ok((rest, (_, t, _))) => tc3(input@) < input@.len() && rest@ =~= cut(input@, tc3(input@)) && t@.len() == tc2(input@) - tc1(input@), Err(e) => e is Incomplete && tc3(input@) == input@.len() },
start: broadcast use lemma_cut_cut;
   proof { lemma_tc(input@); }
@*/
/// what follows looks like a field of its own: a token and a colon
pub open spec fn fieldlike(s: Seq<u8>) -> bool { tc2(s) > tc1(s) && tc3(s) < s.len() && s[tc3(s)] == 58 }
pub proof fn lemma_run_le(f: spec_fn(u8) -> bool, s: Seq<u8>, m: int)
    requires 0 <= m < s.len(), !f(s[m])
    ensures run(f, s) <= m
{ lemma_run(f, s); }
/// while a line end is still ahead, looking for a field name and a colon does not run out of data
pub proof fn lemma_ahead(side: Side, s: Seq<u8>)
    requires lrun(side, s) < s.len()
    ensures tc3(s) <= lrun(side, s), s[tc3(s)] == 58 ==> sepr(cut(s, tc3(s)))
{
    let m = lrun(side, s);
    lemma_run(|c: u8| !eolc(side, c), s);
    lemma_run_le(|c: u8| blank(c), s, m);
    lemma_run(|c: u8| blank(c), s);
    assert(cut(s, tc1(s))[m - tc1(s)] == s[m]);
    lemma_run_le(|c: u8| token(c), cut(s, tc1(s)), m - tc1(s));
    lemma_run(|c: u8| token(c), cut(s, tc1(s)));
    assert(cut(s, tc2(s))[m - tc2(s)] == s[m]);
    lemma_run_le(|c: u8| blank(c), cut(s, tc2(s)), m - tc2(s));
    lemma_run(|c: u8| blank(c), cut(s, tc2(s)));
    if s[tc3(s)] == 58 {
        let t = cut(s, tc3(s));
        assert(t[m - tc3(s)] == s[m]);
        assert(m > tc3(s));
        assert(cut(t, 1)[m - tc3(s) - 1] == s[m]);
        lemma_run_le(|c: u8| blank(c), cut(t, 1), m - tc3(s) - 1);
        assert(t[0] == s[tc3(s)]);
    }
}
/// the continuation lines: each is joined with the white space byte that made it one; in a response a continuation that looks like a
/// field of its own is one.  (None: nothing is stated, a line ends oddly or is empty)
pub open spec fn folded(side: Side, i: Seq<u8>, acc: Seq<u8>, of: u8, joined: bool) -> Option<(Seq<u8>, Seq<u8>, bool)> decreases i.len() {
    let v = vlen(side, i);
    let t = cut(i, v);
    let n = eolr(side, t);
    if !line(side, i) || v < 0 || v > i.len() { None }
    else if side == Side::Response && fieldlike(i) { Some((acc, i, joined)) }
    else if v == 0 { None }
    else {
        let a = (if acc.len() > 0 { acc.push(of) } else { acc }) + i.subrange(0, v);
        if lws(t[n]) { folded(side, cut(t, n + 1), a, t[n], true) } else { Some((a, cut(t, n), true)) }
    }
}
/// the value the data begins with, what follows it, and its flags
pub open spec fn fvalue(side: Side, s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>, u64)> {
    let v = vlen(side, s);
    let t = cut(s, v);
    let n = eolr(side, t);
    let x = s.subrange(0, v);
    if !line(side, s) { None }
    else if lws(t[n]) {
        match folded(side, cut(t, n + 1), x, t[n], false) {
            None => None,
            Some((a, rest, true)) => Some((a, rest, HeaderFlags::FOLDING)),
            Some((a, rest, false)) => Some((a, rest, if a.len() == 0 { HeaderFlags::VALUE_EMPTY } else { 0 })),
        }
    } else { Some((x, cut(t, n), if v == 0 { HeaderFlags::VALUE_EMPTY } else { 0 })) }
}
pub open spec fn tr(s: Seq<u8>) -> Seq<u8> { rstrip(lstrip(s)) }
impl Name {
/*@ fn headers.rs::Name::new
noimpl:
pre: trimmed ( name ) . to_vec ( ) =>> vx_vec(trimmed(name))
ret: r
spec: ensures r.name@ == tr(name@), r.flags == flags
@*/
}
impl Value {
/*@ fn headers.rs::Value::new
noimpl:
pre: trimmed ( value ) . to_vec ( ) =>> vx_vec(trimmed(value))
ret: r
spec: ensures r.value@ == tr(value@), r.flags == flags
@*/
}
impl Header {
/*@ fn headers.rs::Header::new
noimpl:
ret: r
spec: ensures r.name == name, r.value == value
@*/
/*@ fn headers.rs::Header::new_with_flags
noimpl:
ret: r
spec: ensures r.name.name@ == tr(name_bytes@), r.name.flags == name_flags, r.value.value@ == tr(value_bytes@), r.value.flags == value_flags
@*/
}
/*@ fn headers.rs::Parser::value
nom:
sig: pub fn value<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], Value>)
pre: val_bytes . to_vec ( ) =>> vx_vec(val_bytes)
pre: value . extend ( val_bytes ) =>> vx_extend(&mut value, val_bytes)
spec: ensures
    fvalue(self.side, input@) is Some ==> r is Ok && r->Ok_0.0@ =~= (fvalue(self.side, input@)->0).1 && r->Ok_0.1.value@ == tr((fvalue(self.side, input@)->0).0) && r->Ok_0.1.flags == (fvalue(self.side, input@)->0).2,
    !self.complete && unfinished(self.side, input@) ==> r is Err && r->Err_0 is Incomplete,
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len(),
start: let ghost fv = fvalue(self.side, input@); let ghost n0 = eolr(self.side, cut(input@, vlen(self.side, input@)));
   proof { lemma_run(|c: u8| !eolc(self.side, c), input@); assert(1u64 | 1u64 == 1u64 && 1u64 | 0u64 == 1u64 && 1u64 & !3u64 == 0u64 && 0u64 | 8u64 == 8u64) by (bit_vector); assert(2u64 | 1u64 == 3u64) by (bit_vector); }
   let ghost f0 = folded(self.side, cut(cut(input@, vlen(self.side, input@)), n0 + 1), input@.subrange(0, vlen(self.side, input@)), cut(input@, vlen(self.side, input@))[n0], false);
loop 0:
    invariant
        fv == fvalue(self.side, input@), ofold@.len() == 1, suffix(i@, input@), suffix(rest@, input@), i@.len() < input@.len(), rest@.len() < input@.len(),
        1u64 | 1u64 == 1u64, 1u64 | 0u64 == 1u64, 1u64 & !3u64 == 0u64, 0u64 | 8u64 == 8u64, 2u64 | 1u64 == 3u64,
        !(!self.complete && unfinished(self.side, input@)),
        fv is Some && joined ==> value@.len() > 0,
        fv is Some ==> flags == HeaderFlags::FOLDING && f0 is Some && folded(self.side, i@, value@, ofold@[0], joined) == f0
            && fv == Some(((f0->0).0, (f0->0).1, if (f0->0).2 { HeaderFlags::FOLDING } else if (f0->0).0.len() == 0 { HeaderFlags::VALUE_EMPTY } else { 0 })),
    decreases i@.len()
loop 0 start: proof { if fv is Some { lemma_ahead(self.side, i@); lemma_tc(i@); lemma_run(|c: u8| !eolc(self.side, c), i@); } }
@*/
// ---------------------------------------------------------------------------------------------------- names and fields
pub open spec fn nend(s: Seq<u8>) -> int { run(|c: u8| c != 58 && c != 10, s) }
/// neither a token nor a token with white space around it
pub open spec fn nontoken(s: Seq<u8>) -> bool { tc3(s) < s.len() }
pub open spec fn nflags(s: Seq<u8>) -> u64 {
    if s.len() == 0 { HeaderFlags::NAME_EMPTY } else {
        (if blank(s[0]) { HeaderFlags::NAME_LEADING_WHITESPACE } else { 0 }) | (if blank(s[s.len() - 1]) { HeaderFlags::NAME_TRAILING_WHITESPACE } else { 0 }) | (if nontoken(s) { HeaderFlags::NAME_NON_TOKEN_CHARS } else { 0 })
    }
}
/// where the name ends is decided by the first line
pub open spec fn named(s: Seq<u8>) -> bool { nend(s) < s.len() && (s[nend(s)] == 58 || (nend(s) + 1 < s.len() && s[nend(s) + 1] != 32)) }
#[verifier::external_body] pub fn vx_split_at<'a>(s: &'a [u8], n: usize) -> (r: (&'a [u8], &'a [u8])) requires n <= s@.len() ensures r.0@ == s@.subrange(0, n as int), r.1@ == cut(s@, n as int) { s.split_at(n) }
#[verifier::external_body] pub fn vx_last<'a>(s: &'a [u8]) -> (r: Option<&'a u8>) ensures match r { Some(c) => s@.len() > 0 && *c == s@[s@.len() - 1], None => s@.len() == 0 } { s.last() }
#[verifier::external_body] pub fn nom_is_space(c: u8) -> (r: bool) ensures r == blank(c) { unimplemented!() }
/*@ fn headers.rs::Parser::name
nom:
sig: pub fn name<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], Name>)
pre: input . split_at ( offset ) =>> vx_split_at(input, offset)
pre: name . last ( ) =>> vx_last(name)
pre: is_space =>> nom_is_space
subst: return Ok ( ( rem , Name :: new ( name , flags ) ) ) ; =>> { proof { lemma_tc(name@); assert(((0u64 | 0x80u64) | 0x40u64) | 0x10u64 == 0xd0u64 && (0x80u64 | 0x40u64) == 0xc0u64 && (0xc0u64 | 0u64) == 0xc0u64 && (0xc0u64 | 0x10u64) == 0xd0u64 && (0x80u64 | 0x10u64) == 0x90u64 && (0x40u64 | 0x10u64) == 0x50u64 && (0x80u64|0u64)==0x80u64 && (0x40u64|0u64)==0x40u64 && (0u64|0u64)==0u64 && (0u64|0x10u64)==0x10u64 && (0u64|0x40u64)==0x40u64 && (0u64|0x80u64)==0x80u64) by (bit_vector); } return Ok((rem, Name::new(name, flags))); }
spec: ensures r is Ok, suffix(r->Ok_0.0@, input@),
    named(input@) ==> r->Ok_0.0@ =~= cut(input@, nend(input@)) && r->Ok_0.1.name@ == tr(input@.subrange(0, nend(input@))) && r->Ok_0.1.flags == nflags(input@.subrange(0, nend(input@))),
    nend(input@) == input@.len() || (nend(input@) + 1 == input@.len() && input@[nend(input@)] == 10) ==> r->Ok_0.0@ =~= input@,
start: proof { lemma_run(|c: u8| c != 58 && c != 10, input@); }
   proof { assert(0u64 | 4u64 == 4u64 && 0u64 | 0u64 == 0u64 && 0u64 | 0x80u64 == 0x80u64 && 0x80u64 | 0u64 == 0x80u64 && 0u64 | 0x40u64 == 0x40u64 && 0x40u64 | 0u64 == 0x40u64 && 0u64 | 0x10u64 == 0x10u64 && 0x10u64 | 0u64 == 0x10u64 && (0x80u64 | 0x40u64) | 0u64 == 0x80u64 | 0x40u64) by (bit_vector); }
loop 0:
    invariant_except_break
        offset == 0,
        !terminated ==> i <= nend(input@) || nend(input@) + 1 < i,
        !terminated && i > nend(input@) ==> input@[nend(input@)] == 10 && nend(input@) + 1 < input@.len() && input@[nend(input@) + 1] == 32,
        terminated ==> i > nend(input@) && input@[nend(input@)] == 10 && (i > nend(input@) + 1 ==> input@[nend(input@) + 1] == 32),
        terminated ==> i >= 1,
    invariant 0 <= nend(input@) <= input@.len(), nend(input@) < input@.len() ==> input@[nend(input@)] == 58 || input@[nend(input@)] == 10,
        forall|k: int| 0 <= k < nend(input@) ==> #[trigger] input@[k] != 58 && input@[k] != 10, offset <= input@.len(),
    ensures offset <= input@.len(), named(input@) ==> offset == nend(input@),
       nend(input@) == input@.len() || (nend(input@) + 1 == input@.len() && input@[nend(input@)] == 10) ==> offset == 0,
@*/
/*@ fn headers.rs::Parser::separator
nom:
sig: pub fn separator<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], u64>)
spec: ensures match r { Ok((rest, f)) => f == 0 && sepr(input@) && suffix(rest@, input@) && rest@.len() < input@.len() && rest@ =~= cut(input@, 1 + run(|c: u8| blank(c), cut(input@, 1))), Err(e) => if input@.len() > 0 && input@[0] == 58 { e is Incomplete && !sepr(input@) } else { e is Error } },
start: proof { if input@.len() > 0 { lemma_run(|c: u8| blank(c), cut(input@, 1)); } }
@*/
/// one header field as the transaction sees it
pub ghost struct F { pub name: Seq<u8>, pub nf: u64, pub value: Seq<u8>, pub vf: u64 }
pub open spec fn fview(h: Header) -> F { F { name: h.name.name@, nf: h.name.flags, value: h.value.value@, vf: h.value.flags } }
/// where the value begins: after the colon and the white space that follows it
pub open spec fn vstart(s: Seq<u8>) -> int { nend(s) + 1 + run(|c: u8| blank(c), cut(s, nend(s) + 1)) }
pub open spec fn colonfield(side: Side, s: Seq<u8>) -> Option<(F, Seq<u8>)> {
    let n = nend(s);
    if n >= s.len() || s[n] != 58 || !sepr(cut(s, n)) { None } else {
        match fvalue(side, cut(s, vstart(s))) {
            None => None,
            Some((v, rest, vf)) => Some((F { name: tr(s.subrange(0, n)), nf: nflags(s.subrange(0, n)), value: tr(v), vf: vf }, rest)),
        }
    }
}
pub open spec fn crlf(s: Seq<u8>) -> bool { s.len() > 1 && s[0] == 13 && s[1] == 10 }
/// the field the data begins with and what follows it; a line without a colon is a value without a name (None: nothing is stated)
pub open spec fn field(side: Side, s: Seq<u8>) -> Option<(F, Seq<u8>)> {
    if !named(s) { None } else if s[nend(s)] == 58 { colonfield(side, s) } else if crlf(s) { None } else {
        match fvalue(side, s) {
            None => None,
            Some((v, rest, vf)) => Some((F { name: tr(Seq::<u8>::empty()), nf: vf | HeaderFlags::MISSING_COLON, value: tr(tr(v)), vf: vf | HeaderFlags::MISSING_COLON }, rest)),
        }
    }
}
/// the field is not complete yet
pub open spec fn pending(side: Side, s: Seq<u8>) -> bool {
    unfinished(side, s) && !crlf(s) && (side == Side::Response && nend(s) < s.len() && s[nend(s)] == 58 ==> nend(s) < lrun(side, s))
}
pub proof fn lemma_pending(side: Side, s: Seq<u8>)
    requires pending(side, s), nend(s) < s.len(), s[nend(s)] == 58
    ensures nend(s) < lrun(side, s), sepr(cut(s, nend(s))) ==> unfinished(side, cut(s, vstart(s)))
{
    let f = |c: u8| !eolc(side, c);
    let n = nend(s);
    lemma_run(|c: u8| c != 58 && c != 10, s);
    lemma_run(f, s);
    let m = lrun(side, s);
    if m <= n && m < s.len() { assert(s[m] == 13 || s[m] == 10); assert(side == Side::Request ==> s[m] == 10); }
    if sepr(cut(s, n)) {
        assert(cut(cut(s, n), 1) =~= cut(s, n + 1));
        lemma_run(|c: u8| blank(c), cut(s, n + 1));
        let k = vstart(s);
        let t = cut(s, k);
        // the line goes on at least to the value
        assert forall|j: int| n < j < k implies blank(#[trigger] s[j]) by { assert(cut(s, n + 1)[j - n - 1] == s[j]); }
        if m < k { assert(blank(s[m])); }
        assert forall|j: int| 0 <= j < m - k implies f(#[trigger] t[j]) by { assert(t[j] == s[j + k]); }
        lemma_run_is(f, t, m - k);
        assert(lrun(side, t) == m - k);
        if m < s.len() {
            if m - k > 0 { assert(t[m - k - 1] == s[m - 1]); assert(vlen(side, t) == vlen(side, s) - k); }
            else { assert(s[m - 1] == 58 || blank(s[m - 1])); assert(vlen(side, t) == vlen(side, s) - k); }
            assert(cut(t, vlen(side, t)) =~= cut(s, vlen(side, s)));
        }
    }
}
/// a line without a colon that is not finished
pub proof fn lemma_pending_sans(side: Side, s: Seq<u8>)
    requires pending(side, s), nend(s) < s.len(), s[nend(s)] != 58
    ensures nend(s) + 1 == s.len() || s[nend(s) + 1] != 32
{
    let f = |c: u8| !eolc(side, c);
    let n = nend(s);
    lemma_run(|c: u8| c != 58 && c != 10, s);
    lemma_run(f, s);
    let m = lrun(side, s);
    assert(s[n] == 10);
    if m > n { assert(f(s[n])); }
    let v = vlen(side, s);
    let t = cut(s, v);
    assert(t[0] == s[v]);
    if n + 1 < s.len() {
        if t.len() > 1 { assert(t[1] == s[v + 1]); }
    }
}
pub broadcast proof fn lemma_suffix(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires #[trigger] suffix(a, b), #[trigger] suffix(b, c)
    ensures suffix(a, c)
{ assert(cut(cut(c, c.len() - b.len()), b.len() - a.len()) =~= cut(c, c.len() - a.len())); }
pub proof fn lemma_suffix_cut(s: Seq<u8>, k: int) requires 0 <= k <= s.len() ensures suffix(cut(s, k), s) { }
/*@ fn headers.rs::Parser::header_sans_colon
nom:
sig: pub fn header_sans_colon<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], Header>)
spec: ensures
    !crlf(input@) && fvalue(self.side, input@) is Some ==> r is Ok && ({ let (v, rest, vf) = fvalue(self.side, input@)->0;
        r->Ok_0.0@ =~= rest && fview(r->Ok_0.1) == (F { name: tr(Seq::<u8>::empty()), nf: vf | HeaderFlags::MISSING_COLON, value: tr(tr(v)), vf: vf | HeaderFlags::MISSING_COLON }) }),
    !self.complete && unfinished(self.side, input@) && !crlf(input@) ==> r is Err && r->Err_0 is Incomplete,
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len(),
@*/
/*@ fn headers.rs::Parser::header_with_colon
nom:
sig: pub fn header_with_colon<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], Header>)
spec: ensures
    colonfield(self.side, input@) is Some ==> r is Ok && r->Ok_0.0@ =~= (colonfield(self.side, input@)->0).1 && fview(r->Ok_0.1) == (colonfield(self.side, input@)->0).0,
    named(input@) && input@[nend(input@)] != 58 ==> r is Err && !(r->Err_0 is Failure),
    !self.complete && pending(self.side, input@) ==> r is Err && !(r->Err_0 is Failure),
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len(),
start: broadcast use lemma_suffix;
   proof { assert(forall|x: u64| #[trigger] (x | 0u64) == x) by (bit_vector); lemma_run(|c: u8| c != 58 && c != 10, input@); if pending(self.side, input@) && nend(input@) < input@.len() && input@[nend(input@)] == 58 { lemma_pending(self.side, input@); }
     if pending(self.side, input@) && nend(input@) < input@.len() && input@[nend(input@)] != 58 { lemma_pending_sans(self.side, input@); }
     if nend(input@) < input@.len() { lemma_run(|c: u8| blank(c), cut(input@, nend(input@) + 1)); let t = cut(input@, nend(input@)); assert(cut(t, 1) =~= cut(input@, nend(input@) + 1)); assert(t[0] == input@[nend(input@)]);
        assert(cut(t, 1 + run(|c: u8| blank(c), cut(t, 1))) =~= cut(input@, vstart(input@))); } }
@*/
/*@ fn headers.rs::Parser::header
nom:
sig: pub fn header<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], Header>)
spec: ensures
    field(self.side, input@) is Some ==> r is Ok && r->Ok_0.0@ =~= (field(self.side, input@)->0).1 && fview(r->Ok_0.1) == (field(self.side, input@)->0).0,
    !self.complete && pending(self.side, input@) ==> r is Err && r->Err_0 is Incomplete,
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len(),
@*/
/// the fields of a header block, in order, up to the empty line that ends it (true) or to a field that is not complete yet (false);
/// what follows.  (None: nothing is stated)
pub open spec fn fields(side: Side, s: Seq<u8>) -> Option<(Seq<F>, Seq<u8>, bool)> decreases s.len() {
    match field(side, s) {
        None => if pending(side, s) { Some((Seq::<F>::empty(), s, false)) } else { None },
        Some((f, rest)) => if pending(side, s) || rest.len() >= s.len() || odd(side, rest) { None }
            else if eolr(side, rest) > 0 { Some((seq![f], cut(rest, eolr(side, rest)), true)) }
            else { match fields(side, rest) { None => None, Some((fs, r, eoh)) => Some((seq![f] + fs, r, eoh)) } },
    }
}
pub open spec fn fviews(v: Seq<Header>) -> Seq<F> { v.map_values(|h: Header| fview(h)) }
pub proof fn lemma_vf(side: Side, s: Seq<u8>) ensures match field(side, s) { Some((f, rest)) => f.vf & 0x100 == 0, None => true }
{ assert(0u64 & 0x100 == 0 && 1u64 & 0x100 == 0 && 8u64 & 0x100 == 0 && (0u64 | (0x200u64 | 4)) & 0x100 == 0 && (1u64 | (0x200u64 | 4)) & 0x100 == 0 && (8u64 | (0x200u64 | 4)) & 0x100 == 0) by (bit_vector); }
/*@ fn headers.rs::Parser::headers
nom:
sig: pub fn headers<'a>(&self, input: &'a [u8]) -> (r: IResult<&'a [u8], ParsedHeaders>)
attr: #[verifier::loop_isolation(false)]
spec: ensures
    !self.complete && fields(self.side, input@) is Some ==> ({ let (fs, rest, eoh) = fields(self.side, input@)->0;
        if fs.len() == 0 { r is Err && r->Err_0 is Incomplete } else { r is Ok && r->Ok_0.0@ =~= rest && fviews(r->Ok_0.1.0@) =~= fs && r->Ok_0.1.1 == eoh } }),
    r is Ok ==> suffix(r->Ok_0.0@, input@) && r->Ok_0.0@.len() < input@.len() && r->Ok_0.1.0@.len() > 0,
start: broadcast use lemma_suffix;
   proof { lemma_vf(self.side, input@); }
loop 0:
    invariant suffix(i@, input@), i@.len() < input@.len(), out@.len() > 0,
        !self.complete && fields(self.side, input@) is Some ==> ({ let (fs, rest, eoh) = fields(self.side, input@)->0; 
           match fields(self.side, i@) { None => false, Some((fs2, rest2, eoh2)) => fs =~= fviews(out@) + fs2 && rest2 == rest && eoh2 == eoh } }),
    decreases i@.len()
loop 0 start: broadcast use lemma_suffix; proof { lemma_vf(self.side, i@); }
@*/
// ---------------------------------------------------------------------------------------------------- what a sender writes is what is read
pub open spec fn goodname(n: Seq<u8>) -> bool { n.len() > 0 && forall|k: int| 0 <= k < n.len() ==> token(#[trigger] n[k]) }
pub open spec fn goodvalue(v: Seq<u8>) -> bool { v.len() > 0 && !sp(v[0]) && !sp(v[v.len() - 1]) && forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] != 10 && v[k] != 13 }
pub open spec fn wire(fs: Seq<(Seq<u8>, Seq<u8>)>, body: Seq<u8>) -> Seq<u8> decreases fs.len() {
    if fs.len() == 0 { seq![13u8, 10u8] + body } else { fs[0].0 + seq![58u8, 32u8] + fs[0].1 + seq![13u8, 10u8] + wire(fs.subrange(1, fs.len() as int), body) }
}
pub open spec fn plain(fs: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<F> { fs.map_values(|p: (Seq<u8>, Seq<u8>)| F { name: p.0, nf: 0, value: p.1, vf: 0 }) }
pub proof fn lemma_tr(s: Seq<u8>) requires s.len() > 0, !sp(s[0]), !sp(s[s.len() - 1]) ensures tr(s) == s { }
pub proof fn lemma_name(n: Seq<u8>) requires goodname(n) ensures nflags(n) == 0, tr(n) == n
{
    assert(token(n[0]) && token(n[n.len() - 1]));
    lemma_tr(n);
    assert(tc1(n) == 0);
    assert(cut(n, 0) =~= n);
    lemma_run_is(|c: u8| token(c), n, n.len() as int);
    assert(tc2(n) == n.len());
    assert(0u64 | 0u64 == 0u64) by (bit_vector);
}
/// one line "name: value CR LF" followed by something that does not continue it
pub proof fn lemma_one(side: Side, n: Seq<u8>, v: Seq<u8>, r: Seq<u8>)
    requires goodname(n), goodvalue(v), r.len() > 1, !lws(r[0]), r[0] != 10, r[0] == 13 ==> r[1] == 10
    ensures ({ let s = n + seq![58u8, 32u8] + v + seq![13u8, 10u8] + r;
        field(side, s) == Some((F { name: n, nf: 0u64, value: v, vf: 0u64 }, r)) && !pending(side, s) && r.len() < s.len() })
{
    let s = n + seq![58u8, 32u8] + v + seq![13u8, 10u8] + r;
    let a = n.len() as int;
    let t = v + seq![13u8, 10u8] + r;
    let f = |c: u8| !eolc(side, c);
    assert forall|k: int| 0 <= k < a implies #[trigger] s[k] != 58 && s[k] != 10 by { assert(s[k] == n[k]); assert(token(n[k])); }
    assert(s[a] == 58);
    lemma_run_is(|c: u8| c != 58 && c != 10, s, a);
    assert(s.subrange(0, a) =~= n);
    lemma_name(n);
    lemma_tr(v);
    let u = cut(s, a + 1);
    assert(u[0] == 32 && u[1] == v[0] && !blank(v[0]));
    assert forall|k: int| 0 <= k < 1 implies blank(#[trigger] u[k]) by { assert(k == 0); }
    lemma_run_is(|c: u8| blank(c), u, 1);
    assert(cut(cut(s, a), 1) =~= u);
    assert(cut(s, a)[0] == 58);
    assert(vstart(s) == a + 2);
    assert(cut(s, a + 2) =~= t);
    // the value's line
    let b = v.len() as int;
    assert(t[b] == 13 && t[b + 1] == 10);
    assert forall|k: int| 0 <= k < b implies f(#[trigger] t[k]) by { assert(t[k] == v[k]); }
    if side == Side::Response { lemma_run_is(f, t, b); assert(t[b - 1] == v[b - 1]); } else { assert(f(t[b])); lemma_run_is(f, t, b + 1); }
    assert(vlen(side, t) == b);
    let w = cut(t, b);
    assert(w[0] == 13 && w[1] == 10 && w[2] == r[0]);
    assert(w.len() > 3 ==> w[3] == r[1]);
    assert(eolr(side, w) == 2);
    assert(!odd(side, w));
    assert(line(side, t));
    assert(cut(w, 2) =~= r);
    assert(t.subrange(0, b) =~= v);
    assert(fvalue(side, t) == Some((v, r, 0u64)));
    if pending(side, s) { lemma_pending(side, s); assert(unfinished(side, t)); assert(false); }
}
/// a header block of well formed lines is read as exactly its fields, in order, and ends at the empty line
pub proof fn lemma_wire(side: Side, fs: Seq<(Seq<u8>, Seq<u8>)>, body: Seq<u8>)
    requires fs.len() > 0, forall|k: int| 0 <= k < fs.len() ==> goodname((#[trigger] fs[k]).0) && goodvalue(fs[k].1), !odd(side, seq![13u8, 10u8] + body)
    ensures fields(side, wire(fs, body)) == Some((plain(fs), body, true))
    decreases fs.len()
{
    hide(field); hide(pending); hide(goodvalue);
    let rest = fs.subrange(1, fs.len() as int);
    let r = wire(rest, body);
    assert(goodname(fs[0].0));
    if rest.len() > 0 {
        assert forall|k: int| 0 <= k < rest.len() implies goodname((#[trigger] rest[k]).0) && goodvalue(rest[k].1) by { assert(rest[k] == fs[k + 1]); }
        lemma_wire(side, rest, body);
        assert(goodname(rest[0].0)); assert(token(rest[0].0[0]));
        assert(r[0] == rest[0].0[0]);
        lemma_one(side, fs[0].0, fs[0].1, r);
        assert(!odd(side, r) && eolr(side, r) == 0);
        assert(seq![F { name: fs[0].0, nf: 0u64, value: fs[0].1, vf: 0u64 }] + plain(rest) =~= plain(fs));
    } else {
        assert(r == seq![13u8, 10u8] + body);
        lemma_one(side, fs[0].0, fs[0].1, r);
        assert(eolr(side, r) == 2);
        assert(cut(r, 2) =~= body);
        assert(seq![F { name: fs[0].0, nf: 0u64, value: fs[0].1, vf: 0u64 }] =~= plain(fs));
    }
}
fn main() {}
}
