#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
// what the log says is not stated here (P23)
macro_rules! htp_warn { ($($t:tt)*) => { () } }
/*@ item log.rs::htp_warn_once
@*/
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug
@*/
//@include base.inc
//@include bstr.inc
//@include flags.inc
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
/*@ consts headers.rs::HeaderFlags
@*/
// ---- a header as it is read (unit hparse) ----
/*@ item headers.rs::Name
@*/
/*@ item headers.rs::Value
@*/
pub mod parsed { 
use vstd::prelude::*;
use super::*;
/*@ item headers.rs::Header
@*/
}
pub ghost struct F { pub name: Seq<u8>, pub nf: u64, pub value: Seq<u8>, pub vf: u64 }
pub open spec fn fview(h: parsed::Header) -> F { F { name: h.name.name@, nf: h.name.flags, value: h.value.value@, vf: h.value.flags } }
pub open spec fn fviews(v: Seq<parsed::Header>) -> Seq<F> { v.map_values(|h: parsed::Header| fview(h)) }
#[verifier::external_body] pub struct HeaderParser { _0: u8 }
impl HeaderParser {
    /// the header block at the start of the data: its fields, how much follows it and whether its end was seen; None if there is none yet
    /// (contract of unit hparse)
    pub uninterp spec fn block(&self, s: Seq<u8>) -> Option<(Seq<F>, Seq<u8>, bool)>;
    #[verifier::external_body] pub fn vx_headers<'a>(&self, data: &'a [u8]) -> (r: core::result::Result<(&'a [u8], (Vec<parsed::Header>, bool)), u8>)
        ensures match r { Ok((rest, (hs, eoh))) => self.block(data@) == Some((fviews(hs@), rest@, eoh)), Err(_) => self.block(data@) is None } { unimplemented!() }
}
// ---- the header table ----
/*@ item transaction.rs::Header
@*/
/*@ item transaction.rs::Headers
@*/
/*@ item transaction.rs::Transaction
fields: flags, request_headers, response_headers, request_header_repetitions, response_header_repetitions, request_header_parser, response_header_parser
@*/
pub ghost struct H { pub name: Seq<u8>, pub value: Seq<u8>, pub flags: u64 }
pub open spec fn hview(h: Header) -> H { H { name: h.name@, value: h.value@, flags: h.flags } }
pub open spec fn hviews(v: Seq<Header>) -> Seq<H> { v.map_values(|h: Header| hview(h)) }
/// a stored name and the name asked for are the same, up to case (unit names: cmp_nocase_trimmed, cmp_nocase)
pub uninterp spec fn same_name(a: Seq<u8>, key: Seq<u8>) -> bool;
pub uninterp spec fn same_nocase(a: Seq<u8>, key: Seq<u8>) -> bool;
#[verifier::external_body] pub fn vx_same_name(a: &Bstr, key: &[u8]) -> (r: bool) ensures r == same_name(a@, key@) { unimplemented!() }
#[verifier::external_body] pub fn vx_same_nocase(a: &Bstr, key: &[u8]) -> (r: bool) ensures r == same_nocase(a@, key@) { unimplemented!() }
/// `slice.iter_mut().find(f)` (assumed contract on core)
#[verifier::external_body]
pub fn vx_find_mut<'a, T, F: Fn(&T) -> bool>(v: &'a mut Vec<T>, f: F) -> (r: Option<&'a mut T>)
    requires forall|x: &T| f.requires((x,)),
    ensures match r { None => final(v)@ == old(v)@ && forall|k: int| 0 <= k < old(v)@.len() ==> f.ensures((&#[trigger] old(v)@[k],), false),
        Some(x) => exists|k: int| 0 <= k < old(v)@.len() && *x == #[trigger] old(v)@[k] && final(v)@ == old(v)@.update(k, *final(x)) && f.ensures((&old(v)@[k],), true)
            && forall|j: int| 0 <= j < k ==> f.ensures((&#[trigger] old(v)@[j],), false) }
{ unimplemented!() }
/// where the first header of that name is (the length if there is none)
pub open spec fn pos(s: Seq<H>, name: Seq<u8>) -> int decreases s.len() { if s.len() == 0 || same_name(s[0].name, name) { 0 } else { 1 + pos(s.subrange(1, s.len() as int), name) } }
pub proof fn lemma_pos(s: Seq<H>, name: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> !same_name((#[trigger] s[j]).name, name), k < s.len() ==> same_name(s[k].name, name)
    ensures pos(s, name) == k
    decreases s.len()
{
    if k > 0 {
        let t = s.subrange(1, s.len() as int);
        assert(!same_name(s[0].name, name));
        assert forall|j: int| 0 <= j < k - 1 implies !same_name((#[trigger] t[j]).name, name) by { assert(t[j] == s[j + 1]); }
        if k < s.len() { assert(t[k - 1] == s[k]); }
        lemma_pos(t, name, k - 1);
    }
}
pub proof fn lemma_pos_all(s: Seq<H>, name: Seq<u8>)
    ensures 0 <= pos(s, name) <= s.len(), forall|j: int| 0 <= j < pos(s, name) ==> !same_name((#[trigger] s[j]).name, name), pos(s, name) < s.len() ==> same_name(s[pos(s, name)].name, name)
    decreases s.len()
{
    if s.len() > 0 && !same_name(s[0].name, name) {
        let t = s.subrange(1, s.len() as int);
        lemma_pos_all(t, name);
        assert forall|j: int| 0 <= j < pos(s, name) implies !same_name((#[trigger] s[j]).name, name) by { if j > 0 { assert(t[j - 1] == s[j]); } }
        if pos(t, name) < t.len() { assert(t[pos(t, name)] == s[pos(s, name)]); }
    }
}
pub proof fn lemma_pos_el(v: Seq<Header>, name: Seq<u8>)
    ensures 0 <= pos(hviews(v), name) <= v.len(), forall|j: int| 0 <= j < pos(hviews(v), name) ==> !same_name((#[trigger] v[j]).name@, name), pos(hviews(v), name) < v.len() ==> same_name(v[pos(hviews(v), name)].name@, name)
{
    lemma_pos_all(hviews(v), name);
    assert forall|j: int| 0 <= j < pos(hviews(v), name) implies !same_name((#[trigger] v[j]).name@, name) by { assert(hviews(v)[j].name == v[j].name@); }
}
/*@ fn transaction.rs::Headers::get_nocase_mut
impl: impl Headers
sig: pub fn get_nocase_mut(&mut self, key: &[u8]) -> (r: Option<&mut Header>)
pre: self . elements . iter_mut ( ) . find ( __ANY ) =>> vx_find_mut(&mut self.elements, __ANY)
pre: x . name . cmp_nocase_trimmed ( key . as_ref ( ) ) == Ordering :: Equal =>> vx_same_name(&x.name, key)
closure 0 args: x: &Header
closure 0: -> (b: bool) ensures b == same_name(x.name@, key@)
start: proof { lemma_pos_el(self.elements@, key@); }
spec: ensures ({ let s = hviews(old(self).elements@); let k = pos(s, key@); match r {
    None => final(self).elements@ == old(self).elements@ && k == s.len(),
    Some(h) => 0 <= k < s.len() && *h == old(self).elements@[k] && final(self).elements@ == old(self).elements@.update(k, *final(h)) } })
@*/
/*@ item connection_parser.rs::ConnectionParser
fields: transactions
@*/
// The held transactions: the contracts of unit txs, seen from one direction.
#[verifier::external_body] pub struct Transactions { _0: u8 }
impl Transactions { pub uninterp spec fn rq(&self) -> Option<Transaction>; pub uninterp spec fn rs(&self) -> Option<Transaction>; }
impl ConnectionParser {
    pub open spec fn rqt(&self) -> Option<Transaction> { self.transactions.rq() }
    pub open spec fn rst(&self) -> Option<Transaction> { self.transactions.rs() }
    #[verifier::external_body] pub fn request_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures match r { Some(t) => old(self).rqt() == Some(*t) && final(self).rqt() == Some(*final(t)), None => old(self).rqt() is None && final(self).rqt() is None } { unimplemented!() }
    #[verifier::external_body] pub fn response_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures match r { Some(t) => old(self).rst() == Some(*t) && final(self).rst() == Some(*final(t)), None => old(self).rst() is None && final(self).rst() is None } { unimplemented!() }
}
impl Bstr {
    #[verifier::external_body] pub fn extend_from_slice(&mut self, o: &[u8]) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_vec(v: Vec<u8>) -> (r: Bstr) ensures r@ == v@ { unimplemented!() }
}
/// the headers of one message and how many repetitions were counted
pub ghost struct Tab { pub hs: Seq<H>, pub reps: u16 }
pub open spec fn rq_tab(t: Transaction) -> Tab { Tab { hs: hviews(t.request_headers.elements@), reps: t.request_header_repetitions } }
pub open spec fn rs_tab(t: Transaction) -> Tab { Tab { hs: hviews(t.response_headers.elements@), reps: t.response_header_repetitions } }
pub open spec fn n_cl() -> Seq<u8> { seq![67u8, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104] }
/// one field more: a new name is added at the end; a repeated one is joined to its first occurrence (a Content-Length keeps its first
/// value), until 64 of them have been counted
pub open spec fn add(t: Tab, h: H) -> Tab {
    let k = pos(t.hs, h.name);
    let e = t.hs[k];
    if k >= t.hs.len() { Tab { hs: t.hs.push(h), ..t } }
    else if e.flags & 0x20 != 0 && t.reps >= 64 { t }
    else {
        Tab { hs: t.hs.update(k, H { flags: e.flags | 0x20, value: if same_nocase(h.name, n_cl()) { e.value } else { e.value + seq![44u8, 32u8] + h.value }, ..e }),
            reps: if e.flags & 0x20 != 0 { (t.reps + 1) as u16 } else { t.reps } }
    }
}
/*@ config
pre: header . name . cmp_nocase ( "Content-Length" ) == Ordering :: Equal =>> vx_same_nocase(&header.name, b"Content-Length")
@*/
#[verifier::external_body] pub fn parse_content_length(v: &Bstr, l: Option<u8>) -> (r: Option<u64>) { unimplemented!() }
#[verifier::external_body] pub fn vx_differ(a: Option<u64>, b: Option<u64>) -> (r: bool) { unimplemented!() }
proof fn lemma_cl() ensures n_cl() =~= [67u8, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104]@ {}
pub open spec fn same_tab(a: Tab, b: Tab) -> bool { a.hs =~= b.hs && a.reps == b.reps }
/*@ fn request.rs::ConnectionParser::process_request_header
pre: existing_cl != new_cl =>> vx_differ(existing_cl, new_cl)
ret: r
spec: requires old(self).rqt() is Some,
    ensures r is Ok, final(self).rqt() is Some, same_tab(rq_tab(final(self).rqt()->0), add(rq_tab(old(self).rqt()->0), hview(header))),
        final(self).rqt()->0 == (Transaction { request_headers: final(self).rqt()->0.request_headers, request_header_repetitions: final(self).rqt()->0.request_header_repetitions, ..old(self).rqt()->0 }),
start: proof { lemma_pos_el(self.rqt()->0.request_headers.elements@, header.name@); lemma_cl(); }
@*/
/*@ fn response.rs::ConnectionParser::process_response_header
pre: existing_cl != new_cl =>> vx_differ(existing_cl, new_cl)
ret: r
spec: ensures match old(self).rst() {
        None => r == Err::<(), _>(HtpStatus::ERROR) && final(self).rst() is None,
        Some(o) => r is Ok && final(self).rst() is Some && same_tab(rs_tab(final(self).rst()->0), add(rs_tab(o), hview(header)))
            && final(self).rst()->0 == (Transaction { response_headers: final(self).rst()->0.response_headers, response_header_repetitions: final(self).rst()->0.response_header_repetitions, ..o }) },
start: proof { if self.rst() is Some { lemma_pos_el(self.rst()->0.response_headers.elements@, header.name@); } lemma_cl(); }
@*/
// ---- from what is read to the table ----
/// the flags of a request's header field, and what they add to the transaction's
pub open spec fn rq_marks(f: F) -> u64 {
    ((((if f.nf & HeaderFlags::NAME_TRAILING_WHITESPACE != 0 { HtpFlags::FIELD_INVALID } else { 0 })
    | (if f.nf & HeaderFlags::NAME_LEADING_WHITESPACE != 0 { HtpFlags::INVALID_FOLDING } else { 0 }))
    | (if f.nf & HeaderFlags::NAME_NON_TOKEN_CHARS != 0 { HtpFlags::FIELD_INVALID } else { 0 }))
    | (if f.nf & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON { HtpFlags::FIELD_UNPARSEABLE } else if f.nf & HeaderFlags::NAME_EMPTY != 0 { HtpFlags::FIELD_INVALID } else { 0 }))
}
pub open spec fn folded(f: F) -> u64 { if f.vf & HeaderFlags::FOLDING != 0 { HtpFlags::FIELD_FOLDED } else { 0 } }
pub open spec fn rq_hdr(f: F) -> H { H { name: f.name, value: f.value, flags: rq_marks(f) | folded(f) } }
pub open spec fn rs_hdr(f: F) -> H { H { name: f.name, value: f.value,
    flags: (rq_marks(f) | (if f.nf & HeaderFlags::NAME_LEADING_WHITESPACE != 0 || f.nf & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON { HtpFlags::FIELD_INVALID } else { 0 })) | folded(f) } }
pub open spec fn marked(w: u64, fs: Seq<F>) -> u64 decreases fs.len() { if fs.len() == 0 { w } else { marked(w, fs.drop_last()) | rq_marks(fs.last()) } }
pub open spec fn rq_added(t: Tab, fs: Seq<F>) -> Tab decreases fs.len() { if fs.len() == 0 { t } else { add(rq_added(t, fs.drop_last()), rq_hdr(fs.last())) } }
pub open spec fn rs_added(t: Tab, fs: Seq<F>) -> Tab decreases fs.len() { if fs.len() == 0 { t } else { add(rs_added(t, fs.drop_last()), rs_hdr(fs.last())) } }
pub open spec fn mk1(f: F) -> u64 { if f.nf & HeaderFlags::NAME_TRAILING_WHITESPACE != 0 { HtpFlags::FIELD_INVALID } else { 0 } }
pub open spec fn mk2(f: F) -> u64 { if f.nf & HeaderFlags::NAME_LEADING_WHITESPACE != 0 { HtpFlags::INVALID_FOLDING } else { 0 } }
pub open spec fn mk3(f: F) -> u64 { if f.nf & HeaderFlags::NAME_NON_TOKEN_CHARS != 0 { HtpFlags::FIELD_INVALID } else { 0 } }
pub open spec fn mk4(f: F) -> u64 { if f.nf & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON { HtpFlags::FIELD_UNPARSEABLE } else if f.nf & HeaderFlags::NAME_EMPTY != 0 { HtpFlags::FIELD_INVALID } else { 0 } }
pub proof fn lemma_marks(w: u64, f: F) ensures (((w | mk1(f)) | mk2(f)) | mk3(f)) | mk4(f) == w | rq_marks(f), rq_marks(f) == ((mk1(f) | mk2(f)) | mk3(f)) | mk4(f)
{ let a = mk1(f); let b = mk2(f); let c = mk3(f); let d = mk4(f); assert((((w | a) | b) | c) | d == w | (((a | b) | c) | d)) by (bit_vector); }
pub open spec fn iv1(f: F) -> u64 { if f.nf & HeaderFlags::NAME_LEADING_WHITESPACE != 0 { HtpFlags::FIELD_INVALID } else { 0 } }
pub open spec fn iv2(f: F) -> u64 { if f.nf & HeaderFlags::MISSING_COLON == HeaderFlags::MISSING_COLON { HtpFlags::FIELD_INVALID } else { 0 } }
pub proof fn lemma_rs_marks(f: F) ensures rs_hdr(f).flags == (((((mk1(f) | mk2(f)) | iv1(f)) | mk3(f)) | mk4(f)) | iv2(f)) | folded(f)
{
    let a = mk1(f); let b = mk2(f); let c = mk3(f); let d = mk4(f); let i = iv1(f); let j = iv2(f); let e = folded(f);
    assert(((((a | b) | i) | c) | d) | j == (((a | b) | c) | d) | (i | j)) by (bit_vector);
    assert(8u64 | 8u64 == 8u64 && 8u64 | 0u64 == 8u64 && 0u64 | 8u64 == 8u64 && 0u64 | 0u64 == 0u64) by (bit_vector);
}
/*@ fn transaction.rs::Header::new_with_flags
ret: r
spec: ensures hview(r) == (H { name: name@, value: value@, flags: flags }),
@*/
/*@ fn request.rs::ConnectionParser::parse_request_headers
pre: req . unwrap ( ) . request_header_parser . headers ( ) ( data ) =>> req.unwrap().request_header_parser.vx_headers(data)
pre: h . name . name . into ( ) =>> Bstr::vx_vec(h.name.name)
pre: h . value . value . into ( ) =>> Bstr::vx_vec(h.value.value)
ret: r
spec: ensures match old(self).rqt() { None => r is Err && final(self).rqt() is None, Some(o) => final(self).rqt() is Some && ({ let n = final(self).rqt()->0; match o.request_header_parser.block(data@) {
        None => r is Ok && r->Ok_0.0@ == data@ && !r->Ok_0.1 && n == o,
        Some((fs, rest, eoh)) => r is Ok && r->Ok_0.0@ == rest && r->Ok_0.1 == eoh && same_tab(rq_tab(n), rq_added(rq_tab(o), fs)) && n.flags == marked(o.flags, fs)
            && n == (Transaction { request_headers: n.request_headers, request_header_repetitions: n.request_header_repetitions, flags: n.flags, ..o }) } }) },
loop 0 before: let ghost hs0 = headers@;
loop 0 start: let ghost w0 = self.rqt()->0.flags; let ghost t0 = rq_tab(self.rqt()->0); let ghost fh = fview(h); let ghost fs0 = fviews(hs0.subrange(0, it.index@ as int)); proof { assert(forall|x: u64| #[trigger] (x | 0u64) == x) by (bit_vector); assert(forall|x: u64| #[trigger] (0u64 | x) == x) by (bit_vector); }
loop 0 end: proof { lemma_marks(w0, fh); assert(fviews(hs0.subrange(0, it.index@ + 1)) =~= fs0.push(fh)); assert(fs0.push(fh).drop_last() =~= fs0); assert(self.rqt()->0.flags == w0 | rq_marks(fh)); assert(same_tab(rq_tab(self.rqt()->0), add(t0, rq_hdr(fh)))); assert(rq_tab(self.rqt()->0) == add(t0, rq_hdr(fh))); }
loop 0 after: proof { assert(hs0.subrange(0, hs0.len() as int) =~= hs0); }
loop 0 iter: it
loop 0: invariant it.seq() == hs0, old(self).rqt() is Some, self.rqt() is Some, ({ let o = old(self).rqt()->0; let n = self.rqt()->0; let fs = fviews(it.seq().subrange(0, it.index@ as int));
      same_tab(rq_tab(n), rq_added(rq_tab(o), fs)) && n.flags == marked(o.flags, fs)
            && n == (Transaction { request_headers: n.request_headers, request_header_repetitions: n.request_header_repetitions, flags: n.flags, ..o }) }),
@*/
/*@ fn response.rs::ConnectionParser::parse_response_headers
pre: resp . unwrap ( ) . response_header_parser . headers ( ) ( data ) =>> resp.unwrap().response_header_parser.vx_headers(data)
pre: h . name . name . into ( ) =>> Bstr::vx_vec(h.name.name)
pre: h . value . value . into ( ) =>> Bstr::vx_vec(h.value.value)
ret: r
spec: ensures match old(self).rst() { None => r is Err && final(self).rst() is None, Some(o) => final(self).rst() is Some && ({ let n = final(self).rst()->0; match o.response_header_parser.block(data@) {
        None => r is Ok && r->Ok_0.0@ == data@ && !r->Ok_0.1 && n == o,
        Some((fs, rest, eoh)) => r is Ok && r->Ok_0.0@ == rest && r->Ok_0.1 == eoh && same_tab(rs_tab(n), rs_added(rs_tab(o), fs)) && n.flags == marked(o.flags, fs)
            && n == (Transaction { response_headers: n.response_headers, response_header_repetitions: n.response_header_repetitions, flags: n.flags, ..o }) } }) },
loop 0 before: let ghost hs0 = headers@;
loop 0 start: let ghost w0 = self.rst()->0.flags; let ghost t0 = rs_tab(self.rst()->0); let ghost fh = fview(h); let ghost fs0 = fviews(hs0.subrange(0, it.index@ as int)); proof { assert(forall|x: u64| #[trigger] (x | 0u64) == x) by (bit_vector); assert(forall|x: u64| #[trigger] (0u64 | x) == x) by (bit_vector); }
loop 0 end: proof { lemma_marks(w0, fh); lemma_rs_marks(fh); assert(fviews(hs0.subrange(0, it.index@ + 1)) =~= fs0.push(fh)); assert(fs0.push(fh).drop_last() =~= fs0); assert(self.rst()->0.flags == w0 | rq_marks(fh)); assert(same_tab(rs_tab(self.rst()->0), add(t0, rs_hdr(fh)))); assert(rs_tab(self.rst()->0) == add(t0, rs_hdr(fh))); }
loop 0 after: proof { assert(hs0.subrange(0, hs0.len() as int) =~= hs0); }
loop 0 iter: it
loop 0: invariant it.seq() == hs0, old(self).rst() is Some, self.rst() is Some, ({ let o = old(self).rst()->0; let n = self.rst()->0; let fs = fviews(it.seq().subrange(0, it.index@ as int));
      same_tab(rs_tab(n), rs_added(rs_tab(o), fs)) && n.flags == marked(o.flags, fs)
            && n == (Transaction { response_headers: n.response_headers, response_header_repetitions: n.response_header_repetitions, flags: n.flags, ..o }) }),
@*/
fn main() {}
}
