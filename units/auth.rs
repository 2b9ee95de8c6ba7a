#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
use std::rc::Rc;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include nom.inc
//@include nom2.inc
//@include base.inc
//@include bstr.inc
//@include flags.inc
// ---- what the header table and the comparisons say is proved in unit names ------------------
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
/*@ item transaction.rs::Header
@*/
/*@ item transaction.rs::HtpAuthType
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
#[verifier::external_body] pub struct Headers { _0: u8 }
impl Headers {
    pub uninterp spec fn first(&self, name: Seq<u8>) -> Option<Header>;
    #[verifier::external_body] pub fn get_nocase_nozero(&self, key: &[u8]) -> (r: Option<&Header>)
        ensures match r { Some(h) => self.first(key@) == Some(*h), None => self.first(key@) is None } { unimplemented!() }
}
/*@ item transaction.rs::Transaction
fields: request_headers, request_auth_type, request_auth_username, request_auth_password, request_auth_token, flags
@*/
pub open spec fn begins(s: Seq<u8>, t: Seq<u8>) -> bool { prefix_nocase(t, s) }
impl Bstr {
    #[verifier::external_body] pub fn starts_with_nocase(&self, t: &[u8]) -> (r: bool) ensures r == begins(self@, t@) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_clone(h: &Header) -> (r: Header) ensures r == *h { unimplemented!() }
#[verifier::external_body] pub fn vx_last_is(v: &Vec<u8>, c: u8) -> (r: bool) ensures r == (v@.len() > 0 && v@[v@.len() - 1] == c) { unimplemented!() }
/// the standard base64 alphabet with padding (base64::decode): assumed to be a function of the text
pub uninterp spec fn b64(s: Seq<u8>) -> Option<Seq<u8>>;
#[verifier::external_body] pub fn vx_b64(s: &[u8]) -> (r: core::result::Result<Vec<u8>, ()>)
    ensures match r { Ok(v) => b64(s@) == Some(v@), Err(_) => b64(s@) is None } { unimplemented!() }
// ---- the rule -------------------------------------------------------------------------------
pub open spec fn cut(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(k, s.len() as int) }
pub open spec fn before(s: Seq<u8>, t: Seq<u8>) -> Seq<u8> { s.subrange(0, s.len() - t.len()) }
pub open spec fn skip_aws(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| ascii_ws(c), s) }
pub open spec fn from_quote(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| c != 34, s) }
pub open spec fn from_colon(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| c != 58, s) }
pub open spec fn w_basic() -> Seq<u8> { seq![98u8, 97, 115, 105, 99] }
pub open spec fn w_digest() -> Seq<u8> { seq![100u8, 105, 103, 101, 115, 116] }
pub open spec fn w_bearer() -> Seq<u8> { seq![98u8, 101, 97, 114, 101, 114] }
pub open spec fn w_user() -> Seq<u8> { seq![117u8, 115, 101, 114, 110, 97, 109, 101, 61] }
pub open spec fn w_auth() -> Seq<u8> { seq![97u8, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110] }
pub open spec fn class(v: Seq<u8>) -> HtpAuthType {
    if begins(v, w_basic()) { HtpAuthType::BASIC } else if begins(v, w_digest()) { HtpAuthType::DIGEST } else if begins(v, w_bearer()) { HtpAuthType::BEARER } else { HtpAuthType::UNRECOGNIZED }
}
/// user and password: the decoded text around its first colon
pub open spec fn basic(v: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    match b64(skip_aws(cut(v, 5))) {
        Some(d) => { let p = from_colon(d); if p.len() == 0 { None } else { Some((before(d, p), cut(p, 1))) } },
        None => None,
    }
}
pub open spec fn bearer(v: Seq<u8>) -> Seq<u8> { skip_aws(cut(v, 6)) }
/// a quoted string from behind its opening quote: a quote after a backslash is part of it
pub open spec fn quoted(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases s.len() {
    let q = from_quote(s);
    if q.len() == 0 || q.len() > s.len() { None } else {
        let t = before(s, q);
        let rest = cut(q, 1);
        if t.len() > 0 && t[t.len() - 1] == 92 { match quoted(rest) { Some((u, r)) => Some((t.subrange(0, t.len() - 1) + seq![34u8] + u, r)), None => None } }
        else { Some((t, rest)) }
    }
}
pub open spec fn has_user(v: Seq<u8>) -> bool { exists|k: int| #[trigger] user_at(v, k) }
#[verifier::opaque]
pub open spec fn user_at(v: Seq<u8>, k: int) -> bool { occurs_at(v, w_user(), k) }
#[verifier::opaque]
pub open spec fn is_first(v: Seq<u8>, k: int) -> bool { user_at(v, k) && forall|j: int| #[trigger] user_at(v, j) ==> k <= j }
pub open spec fn first_user(v: Seq<u8>) -> int { choose|k: int| is_first(v, k) }
pub open spec fn digest(v: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    if !has_user(v) { None } else {
        let a = skip_aws(cut(v, first_user(v) + 9));
        if a.len() > 0 && a[0] == 34 { quoted(cut(a, 1)) } else { None }
    }
}
proof fn lemma_min(v: Seq<u8>, k: int) -> (m: int)
    requires user_at(v, k)
    ensures is_first(v, m)
    decreases k
{
    if exists|j: int| #[trigger] user_at(v, j) && j < k { let j = choose|j: int| #[trigger] user_at(v, j) && j < k; reveal(user_at); lemma_min(v, j) } else { reveal(is_first); k }
}
proof fn lemma_first(v: Seq<u8>, t: Seq<u8>)
    requires t == w_user()
    ensures has_user(v) == (exists|k: int| #[trigger] occurs_at(v, t, k)),
        has_user(v) ==> occurs_at(v, t, first_user(v)),
        forall|k: int| #[trigger] occurs_at(v, t, k) ==> first_user(v) <= k,
        forall|k: int| #[trigger] occurs_at(v, t, k) ==> k + 9 <= v.len() && cut(v, k).len() >= 9 && tag_match(t, v.subrange(k, v.len() as int)) && !tag_mismatch(t, v.subrange(k, v.len() as int)) && cut(v.subrange(k, v.len() as int), 9) == cut(v, k + 9),
{
    reveal(user_at);
    assert forall|k: int| #[trigger] occurs_at(v, t, k) implies k + 9 <= v.len() && cut(v, k).len() >= 9 && tag_match(t, v.subrange(k, v.len() as int)) && !tag_mismatch(t, v.subrange(k, v.len() as int)) && cut(v.subrange(k, v.len() as int), 9) == cut(v, k + 9) by {
        let w = v.subrange(k, v.len() as int);
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] w[j] == t[j] by { assert(v.subrange(k, k + t.len())[j] == t[j]); }
        assert(cut(w, 9) =~= cut(v, k + 9));
    }
    if exists|k: int| #[trigger] occurs_at(v, t, k) { let k = choose|k: int| #[trigger] occurs_at(v, t, k); assert(user_at(v, k)); }
    if has_user(v) {
        let k = choose|k: int| #[trigger] user_at(v, k);
        assert(occurs_at(v, t, k));
        let m = lemma_min(v, k);
        assert(is_first(v, first_user(v)));
        reveal(is_first);
        assert forall|k: int| #[trigger] occurs_at(v, t, k) implies first_user(v) <= k by { assert(user_at(v, k)); }
    }
}
pub proof fn lemma_colon(s: Seq<u8>) -> (n: int)
    ensures 0 <= n <= s.len(), from_colon(s) == s.subrange(n, s.len() as int), forall|k: int| 0 <= k < n ==> #[trigger] s[k] != 58, n < s.len() ==> s[n] == 58
{ skl::lemma_props(|c: u8| c != 58, s) }
pub proof fn lemma_quote(s: Seq<u8>) -> (n: int)
    ensures 0 <= n <= s.len(), from_quote(s) == s.subrange(n, s.len() as int), forall|k: int| 0 <= k < n ==> #[trigger] s[k] != 34, n < s.len() ==> s[n] == 34
{ skl::lemma_props(|c: u8| c != 34, s) }
/// what was taken already in front of a quoted string
pub open spec fn glued(a: Seq<u8>, q: Option<(Seq<u8>, Seq<u8>)>) -> Option<(Seq<u8>, Seq<u8>)> { match q { Some((u, r)) => Some((a + u, r)), None => None } }
proof fn lemma_quoted(s: Seq<u8>) ensures from_quote(s).len() <= s.len() { lemma_quote(s); }
proof fn lemma_glue(a: Seq<u8>, s: Seq<u8>)
    requires ({ let q = from_quote(s); q.len() > 0 && before(s, q).len() > 0 && before(s, q)[before(s, q).len() - 1] == 92 })
    ensures ({ let q = from_quote(s); let t = before(s, q); glued(a, quoted(s)) == glued(a + t.subrange(0, t.len() - 1) + seq![34u8], quoted(cut(q, 1))) })
{
    lemma_quote(s);
    let q = from_quote(s); let t = before(s, q);
    if let Some((u, r)) = quoted(cut(q, 1)) { assert(a + (t.subrange(0, t.len() - 1) + seq![34u8] + u) =~= a + t.subrange(0, t.len() - 1) + seq![34u8] + u); }
}
proof fn lemma_words() ensures
    [98u8, 97, 115, 105, 99]@ =~= w_basic(), [100u8, 105, 103, 101, 115, 116]@ =~= w_digest(), [98u8, 101, 97, 114, 101, 114]@ =~= w_bearer(),
    [117u8, 115, 101, 114, 110, 97, 109, 101, 61]@ =~= w_user(), [97u8, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110]@ =~= w_auth() {}
/*@ fn util.rs::take_ascii_whitespace
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures r is Ok, splits(input, r->Ok_0.0, r->Ok_0.1), r->Ok_0.0@ == skip_aws(input@)
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)),
  forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> r is Ok && splits(i, r->Ok_0.0, r->Ok_0.1) && r->Ok_0.0@ == skip_aws(i@)
@*/
/*@ fn parsers.rs::parse_authorization_digest
ret: r
start: proof { lemma_words(); lemma_first(auth_header_value@, [117u8, 115, 101, 114, 110, 97, 109, 101, 61]@); assert([117u8, 115, 101, 114, 110, 97, 109, 101, 61]@ == w_user()); }
attr: #[verifier::rlimit(60)]
pre: result.last() == Some(&(b'\\')) =>> vx_last_is(&result, b'\\')
loop 0 before: let ghost s0 = remaining_input@; proof { assert(digest(auth_header_value@) == quoted(s0)); assert(Seq::<u8>::empty() + s0 =~= s0); }
loop 0: invariant_except_break glued(result@, quoted(remaining_input@)) == quoted(s0), result@.len() == 0 || result@[result@.len() - 1] == 34 invariant digest(auth_header_value@) == quoted(s0)
  ensures quoted(s0) == Some((result@, remaining_input@)) decreases remaining_input@.len()
loop 0 start: let ghost r0 = result@; let ghost s1 = remaining_input@; proof { lemma_quote(s1); lemma_quoted(s1); }
subst: result.extend_from_slice(auth_header); =>> proof { assert(auth_header@ == before(s1, from_quote(s1))); } result.extend_from_slice(auth_header);
loop 0 end: proof { lemma_glue(r0, s1); assert(result@ =~= r0 + before(s1, from_quote(s1)).subrange(0, before(s1, from_quote(s1)).len() - 1) + seq![34u8]); }
spec: ensures match digest(auth_header_value@) { Some((u, rest)) => r is Ok && r->Ok_0.1@ == u && r->Ok_0.0@ == rest, None => r is Err && r->Err_0 is Error }
@*/
/*@ fn parsers.rs::parse_authorization_basic
ret: r
start: proof { lemma_words(); }
pre: tuple::<_, _, (&[u8], ErrorKind), _>(__ANY) =>> tuple(__ANY)
pre: base64::decode(remaining_input) =>> vx_b64(remaining_input)
subst: let (password, (username, _)) = =>> proof { lemma_colon(decoded@); } let (password, (username, _)) =
closure 0: -> (e: HtpStatus) ensures e == HtpStatus::DECLINED
closure 1: -> (e: HtpStatus) ensures e == HtpStatus::DECLINED
closure 2: -> (e: HtpStatus) ensures e == HtpStatus::DECLINED
spec: requires begins(auth_header.value@, w_basic())
  ensures match basic(auth_header.value@) {
    Some((u, p)) => r is Ok && final(request_tx).request_auth_username is Some && final(request_tx).request_auth_username->0@ == u && final(request_tx).request_auth_password is Some && final(request_tx).request_auth_password->0@ == p
        && final(request_tx).request_auth_type == old(request_tx).request_auth_type && final(request_tx).request_auth_token == old(request_tx).request_auth_token && final(request_tx).flags == old(request_tx).flags && final(request_tx).request_headers == old(request_tx).request_headers,
    None => r is Err && r->Err_0 == HtpStatus::DECLINED && *final(request_tx) == *old(request_tx),
  }
@*/
/// the whole outcome, as the transaction reports it
pub open spec fn oview(b: Option<Bstr>) -> Option<Seq<u8>> { match b { Some(x) => Some(x@), None => None } }
pub open spec fn auth_of(t: Transaction) -> Option<Header> { t.request_headers.first(w_auth()) }
/// an Authorization header that says it is basic or digest and does not hold what these must hold
pub open spec fn declined(t: Transaction) -> bool {
    auth_of(t) is Some && ({ let v = auth_of(t)->0.value@; (class(v) == HtpAuthType::BASIC && basic(v) is None) || (class(v) == HtpAuthType::DIGEST && digest(v) is None) })
}
pub open spec fn outcome(o: Transaction, n: Transaction) -> bool {
    &&& n.request_headers == o.request_headers && n.flags == o.flags
    &&& match auth_of(o) {
        None => n.request_auth_type == HtpAuthType::NONE && n.request_auth_username == o.request_auth_username && n.request_auth_password == o.request_auth_password && n.request_auth_token == o.request_auth_token,
        Some(h) => {
            let v = h.value@; let c = class(v);
            &&& n.request_auth_type == c
            &&& oview(n.request_auth_username) == (if c == HtpAuthType::BASIC && basic(v) is Some { Some((basic(v)->0).0) } else if c == HtpAuthType::DIGEST && digest(v) is Some { Some((digest(v)->0).0) } else { oview(o.request_auth_username) })
            &&& oview(n.request_auth_password) == (if c == HtpAuthType::BASIC && basic(v) is Some { Some((basic(v)->0).1) } else { oview(o.request_auth_password) })
            &&& oview(n.request_auth_token) == (if c == HtpAuthType::BEARER { Some(bearer(v)) } else { oview(o.request_auth_token) })
        },
    }
}
/*@ fn parsers.rs::parse_authorization
ret: r
start: proof { lemma_words(); }
pre: auth_header.clone() =>> vx_clone(auth_header)
pre: username.add(auth_username) =>> username.add(auth_username.as_slice())
pre: Bstr::from(auth_username) =>> Bstr::from(auth_username.as_slice())
closure 0: -> (e: HtpStatus) ensures e == HtpStatus::DECLINED
closure 1: -> (e: HtpStatus) ensures e == HtpStatus::DECLINED
spec: ensures outcome(*old(request_tx), *final(request_tx)), match r { Ok(_) => !declined(*old(request_tx)), Err(e) => declined(*old(request_tx)) && e == HtpStatus::DECLINED }
@*/
}
fn main() {}
