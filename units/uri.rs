#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include nom.inc
//@include nom2.inc
//@include base.inc
//@include str.inc
//@include bstr.inc
//@include split.inc
//@include flags.inc
/*@ config
drop: htp_warn htp_error htp_info htp_debug
@*/
pub mod cnt {
    use vstd::prelude::*;
    pub broadcast proof fn lemma_contains(s: Seq<u8>, c: u8)
        requires s.len() <= 4
        ensures #[trigger] s.contains(c) == ((s.len() > 0 && c == s[0]) || (s.len() > 1 && c == s[1]) || (s.len() > 2 && c == s[2]) || (s.len() > 3 && c == s[3]))
    {
        if s.len() > 0 && c == s[0] { assert(s.contains(c)); }
        if s.len() > 1 && c == s[1] { assert(s.contains(c)); }
        if s.len() > 2 && c == s[2] { assert(s.contains(c)); }
        if s.len() > 3 && c == s[3] { assert(s.contains(c)); }
    }
    pub open spec fn at(s: Seq<u8>, t: Seq<u8>, k: int) -> bool { 0 <= k && k + t.len() <= s.len() && s.subrange(k, k + t.len()) == t }
    pub broadcast proof fn lemma_one(s: Seq<u8>, t: Seq<u8>, k: int)
        requires t.len() == 1
        ensures #[trigger] super::occurs_at(s, t, k) == (0 <= k < s.len() && s[k] == t[0])
    {
        if 0 <= k < s.len() { if s[k] == t[0] { assert(s.subrange(k, k + 1) =~= t); } else { assert(s.subrange(k, k + 1)[0] == s[k]); } }
    }
}
broadcast group gcnt { cnt::lemma_contains, cnt::lemma_one }
// --------------------------------------------------------------------------- the grammar
pub open spec fn cut(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(k, s.len() as int) }
/// the part of s before its suffix t
pub open spec fn before(s: Seq<u8>, t: Seq<u8>) -> Seq<u8> { s.subrange(0, s.len() - t.len()) }
pub open spec fn starts(s: Seq<u8>, c: u8) -> bool { s.len() > 0 && s[0] == c }
pub open spec fn starts2(s: Seq<u8>, c: u8, d: u8) -> bool { s.len() > 1 && s[0] == c && s[1] == d }
pub open spec fn pqf(c: u8) -> bool { c == 47 || c == 63 || c == 35 }
pub open spec fn from_colon(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| c != 58, s) }
pub open spec fn from_blank(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| c != 32, s) }
pub open spec fn from_hash(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| c != 35, s) }
pub open spec fn from_qh(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| c != 35 && c != 63, s) }
pub open spec fn from_pqf(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| !pqf(c), s) }
pub open spec fn from_pqf_at(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| !pqf(c) && c != 64, s) }
pub open spec fn from_pqf_colon(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| !pqf(c) && c != 58, s) }
pub open spec fn from_pqf_br(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| !pqf(c) && c != 93, s) }
pub open spec fn skip_blanks(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| c == 32, s) }
pub open spec fn rblanks(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && s[s.len() - 1] == 32 { rblanks(s.subrange(0, s.len() - 1)) } else { s } }
/// what follows, and the component found
pub type Part = Option<(Seq<u8>, Seq<u8>)>;
pub open spec fn scheme_spec(s: Seq<u8>) -> Part {
    let a = from_colon(s);
    if starts(s, 47) || a.len() == 0 { None } else { Some((cut(a, 1), before(s, a))) }
}
pub open spec fn cred_spec(s: Seq<u8>) -> Option<(Seq<u8>, (Seq<u8>, Option<Seq<u8>>))> {
    if !starts2(s, 47, 47) || starts(cut(s, 2), 47) { None } else {
        let a = cut(s, 2);
        let b = from_pqf_at(a);
        if !starts(b, 64) { None } else {
            let c = before(a, b);
            let p = from_colon(c);
            Some((cut(b, 1), if p.len() == 0 { (c, None) } else { (before(c, p), Some(cut(p, 1))) }))
        }
    }
}
pub open spec fn ipv6_spec(s: Seq<u8>) -> Part {
    let a = cut(s, 1);
    let b = from_pqf_br(a);
    if !starts(s, 91) || b.len() == a.len() { None } else {
        let rest = if starts(b, 93) { cut(b, 1) } else { b };
        Some((rest, before(s, rest)))
    }
}
pub open spec fn host_spec(s: Seq<u8>) -> Part {
    let a = if starts2(s, 47, 47) { cut(s, 2) } else { s };
    let b = skip_blanks(a);
    let c = from_pqf_colon(b);
    if starts(a, 47) { None }
    else if ipv6_spec(b) is Some { let (rest, h) = ipv6_spec(b)->0; Some((rest, rblanks(h))) }
    else if c.len() == b.len() { None }
    else { Some((c, rblanks(before(b, c)))) }
}
pub open spec fn port_part(s: Seq<u8>) -> Part {
    let a = skip_blanks(cut(s, 1));
    let b = from_pqf(a);
    let p = before(a, b);
    if !starts(s, 58) || b.len() == a.len() { None } else { Some((b, before(p, from_blank(p)))) }
}
pub open spec fn path_spec(s: Seq<u8>) -> Part { let a = from_qh(s); if a.len() == s.len() { None } else { Some((a, before(s, a))) } }
pub open spec fn query_spec(s: Seq<u8>) -> Part { let a = from_hash(cut(s, 1)); if !starts(s, 63) { None } else { Some((a, before(cut(s, 1), a))) } }
pub open spec fn frag_spec(s: Seq<u8>) -> Part { if starts(s, 35) { Some((Seq::empty(), cut(s, 1))) } else { None } }
pub open spec fn left(s: Seq<u8>, p: Part) -> Seq<u8> { match p { Some((r, _)) => r, None => s } }
pub open spec fn val(p: Part) -> Option<Seq<u8>> { match p { Some((_, v)) => Some(v), None => None } }
pub struct Auth { pub rest: Seq<u8>, pub scheme: Option<Seq<u8>>, pub user: Option<Seq<u8>>, pub pass: Option<Seq<u8>>, pub host: Option<Seq<u8>>, pub port: Option<Seq<u8>> }
pub open spec fn auth_spec(s: Seq<u8>) -> Auth {
    match scheme_spec(s) {
        None => Auth { rest: s, scheme: None, user: None, pass: None, host: None, port: None },
        Some((a, sc)) => {
            let b = match cred_spec(a) { Some((r, _)) => r, None => a };
            let user = match cred_spec(a) { Some((_, (u, _))) => Some(u), None => None };
            let pass = match cred_spec(a) { Some((_, (_, p))) => p, None => None };
            match host_spec(b) {
                None => Auth { rest: b, scheme: Some(sc), user, pass, host: None, port: None },
                Some((c, h)) => {
                    let d = left(c, port_part(c));
                    Auth { rest: if starts(d, 58) { cut(d, 1) } else { d }, scheme: Some(sc), user, pass, host: Some(h), port: val(port_part(c)) }
                },
            }
        },
    }
}
pub open spec fn is(r: IResult<&[u8], &[u8]>, want: Part) -> bool {
    match want { None => r is Err && r->Err_0 is Error, Some((rest, v)) => r is Ok && r->Ok_0.0@ == rest && r->Ok_0.1@ == v }
}
pub open spec fn isc(r: IResult<&[u8], ParsedCredentials>, want: Option<(Seq<u8>, (Seq<u8>, Option<Seq<u8>>))>) -> bool {
    match want {
        None => r is Err && r->Err_0 is Error,
        Some((rest, (u, p))) => r is Ok && r->Ok_0.0@ == rest && r->Ok_0.1.0@ == u && match p { None => r->Ok_0.1.1 is None, Some(v) => r->Ok_0.1.1 is Some && r->Ok_0.1.1->0@ == v },
    }
}
pub type ParsedCredentials<'a> = (&'a [u8], Option<&'a [u8]>);
pub proof fn lemma_colon(s: Seq<u8>) -> (n: int)
    ensures 0 <= n <= s.len(), from_colon(s) == s.subrange(n, s.len() as int), forall|k: int| 0 <= k < n ==> #[trigger] s[k] != 58, n < s.len() ==> s[n] == 58
{ skl::lemma_props(|c: u8| c != 58, s) }
pub proof fn lemma_blanks(s: Seq<u8>) -> (n: int)
    ensures 0 <= n <= s.len(), skip_blanks(s) == s.subrange(n, s.len() as int), forall|k: int| 0 <= k < n ==> #[trigger] s[k] == 32, n < s.len() ==> s[n] != 32
{ skl::lemma_props(|c: u8| c == 32, s) }
/// many0(tag(" ")): all leading blanks (assumed contract on nom)
#[verifier::external_body]
pub fn vx_blanks<'a>() -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], ()>)
    ensures forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], ()>| #[trigger] p.ensures((i,), r) ==> r is Ok && r->Ok_0.0@ == skip_blanks(i@)
{ move |i: &'a [u8]| -> IResult<&'a [u8], ()> { unimplemented!() } }
#[verifier::external_body]
pub fn vx_ends_blank(s: &[u8]) -> (r: bool) ensures r == (s@.len() > 0 && s@[s@.len() - 1] == 32) { unimplemented!() }
pub assume_specification<T> [<[T]>::contains] (_0: &[T], _1: &T) -> (r: bool) where T: PartialEq ensures r == _0@.contains(*_1);
/*@ fn parsers.rs::scheme
ret: p
start: broadcast use gcnt;
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures is(r, scheme_spec(input@))
closure 0 start: proof { lemma_colon(input@); }
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> is(r, scheme_spec(i@))
@*/
/*@ fn parsers.rs::credentials
ret: p
start: broadcast use gcnt;
closures: pure
closure 0: -> (r: IResult<&[u8], ParsedCredentials>) ensures isc(r, cred_spec(input@))
closure 1: -> (__b: bool) ensures __b == (!pqf(c) && c != 64)
subst: let (password, username) = =>> proof { lemma_colon(credentials@); } let (password, username) =
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], ParsedCredentials>| #[trigger] p.ensures((i,), r) ==> isc(r, cred_spec(i@))
@*/
/*@ fn parsers.rs::ipv6
ret: p
start: broadcast use gcnt;
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures is(r, ipv6_spec(input@))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> is(r, ipv6_spec(i@))
@*/
/*@ fn parsers.rs::hostname
ret: p
start: broadcast use gcnt;
closures: pure
pre: many0(tag(" ")) =>> vx_blanks()
pre: hostname.ends_with(&[b' ']) =>> vx_ends_blank(hostname)
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures is(r, host_spec(input@))
loop 0 before: let ghost h0 = hostname@;
loop 0: invariant rblanks(hostname@) == rblanks(h0) ensures hostname@ == rblanks(h0) decreases hostname@.len()
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> is(r, host_spec(i@))
@*/
/*@ fn parsers.rs::port
ret: p
start: broadcast use gcnt;
closures: pure
pre: many0(tag(" ")) =>> vx_blanks()
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures is(r, port_part(input@))
closure 0 start: proof { if input@.len() > 0 { lemma_blanks(cut(input@, 1)); } }
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> is(r, port_part(i@))
@*/
/*@ fn parsers.rs::path
ret: p
start: broadcast use gcnt;
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures is(r, path_spec(input@))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> is(r, path_spec(i@))
@*/
/*@ fn parsers.rs::query
ret: p
start: broadcast use gcnt;
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures is(r, query_spec(input@))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> is(r, query_spec(i@))
@*/
/*@ fn parsers.rs::fragment
ret: p
start: broadcast use gcnt;
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures is(r, frag_spec(input@))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> is(r, frag_spec(i@))
@*/
// --------------------------------------------------------------------------- host names
pub uninterp spec fn ipv6_text(s: Seq<u8>) -> bool;
/// std::net::Ipv6Addr::from_str(..).is_ok() (assumed to be a function of the text)
#[verifier::external_body]
pub fn vx_is_ipv6(s: VStr) -> (r: bool) ensures r == ipv6_text(s.b@) { unimplemented!() }
/// char::is_alphanumeric on the first 256 characters: the ASCII and Latin-1 letters and digits
pub open spec fn alnum(c: u8) -> bool {
    (48 <= c <= 57) || (65 <= c <= 90) || (97 <= c <= 122) || c == 0xaa || c == 0xb5 || c == 0xba || (0xc0 <= c && c != 0xd7 && c != 0xf7)
    || c == 0xb2 || c == 0xb3 || c == 0xb9 || (0xbc <= c <= 0xbe)
}
#[verifier::external_body]
pub fn vx_alnum(c: u8) -> (r: bool) ensures r == alnum(c) { unimplemented!() }
pub open spec fn label_char(c: u8) -> bool { c == 95 || c == 45 || alnum(c) }
pub open spec fn dotp() -> spec_fn(u8) -> bool { |c: u8| c == 46 }
pub open spec fn label_ok(l: Seq<u8>) -> bool { l.len() <= 63 && forall|k: int| 0 <= k < l.len() ==> label_char(#[trigger] l[k]) }
pub open spec fn twodots(s: Seq<u8>) -> bool { exists|k: int| 0 <= k && k + 1 < s.len() && s[k] == 46 && #[trigger] s[k + 1] == 46 }
/// "[" address "]" at the start
pub open spec fn bracketed(s: Seq<u8>) -> Option<Seq<u8>> {
    let a = cut(s, 1);
    let b = from_pqf_br(a);
    if starts(s, 91) && b.len() < a.len() && starts(b, 93) { Some(before(a, b)) } else { None }
}
pub open spec fn hostname_valid(s: Seq<u8>) -> bool {
    &&& 0 < s.len() <= 255
    &&& if bracketed(s) is Some && utf8_valid(bracketed(s)->0) { ipv6_text(bracketed(s)->0) }
        else { s[0] != 46 && !twodots(s) && forall|i: int| 0 <= i < split_at(s, dotp()).len() ==> label_ok(#[trigger] split_at(s, dotp())[i]) }
}
proof fn lemma_twodots(s: Seq<u8>, t: Seq<u8>)
    requires t.len() == 2, t[0] == 46, t[1] == 46
    ensures twodots(s) == exists|k: int| occurs_at(s, t, k)
{
    if twodots(s) { let k = choose|k: int| 0 <= k && k + 1 < s.len() && s[k] == 46 && #[trigger] s[k + 1] == 46; assert(s.subrange(k, k + 2) =~= t); assert(occurs_at(s, t, k)); }
    if exists|k: int| occurs_at(s, t, k) { let k = choose|k: int| occurs_at(s, t, k); assert(s.subrange(k, k + 2)[0] == s[k]); assert(s.subrange(k, k + 2)[1] == s[k + 1]); }
}
proof fn lemma_bracketed(s: Seq<u8>)
    requires starts(s, 91), !(starts(from_pqf_br(cut(s, 1)), 93) && from_pqf_br(cut(s, 1)).len() < s.len() - 1)
    ensures bracketed(s) is None {}
/*@ fn util.rs::validate_hostname
ret: r
start: broadcast use gcnt; proof { let t = seq![46u8, 46u8]; lemma_twodots(input@, t); assert((&[46u8, 46u8])@ =~= t); skl::lemma_props(|c: u8| !pqf(c) && c != 93, cut(input@, 1)); }
pre: char::<_, NomError<&[u8]>>(__ANY) =>> char(__ANY)
pre: is_not::<_, _, NomError<&[u8]>>(__ANY) =>> is_not(__ANY)
pre: tag::<_, _, NomError<&[u8]>>(__ANY) =>> tag(__ANY)
pre: take_until::<_, _, NomError<&[u8]>>(__ANY) =>> take_until(__ANY)
pre: take_while_m_n::<_, _, NomError<&[u8]>>(__ANY) =>> take_while_m_n(__ANY)
pre: std::str::from_utf8(addr) =>> vx_from_utf8(addr)
pre: std::net::Ipv6Addr::from_str(str).is_ok() =>> vx_is_ipv6(str)
pre: input.split(__ANY) =>> vx_split(input, __ANY)
pre: (c as char).is_alphanumeric() =>> vx_alnum(c)
closures: pure
closure 1: -> (__b: bool) ensures __b == label_char(c)
spec: ensures r == hostname_valid(input@)
loop 0 iter: it
loop 0 before: let ghost segs = split_at(input@, dotp());
loop 0: invariant !(bracketed(input@) is Some && utf8_valid(bracketed(input@)->0)), views(it.seq()) == segs, segs == split_at(input@, dotp()), forall|i: int| 0 <= i < it.index@ ==> label_ok(#[trigger] segs[i]),
loop 0 start: proof { assert(views(it.seq())[it.index@ as int] == section@); assert(segs[it.index@ as int] == section@); }
@*/

// --------------------------------------------------------------------------- authorities
pub open spec fn port_spec(s: Seq<u8>) -> Option<int> {
    if digits_ok(s, 10) && 1 <= value_of(s, 10) <= 65535 { Some(value_of(s, 10)) } else { None }
}
pub proof fn lemma_digits(s: Seq<u8>)
    requires s.len() > 0, forall|k: int| 0 <= k < s.len() ==> is_digit(#[trigger] s[k])
    ensures digits_ok(s, 10), utf8_valid(s), no_plus(s) == s
{ broadcast use sx::ax_ascii_utf8; assert(is_digit(s[0])); }
pub proof fn lemma_digit_iff(c: u8) ensures is_digit(c) <==> digit_of(c, 10) is Some {}
/*@ fn util.rs::convert_port
ret: r
subst: port.iter().all(__ANY) =>> vx_all(port, __ANY)
closures: pure
start: proof {
    if digits_ok(port@, 10) { assert forall|k: int| 0 <= k < port@.len() implies is_digit(#[trigger] port@[k]) by { lemma_digit_iff(port@[k]); } lemma_digits(port@); }
    else if port@.len() > 0 { let k = choose|k: int| 0 <= k < port@.len() && digit_of(#[trigger] port@[k], 10) is None; assert(!is_digit(port@[k])); }
  }
spec: ensures match port_spec(port@) { Some(v) => r is Some && r->Some_0 == v, None => r is None }
@*/
pub type parsed_port<'a> = Option<(&'a [u8], Option<u16>)>;
pub type parsed_hostport<'a> = (&'a [u8], parsed_port<'a>, bool);
/// host, then ":" port; valid when both are, and nothing else follows
pub struct HostPort { pub rest: Seq<u8>, pub host: Seq<u8>, pub port: Option<Seq<u8>>, pub valid: bool }
pub open spec fn hostport_spec(s: Seq<u8>) -> Option<HostPort> {
    match host_spec(s) {
        None => None,
        Some((rest, host)) => {
            let port = val(port_part(rest));
            Some(HostPort { rest, host, port, valid: hostname_valid(host) && match port { Some(p) => port_spec(p) is Some, None => rest.len() == 0 } })
        },
    }
}
pub open spec fn num_is(r: Option<u16>, p: Seq<u8>) -> bool { match port_spec(p) { Some(v) => r is Some && r->0 == v, None => r is None } }
pub open spec fn hostport_is(r: IResult<&[u8], parsed_hostport>, w: Option<HostPort>) -> bool {
    match w {
        None => r is Err && r->Err_0 is Error,
        Some(h) => {
            &&& r is Ok && r->Ok_0.0@ == h.rest && r->Ok_0.1.0@ == h.host && r->Ok_0.1.2 == h.valid
            &&& match h.port { None => r->Ok_0.1.1 is None, Some(p) => r->Ok_0.1.1 is Some && (r->Ok_0.1.1->0).0@ == p && num_is((r->Ok_0.1.1->0).1, p) }
        },
    }
}
/*@ fn parsers.rs::parse_hostport
ret: r
spec: ensures hostport_is(r, hostport_spec(input@))
@*/
// --------------------------------------------------------------------------- URIs
pub struct DecoderConfig { pub x: u8 }
pub struct LowerS;
pub open spec fn lowers(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |k: int| lower(s[k])) }
#[verifier::external_body]
pub fn vx_lower(s: &[u8]) -> (r: Vec<u8>) ensures r@ == lowers(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_bstr(s: &Bstr) -> (r: &[u8]) ensures r@ == s@ { unimplemented!() }
/*@ item uri.rs::Uri
@*/
pub open spec fn view(x: Option<Bstr>) -> Option<Seq<u8>> { match x { Some(b) => Some(b@), None => None } }
/// a component found replaces the one there was
pub open spec fn upd(o: Option<Bstr>, w: Option<Seq<u8>>, n: Option<Bstr>) -> bool { match w { Some(v) => n is Some && n->0@ == v, None => n == o } }
pub struct Split { pub path: Part, pub query: Part, pub frag: Part }
pub open spec fn tail_spec(s: Seq<u8>) -> Split {
    let path = path_spec(s);
    let a = left(s, path);
    let query = query_spec(a);
    let b = left(a, query);
    Split { path, query, frag: frag_spec(b) }
}
pub open spec fn uri_is(o: Uri, n: Uri, s: Seq<u8>) -> bool {
    let a = auth_spec(s);
    let t = tail_spec(a.rest);
    &&& upd(o.scheme, a.scheme, n.scheme) && upd(o.username, a.user, n.username) && upd(o.password, a.pass, n.password)
    &&& upd(o.hostname, a.host, n.hostname) && upd(o.port, a.port, n.port)
    &&& upd(o.path, val(t.path), n.path) && upd(o.query, val(t.query), n.query) && upd(o.fragment, val(t.frag), n.fragment)
    &&& n.port_number == o.port_number && n.cfg == o.cfg
}
/*@ fn uri.rs::Uri::parse_uri
spec: ensures uri_is(*old(self), *final(self), input@)
@*/
/*@ fn uri.rs::Uri::parse_uri_hostport
pre: parse_hostport(hostport) =>> parse_hostport(vx_bstr(hostport))
pre: &host.to_ascii_lowercase() =>> &vx_lower(host)
spec: ensures match hostport_spec(hostport@) {
    None => *final(self) == *old(self) && *final(flags) == *old(flags),
    Some(h) => {
        &&& view(final(self).hostname) == Some(lowers(h.host))
        &&& upd(old(self).port, h.port, final(self).port)
        &&& match h.port { Some(p) => if port_spec(p) is Some { num_is(final(self).port_number, p) } else { final(self).port_number == old(self).port_number }, None => final(self).port_number == old(self).port_number }
        &&& *final(flags) == (if h.valid { *old(flags) } else { *old(flags) | HtpFlags::HOSTU_INVALID })
        &&& final(self).scheme == old(self).scheme && final(self).path == old(self).path && final(self).query == old(self).query && final(self).fragment == old(self).fragment
    },
  }
@*/
/*@ fn uri.rs::Uri::normalized_port
spec: ensures match self.port {
    None => r is None && *final(flags) == *old(flags),
    Some(p) => num_is(r, p@) && *final(flags) == (if port_spec(p@) is Some { *old(flags) } else { *old(flags) | HtpFlags::HOSTU_INVALID }),
  }
ret: r
@*/
// --------------------------------------------------------------------------- lemmas over the grammar
/// The path, the query and the fragment with their marks are the whole of what follows the authority:
/// no byte is dropped, invented or attributed twice.
pub open spec fn or0(p: Part) -> Seq<u8> { match p { Some((_, v)) => v, None => Seq::empty() } }
pub open spec fn mark(p: Part, c: u8) -> Seq<u8> { match p { Some((_, v)) => seq![c] + v, None => Seq::empty() } }
pub proof fn lemma_cover(s: Seq<u8>)
    ensures ({ let t = tail_spec(s); s == or0(t.path) + mark(t.query, 63) + mark(t.frag, 35) }),
        ({ let t = tail_spec(s); &&& (forall|k: int| 0 <= k < or0(t.path).len() ==> or0(t.path)[k] != 63 && or0(t.path)[k] != 35) && (forall|k: int| 0 <= k < or0(t.query).len() ==> or0(t.query)[k] != 35) })
{
    skl::lemma_props(|c: u8| c != 35 && c != 63, s);
    let a = left(s, path_spec(s));
    if a.len() > 0 { skl::lemma_props(|c: u8| c != 35, cut(a, 1)); }
    let t = tail_spec(s);
    assert(s =~= or0(t.path) + a);
    let b = left(a, t.query);
    assert(a =~= mark(t.query, 63) + b);
    assert(b =~= mark(t.frag, 35));
    assert(s =~= or0(t.path) + mark(t.query, 63) + mark(t.frag, 35));
}
/// No authority (and no scheme) is taken from a URI that starts with a slash, and the credentials and
/// the host never reach into the path, the query or the fragment.
pub proof fn lemma_relative(s: Seq<u8>) requires starts(s, 47) ensures auth_spec(s).rest == s, auth_spec(s).scheme is None, auth_spec(s).host is None {}
pub open spec fn nopqf(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> !pqf(#[trigger] s[k]) }
pub proof fn lemma_rblanks(s: Seq<u8>) requires nopqf(s) ensures nopqf(rblanks(s)) decreases s.len() { if s.len() > 0 && s[s.len() - 1] == 32 { lemma_rblanks(s.subrange(0, s.len() - 1)); } }
/// credentials and host stop before the first '/', '?' or '#' of the authority
pub proof fn lemma_authority(s: Seq<u8>)
    ensures auth_spec(s).user is Some ==> nopqf(auth_spec(s).user->0), auth_spec(s).pass is Some ==> nopqf(auth_spec(s).pass->0),
        auth_spec(s).host is Some ==> nopqf(auth_spec(s).host->0), auth_spec(s).port is Some ==> nopqf(auth_spec(s).port->0)
{
    if let Some((a, sc)) = scheme_spec(s) {
        if let Some((r, _)) = cred_spec(a) { skl::lemma_props(|c: u8| !pqf(c) && c != 64, cut(a, 2)); lemma_colon(before(cut(a, 2), from_pqf_at(cut(a, 2)))); }
        let b = match cred_spec(a) { Some((r, _)) => r, None => a };
        lemma_host(b);
        if let Some((c, h)) = host_spec(b) { if let Some((r, p)) = port_part(c) { let d = skip_blanks(cut(c, 1)); skl::lemma_props(|c: u8| !pqf(c), d); skl::lemma_props(|c: u8| c != 32, before(d, from_pqf(d))); } }
    }
}
pub proof fn lemma_host(s: Seq<u8>) ensures host_spec(s) is Some ==> nopqf((host_spec(s)->0).1)
{
    if let Some((rest, h)) = host_spec(s) {
        let b = skip_blanks(if starts2(s, 47, 47) { cut(s, 2) } else { s });
        skl::lemma_props(|c: u8| !pqf(c) && c != 58, b);
        if b.len() > 0 { skl::lemma_props(|c: u8| !pqf(c) && c != 93, cut(b, 1)); }
        if ipv6_spec(b) is Some {
            let v = (ipv6_spec(b)->0).1;
            assert forall|k: int| 0 <= k < v.len() implies !pqf(#[trigger] v[k]) by { if k > 0 { assert(v[k] == cut(b, 1)[k - 1]); } }
            lemma_rblanks(v);
        } else { lemma_rblanks(before(b, from_pqf_colon(b))); }
    }
}
}
fn main() {}
