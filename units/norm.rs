#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
use std::rc::Rc;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug
@*/
//@include base.inc
//@include bstr.inc
//@include flags.inc
//@include decoder.inc
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
/*@ item request.rs::HtpMethod
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item uri.rs::Uri
@*/
/*@ item config.rs::Config
fields: decoder_cfg, parse_urlencoded
@*/
/*@ item transaction.rs::Transaction
fields: cfg, request_uri, request_method_number, parsed_uri, parsed_uri_raw, partial_normalized_uri, complete_normalized_uri, flags, response_status_expected_number
@*/
/*@ item connection_parser.rs::State
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item connection_parser.rs::ConnectionParser
fields: transactions, cfg, logger, request_state
@*/
#[verifier::external_body] pub struct Logger { _0: u8 }
#[verifier::external_body] pub fn vx_logger(l: &Logger) -> (r: Logger) { unimplemented!() }
// The held transactions: the contracts of unit txs, seen from the request side.
#[verifier::external_body] pub struct Transactions { _0: u8 }
impl Transactions { pub uninterp spec fn rq(&self) -> Option<Transaction>; }
impl ConnectionParser {
    pub open spec fn rqt(&self) -> Option<Transaction> { self.transactions.rq() }
    #[verifier::external_body] pub fn request_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }), match r { Some(t) => old(self).rqt() == Some(*t) && final(self).rqt() == Some(*final(t)), None => old(self).rqt() is None && final(self).rqt() is None } { unimplemented!() }
}
/// the application's callbacks on the request URI and the request line: they may do anything to the transaction; `silent` says there are none
pub uninterp spec fn silent(cfg: Rc<Config>) -> bool;
#[verifier::external_body] pub fn vx_hook(p: &mut ConnectionParser) -> (r: Result<()>)
    ensures *final(p) == (ConnectionParser { transactions: final(p).transactions, ..*old(p) }), final(p).rqt() is Some == old(p).rqt() is Some, silent(old(p).cfg) ==> r is Ok && final(p).rqt() == old(p).rqt() { unimplemented!() }
// ---- what the parts mean: units urldec (P02), pathdec (P03), utf8 (P01), path (P04), uri (P05) ----
pub uninterp spec fn dec(cfg: DecoderConfig, s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn dec_flags(cfg: DecoderConfig, s: Seq<u8>, f: u64) -> u64;
pub uninterp spec fn path_dec(cfg: DecoderConfig, s: Seq<u8>) -> (Seq<u8>, u64, HtpUnwanted);
pub uninterp spec fn utf(cfg: DecoderConfig, s: Seq<u8>) -> (Seq<u8>, u64);
pub uninterp spec fn nodots(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn split_uri(s: Seq<u8>) -> U;
/// the authority of a CONNECT request, and whether it is invalid
pub uninterp spec fn authority(s: Seq<u8>) -> (U, bool);
pub uninterp spec fn host_ok(s: Seq<u8>) -> bool;
pub uninterp spec fn port_of(s: Seq<u8>) -> Option<u16>;
pub open spec fn pick(first: HtpUnwanted, then: HtpUnwanted) -> HtpUnwanted { if then != HtpUnwanted::IGNORE { then } else { first } }
#[verifier::external_body] pub fn decode_uri_with_flags(cfg: &DecoderConfig, flags: &mut u64, input: &[u8]) -> (r: Result<Bstr>)
    ensures r is Ok && r->Ok_0@ == dec(*cfg, input@), *final(flags) == dec_flags(*cfg, input@, *old(flags)) { unimplemented!() }
#[verifier::external_body] pub fn decode_uri_inplace(cfg: &DecoderConfig, input: &mut Bstr) -> (r: Result<()>) ensures r is Ok, final(input)@ == dec(*cfg, old(input)@) { unimplemented!() }
#[verifier::external_body] pub fn path_decode_uri_inplace(cfg: &DecoderConfig, flag: &mut u64, status: &mut HtpUnwanted, path: &mut Bstr)
    ensures final(path)@ == path_dec(*cfg, old(path)@).0, *final(flag) == *old(flag) | path_dec(*cfg, old(path)@).1, *final(status) == pick(*old(status), path_dec(*cfg, old(path)@).2) { unimplemented!() }
#[verifier::external_body] pub fn decode_and_validate_inplace(cfg: &DecoderConfig, flags: &mut u64, status: &mut HtpUnwanted, path: &mut Bstr)
    ensures final(path)@ == utf(*cfg, old(path)@).0, *final(flags) == *old(flags) | utf(*cfg, old(path)@).1,
      *final(status) == (if *final(flags) & HtpFlags::PATH_UTF8_INVALID != 0 && cfg.utf8_invalid_unwanted != HtpUnwanted::IGNORE { cfg.utf8_invalid_unwanted } else { *old(status) }) { unimplemented!() }
#[verifier::external_body] pub fn normalize_uri_path_inplace(s: &mut Bstr) ensures final(s)@ == nodots(old(s)@) { unimplemented!() }
#[verifier::external_body] pub fn validate_hostname(s: &[u8]) -> (r: bool) ensures r == host_ok(s@) { unimplemented!() }
#[verifier::external_body] pub fn convert_port(s: &[u8]) -> (r: Option<u16>) ensures r == port_of(s@) { unimplemented!() }
impl Uri {
    #[verifier::external_body] pub fn parse_uri(&mut self, input: &[u8])
        requires blank(uv(*old(self))) ensures final(self).cfg == old(self).cfg, uv(*final(self)) == split_uri(input@) { unimplemented!() }
    #[verifier::external_body] pub fn parse_uri_hostport(&mut self, hostport: &Bstr, flags: &mut u64)
        requires blank(uv(*old(self))) ensures final(self).cfg == old(self).cfg, uv(*final(self)) == authority(hostport@).0, *final(flags) == (if authority(hostport@).1 { *old(flags) | HtpFlags::HOSTU_INVALID } else { *old(flags) }) { unimplemented!() }
}
// the parameters of the query string are handed to the parameter processor: unit urlenc (P18)
#[verifier::external_body] pub struct UrlEncodedParser { _0: u8 }
/// whether the parameter processor accepts the parameters of the query
pub uninterp spec fn params_ok(cfg: Rc<Config>, query: Seq<u8>) -> bool;
impl Transaction {
    #[verifier::external_body] pub fn vx_query_params(&self, query: Bstr) -> (r: Result<()>) ensures r is Ok <==> params_ok(self.cfg, query@) { unimplemented!() }
}
// ---- core and bstr (assumed) ----
pub uninterp spec fn lowered(s: Seq<u8>) -> Seq<u8>;
/// no object is larger than isize::MAX bytes (a fact of the language)
pub mod axb { use vstd::prelude::*; use super::*; pub broadcast axiom fn ax_bstr_len(b: Bstr) ensures #[trigger] b@.len() <= isize::MAX; }
impl Bstr {
    #[verifier::external_body] pub fn make_ascii_lowercase(&mut self) ensures final(self)@ == lowered(old(self)@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_last_is(&self, c: u8) -> (r: bool) ensures r == (self@.len() > 0 && self@[self@.len() - 1] == c) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<u8>) ensures old(self)@.len() > 0 ==> final(self)@ == old(self)@.subrange(0, old(self)@.len() - 1), old(self)@.len() == 0 ==> final(self)@ == old(self)@ { unimplemented!() }
}
#[verifier::external_body] pub fn vx_clone(b: &Option<Bstr>) -> (r: Option<Bstr>) ensures ov(r) == ov(*b) { unimplemented!() }
// --------------------------------------------------------------------------- the rule
pub open spec fn ov(x: Option<Bstr>) -> Option<Seq<u8>> { match x { Some(b) => Some(b@), None => None } }
/// the parts of a URI
pub ghost struct U { pub scheme: Option<Seq<u8>>, pub user: Option<Seq<u8>>, pub pass: Option<Seq<u8>>, pub host: Option<Seq<u8>>, pub port: Option<Seq<u8>>, pub num: Option<u16>, pub path: Option<Seq<u8>>, pub query: Option<Seq<u8>>, pub frag: Option<Seq<u8>> }
pub open spec fn uv(u: Uri) -> U { U { scheme: ov(u.scheme), user: ov(u.username), pass: ov(u.password), host: ov(u.hostname), port: ov(u.port), num: u.port_number, path: ov(u.path), query: ov(u.query), frag: ov(u.fragment) } }
pub open spec fn no_uri() -> U { U { scheme: None, user: None, pass: None, host: None, port: None, num: None, path: None, query: None, frag: None } }
pub open spec fn blank(u: U) -> bool { u == no_uri() }
/// s without the dots at its end
pub open spec fn no_tail_dots(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && s[s.len() - 1] == 46 { no_tail_dots(s.subrange(0, s.len() - 1)) } else { s } }
pub open spec fn n_host(cfg: DecoderConfig, s: Seq<u8>) -> Seq<u8> { no_tail_dots(lowered(dec(cfg, s))) }
pub open spec fn n_path(cfg: DecoderConfig, s: Seq<u8>) -> Seq<u8> { nodots(utf(cfg, path_dec(cfg, s).0).0) }
pub open spec fn path_flags(cfg: DecoderConfig, s: Seq<u8>, f: u64) -> u64 { f | path_dec(cfg, s).1 | utf(cfg, path_dec(cfg, s).0).1 }
pub open spec fn path_status(cfg: DecoderConfig, s: Seq<u8>, f: u64, st: HtpUnwanted) -> HtpUnwanted {
    if path_flags(cfg, s, f) & HtpFlags::PATH_UTF8_INVALID != 0 && cfg.utf8_invalid_unwanted != HtpUnwanted::IGNORE { cfg.utf8_invalid_unwanted } else { pick(st, path_dec(cfg, s).2) }
}
pub open spec fn mapped(x: Option<Seq<u8>>, f: spec_fn(Seq<u8>) -> Seq<u8>) -> Option<Seq<u8>> { match x { Some(s) => Some(f(s)), None => None } }
pub open spec fn fl(cfg: DecoderConfig, x: Option<Seq<u8>>, f: u64) -> u64 { match x { Some(s) => dec_flags(cfg, s, f), None => f } }
/// the normalised URI: exactly the parts the raw one has, each normalised by the raw URI's configuration
pub open spec fn normal(cfg: DecoderConfig, u: U) -> U {
    U { scheme: mapped(u.scheme, |s: Seq<u8>| lowered(s)), user: mapped(u.user, |s: Seq<u8>| dec(cfg, s)), pass: mapped(u.pass, |s: Seq<u8>| dec(cfg, s)), host: mapped(u.host, |s: Seq<u8>| n_host(cfg, s)),
        port: None, num: match u.port { Some(p) => port_of(p), None => None }, path: mapped(u.path, |s: Seq<u8>| n_path(cfg, s)), query: u.query, frag: mapped(u.frag, |s: Seq<u8>| dec(cfg, s)) }
}
/// the findings, added in that order
pub open spec fn findings(cfg: DecoderConfig, u: U, f: u64) -> u64 {
    let f = fl(cfg, u.host, fl(cfg, u.pass, fl(cfg, u.user, f)));
    let f = if u.port is Some && port_of(u.port->Some_0) is None { f | HtpFlags::HOSTU_INVALID } else { f };
    fl(cfg, u.frag, f)
}
pub open spec fn all_flags(cfg: DecoderConfig, u: U, f: u64) -> u64 { match u.path { Some(p) => path_flags(cfg, p, findings(cfg, u, f)), None => findings(cfg, u, f) } }
pub open spec fn all_status(cfg: DecoderConfig, u: U, f: u64, st: HtpUnwanted) -> HtpUnwanted { match u.path { Some(p) => path_status(cfg, p, findings(cfg, u, f), st), None => st } }
/// the URI as text: what is in the path, query and fragment, and that after scheme, credentials, host and port
pub open spec fn text_path(cfg: DecoderConfig, s: Seq<u8>) -> Seq<u8> { if cfg.double_decode_normalized_path { dec(cfg, s) } else { s } }
pub open spec fn text_query(cfg: DecoderConfig, s: Seq<u8>) -> Seq<u8> { if cfg.double_decode_normalized_query { dec(cfg, dec(cfg, s)) } else { dec(cfg, s) } }
pub open spec fn app(a: Seq<u8>, x: Option<Seq<u8>>) -> Seq<u8> { match x { Some(s) => a + s, None => a } }
pub open spec fn text_tail(cfg: DecoderConfig, u: U) -> Seq<u8> {
    let a = match u.path { Some(p) => Seq::empty() + text_path(cfg, p), None => Seq::empty() };
    let b = match u.query { Some(q) => a + seq![63u8] + text_query(cfg, q), None => a };
    match u.frag { Some(f) => b + seq![35u8] + f, None => b }
}
pub open spec fn text_head(u: U) -> Seq<u8> {
    let a = match u.scheme { Some(s) => Seq::<u8>::empty() + s + seq![58u8, 47, 47], None => Seq::empty() };
    let b = if u.user is Some || u.pass is Some { app(app(a, u.user) + seq![58u8], u.pass) + seq![64u8] } else { a };
    let c = app(b, u.host);
    match u.port { Some(p) => c + seq![58u8] + p, None => c }
}
pub open spec fn nonempty(s: Seq<u8>) -> Option<Seq<u8>> { if s.len() > 0 { Some(s) } else { None } }
/// the raw URI of the request, and the flags with the finding of its authority; none for a CONNECT without one
pub open spec fn rq_raw(t: Transaction) -> Option<(U, u64)> {
    if t.request_method_number == HtpMethod::CONNECT {
        match t.request_uri { Some(u) => Some((authority(u@).0, if authority(u@).1 { t.flags | HtpFlags::HOSTU_INVALID } else { t.flags })), None => None }
    } else { match t.request_uri { Some(u) => Some((split_uri(u@), t.flags)), None => Some((no_uri(), t.flags)) } }
}
pub open spec fn with_host_flag(u: Uri, f: u64) -> u64 { if u.hostname is Some && !host_ok(u.hostname->Some_0@) { f | HtpFlags::HOSTU_INVALID } else { f } }
/// the URI of the request as it is worked out at the end of the request line
pub open spec fn rq_done(o: Transaction, n: Transaction, ok: bool) -> bool {
    match rq_raw(o) {
    None => !ok,
    Some((raw, f)) => {
        &&& n.cfg == o.cfg && n.request_uri == o.request_uri
        &&& n.parsed_uri_raw is Some && uv(n.parsed_uri_raw->Some_0) == raw && n.parsed_uri_raw->Some_0.cfg == o.cfg.decoder_cfg
        &&& n.parsed_uri is Some
        &&& if o.parsed_uri is Some { n.parsed_uri == o.parsed_uri && n.response_status_expected_number == o.response_status_expected_number }
            else { uv(n.parsed_uri->Some_0) == normal(o.cfg.decoder_cfg, raw) && n.response_status_expected_number == all_status(o.cfg.decoder_cfg, raw, f, o.response_status_expected_number) }
        &&& ok == (o.cfg.parse_urlencoded && n.parsed_uri->Some_0.query is Some ==> params_ok(o.cfg, n.parsed_uri->Some_0.query->Some_0@))
        &&& ok ==> n.flags == with_host_flag(n.parsed_uri->Some_0, if o.parsed_uri is Some { f } else { all_flags(o.cfg.decoder_cfg, raw, f) })
    } }
}
#[verifier::external_body] pub fn vx_query(u: &Option<Uri>) -> (r: Option<Bstr>) ensures ov(r) == (match *u { Some(u) => ov(u.query), None => None }) { unimplemented!() }
// --------------------------------------------------------------------------- the code
/*@ config
pre: self.scheme.clone() =>> vx_clone(&self.scheme)
pre: self.path.clone() =>> vx_clone(&self.path)
pre: self.query.clone() =>> vx_clone(&self.query)
pre: incomplete.query.clone() =>> vx_clone(&incomplete.query)
pre: normalized_hostname.last() == Some(&(b'.')) =>> normalized_hostname.vx_last_is(b'.')
@*/
/*@ fn uri.rs::Uri::with_config
ret: r
spec: ensures r.cfg == cfg, blank(uv(r))
@*/
/*@ fn uri.rs::Uri::normalized_scheme
ret: r
spec: ensures ov(r) == mapped(ov(self.scheme), |s: Seq<u8>| lowered(s))
@*/
/*@ fn uri.rs::Uri::normalized_username
ret: r
spec: ensures ov(r) == mapped(ov(self.username), |s: Seq<u8>| dec(self.cfg, s)), *final(flags) == fl(self.cfg, ov(self.username), *old(flags))
@*/
/*@ fn uri.rs::Uri::normalized_password
ret: r
spec: ensures ov(r) == mapped(ov(self.password), |s: Seq<u8>| dec(self.cfg, s)), *final(flags) == fl(self.cfg, ov(self.password), *old(flags))
@*/
/*@ fn uri.rs::Uri::normalized_hostname
ret: r
spec: ensures ov(r) == mapped(ov(self.hostname), |s: Seq<u8>| n_host(self.cfg, s)), *final(flags) == fl(self.cfg, ov(self.hostname), *old(flags))
loop 0 before: let ghost h0 = normalized_hostname@;
loop 0: invariant no_tail_dots(normalized_hostname@) == no_tail_dots(h0)
  ensures normalized_hostname@ == no_tail_dots(h0)
  decreases normalized_hostname@.len()
@*/
/*@ fn uri.rs::Uri::normalized_port
ret: r
spec: ensures r == (match self.port { Some(p) => port_of(p@), None => None }), *final(flags) == (if self.port is Some && r is None { *old(flags) | HtpFlags::HOSTU_INVALID } else { *old(flags) })
@*/
/*@ fn uri.rs::Uri::normalized_fragment
ret: r
pre: decode_uri_with_flags(&self.cfg, flags, fragment) =>> decode_uri_with_flags(&self.cfg, flags, fragment.as_slice())
spec: ensures ov(r) == mapped(ov(self.fragment), |s: Seq<u8>| dec(self.cfg, s)), *final(flags) == fl(self.cfg, ov(self.fragment), *old(flags))
@*/
/*@ fn uri.rs::Uri::normalized_path
ret: r
spec: ensures ov(r) == mapped(ov(self.path), |s: Seq<u8>| n_path(self.cfg, s)),
  match self.path { Some(p) => *final(flags) == path_flags(self.cfg, p@, *old(flags)) && *final(status) == path_status(self.cfg, p@, *old(flags), *old(status)), None => *final(flags) == *old(flags) && *final(status) == *old(status) }
@*/
/*@ fn uri.rs::Uri::generate_normalized_uri
start: proof { assert([58u8, 47, 47]@ =~= seq![58u8, 47, 47]); assert([58u8]@ =~= seq![58u8]); assert([64u8]@ =~= seq![64u8]); assert([63u8]@ =~= seq![63u8]); assert([35u8]@ =~= seq![35u8]); }
hide: broadcast use axb::ax_bstr_len;
ret: r
spec: ensures ov(r.0) == nonempty(text_tail(self.cfg, uv(*self))), ov(r.1) == nonempty(text_head(uv(*self)) + text_tail(self.cfg, uv(*self)))
@*/
/*@ fn transaction.rs::Transaction::normalize_parsed_uri
spec: ensures final(self).cfg == old(self).cfg, final(self).partial_normalized_uri == old(self).partial_normalized_uri, final(self).complete_normalized_uri == old(self).complete_normalized_uri, final(self).parsed_uri_raw == old(self).parsed_uri_raw, final(self).request_uri == old(self).request_uri, final(self).parsed_uri is Some,
  match old(self).parsed_uri_raw {
    Some(raw) => uv(final(self).parsed_uri->Some_0) == normal(raw.cfg, uv(raw)) && final(self).flags == all_flags(raw.cfg, uv(raw), old(self).flags) && final(self).response_status_expected_number == all_status(raw.cfg, uv(raw), old(self).flags, old(self).response_status_expected_number),
    None => blank(uv(final(self).parsed_uri->Some_0)) && final(self).flags == old(self).flags && final(self).response_status_expected_number == old(self).response_status_expected_number }
@*/
/*@ fn transaction.rs::Transaction::get_parsed_uri_hostname
ret: r
pre: self.parsed_uri.as_ref().and_then(|parsed_uri| parsed_uri.hostname.as_ref()) =>> match self.parsed_uri.as_ref() { Some(parsed_uri) => parsed_uri.hostname.as_ref(), None => None }
spec: ensures match (self.parsed_uri, r) { (None, r) => r is None, (Some(u), None) => u.hostname is None, (Some(u), Some(h)) => u.hostname == Some(*h) }
@*/
/*@ fn transaction.rs::Transaction::parse_request_line
ret: r
pre: self.request_uri.as_ref().ok_or(HtpStatus::ERROR)? =>> match self.request_uri.as_ref() { Some(u) => u, None => return Err(HtpStatus::ERROR) }
pre: self.parsed_uri.as_ref().and_then(|parsed_uri| parsed_uri.query.clone()) =>> vx_query(&self.parsed_uri)
pre: let mut urlenp = UrlEncodedParser::new(self.cfg.decoder_cfg); urlenp.parse_complete(query.as_slice()); for __ANY in urlenp.params.elements.iter() { __ANYB } =>> self.vx_query_params(query)?;
spec: ensures rq_done(*old(self), *final(self), r is Ok)
@*/
/// the two texts of the URI the transaction holds
pub open spec fn has_texts(t: Transaction) -> bool {
    t.parsed_uri is Some ==> ({ let u = t.parsed_uri->Some_0;
        ov(t.partial_normalized_uri) == nonempty(text_tail(u.cfg, uv(u))) && ov(t.complete_normalized_uri) == nonempty(text_head(uv(u)) + text_tail(u.cfg, uv(u))) })
}
/*@ fn connection_parser.rs::ConnectionParser::state_request_line
ret: r
pre: self.cfg.hook_request_uri_normalize.clone().run_all(self, __ANY) =>> vx_hook(self)
pre: self.cfg.hook_request_line.clone().run_all(self, __ANY) =>> vx_hook(self)
pre: self.logger.clone() =>> vx_logger(&self.logger)
spec: ensures final(self).cfg == old(self).cfg, r is Err ==> final(self).request_state == old(self).request_state, old(self).rqt() is None ==> r is Err,
    // whatever the callbacks did: the texts are those of the URI the transaction now holds
    r is Ok ==> final(self).request_state == State::PROTOCOL && final(self).rqt() is Some && has_texts(final(self).rqt()->Some_0),
    // and without callbacks that URI is the one worked out from the request line
    old(self).rqt() is Some && silent(old(self).cfg) ==> final(self).rqt() is Some && rq_done(old(self).rqt()->Some_0, final(self).rqt()->Some_0, r is Ok),
@*/
}
fn main() {}
