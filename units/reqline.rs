#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
use std::rc::Rc;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug
@*/
//@include nom.inc
//@include base.inc
//@include bstr.inc
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
/*@ item transaction.rs::HtpProtocol
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item transaction.rs::HtpResponseNumber
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item config.rs::HtpServerPersonality
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item config.rs::HtpUnwanted
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item request.rs::HtpMethod
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item config.rs::Config
fields: server_personality, decoder_cfg, requestline_leading_whitespace_unwanted
@*/
/*@ item config.rs::DecoderConfig
fields: allow_space_uri
@*/
/*@ item transaction.rs::Transaction
fields: request_line, request_method, request_method_number, request_uri, request_protocol, request_protocol_number, is_protocol_0_9, response_status_expected_number, response_line, response_protocol, response_protocol_number, response_status, response_status_number, response_message
@*/
/*@ item connection_parser.rs::ConnectionParser
fields: transactions, cfg, logger
@*/
#[verifier::external_body] pub struct Logger { _0: u8 }
// The held transactions: the contracts of unit txs, seen from one direction.
#[verifier::external_body] pub struct Transactions { _0: u8 }
impl Transactions { pub uninterp spec fn rq(&self) -> Option<Transaction>; pub uninterp spec fn rs(&self) -> Option<Transaction>; }
impl ConnectionParser {
    pub open spec fn rqt(&self) -> Option<Transaction> { self.transactions.rq() }
    pub open spec fn rst(&self) -> Option<Transaction> { self.transactions.rs() }
    #[verifier::external_body] pub fn request_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures final(self).cfg == old(self).cfg, match r { Some(t) => old(self).rqt() == Some(*t) && final(self).rqt() == Some(*final(t)), None => old(self).rqt() is None && final(self).rqt() is None } { unimplemented!() }
    #[verifier::external_body] pub fn request(&self) -> (r: Option<&Transaction>)
        ensures match r { Some(t) => self.rqt() == Some(*t), None => self.rqt() is None } { unimplemented!() }
    #[verifier::external_body] pub fn response_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures final(self).cfg == old(self).cfg, match r { Some(t) => old(self).rst() == Some(*t) && final(self).rst() == Some(*final(t)), None => old(self).rst() is None && final(self).rst() is None } { unimplemented!() }
}
impl Bstr {
    #[verifier::external_body] pub fn vx_vec(v: Vec<u8>) -> (r: Bstr) ensures r@ == v@ { unimplemented!() }
}
/// `[a, b].concat()` (assumed contract on core)
#[verifier::external_body] pub fn vx_concat(a: &[u8], b: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@ { unimplemented!() }
/// `?` on a parser result (assumed: the conversion of its error)
#[verifier::external_body] pub fn vx_nom<'a, T>(r: IResult<&'a [u8], T>) -> (x: Result<(&'a [u8], T)>)
    ensures match r { Ok(v) => x is Ok && x->Ok_0 == v, Err(_) => x is Err } { unimplemented!() }
// what the texts mean: unit nums (P07)
pub uninterp spec fn protocol_of(s: Seq<u8>) -> HtpProtocol;
pub uninterp spec fn status_of(s: Seq<u8>) -> HtpResponseNumber;
#[verifier::external_body] pub fn parse_protocol(s: &[u8], logger: &mut Logger) -> (r: HtpProtocol) ensures r == protocol_of(s@) { unimplemented!() }
#[verifier::external_body] pub fn parse_status(s: &[u8]) -> (r: HtpResponseNumber) ensures r == status_of(s@) { unimplemented!() }

// --------------------------------------------------------------------------- specifications
pub open spec fn sp(c: u8) -> bool { c == 32 || c == 9 || c == 13 || c == 10 || c == 11 || c == 12 }
pub open spec fn eolc(c: u8) -> bool { c == 10 || c == 13 }
pub open spec fn lstrip(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && sp(s[0]) { lstrip(s.subrange(1, s.len() as int)) } else { s }
}
pub open spec fn rstrip(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && sp(s[s.len() - 1]) { rstrip(s.subrange(0, s.len() - 1)) } else { s }
}
pub open spec fn rchomp(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && eolc(s[s.len() - 1]) { rchomp(s.subrange(0, s.len() - 1)) } else { s }
}
pub open spec fn strip(s: Seq<u8>) -> Seq<u8> { rstrip(lstrip(s)) }
pub open spec fn skip_sp(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| sp(c), s) }
pub open spec fn skip_text(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| !sp(c), s) }
pub open spec fn skip_sp0(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| sp(c) || c == 0, s) }
pub open spec fn skip_aws(s: Seq<u8>) -> Seq<u8> { skip_while(|c: u8| ascii_ws(c), s) }
/// the part of s before its suffix t
pub open spec fn before(s: Seq<u8>, t: Seq<u8>) -> Seq<u8> { s.subrange(0, s.len() - t.len()) }
pub open spec fn until_nul(s: Seq<u8>) -> Seq<u8> { before(s, skip_while(|c: u8| c != 0, s)) }
/// where the first or the last byte of the kind is (-1 if there is none)
pub open spec fn ix(f: spec_fn(u8) -> bool, s: Seq<u8>, last: bool) -> int decreases s.len() {
    if s.len() == 0 { -1 }
    else if last { if f(s[s.len() - 1]) { s.len() - 1 } else { ix(f, s.subrange(0, s.len() - 1), last) } }
    else if f(s[0]) { 0 }
    else { let k = ix(f, s.subrange(1, s.len() as int), last); if k < 0 { -1 } else { k + 1 } }
}
pub proof fn lemma_ix(f: spec_fn(u8) -> bool, s: Seq<u8>, last: bool, k: int)
    requires 0 <= k < s.len(), f(s[k]), forall|j: int| (if last { k < j < s.len() } else { 0 <= j < k }) ==> !f(#[trigger] s[j])
    ensures ix(f, s, last) == k
    decreases s.len()
{
    if last {
        if k < s.len() - 1 {
            assert(!f(s[s.len() - 1]));
            let t = s.subrange(0, s.len() - 1);
            assert forall|j: int| k < j < t.len() implies !f(#[trigger] t[j]) by { assert(t[j] == s[j]); }
            lemma_ix(f, t, last, k);
        }
    } else if k > 0 {
        assert(!f(s[0]));
        let t = s.subrange(1, s.len() as int);
        assert forall|j: int| 0 <= j < k - 1 implies !f(#[trigger] t[j]) by { assert(t[j] == s[j + 1]); }
        assert(t[k - 1] == s[k]);
        lemma_ix(f, t, last, k - 1);
    }
}
pub proof fn lemma_no_ix(f: spec_fn(u8) -> bool, s: Seq<u8>, last: bool)
    requires forall|j: int| 0 <= j < s.len() ==> !f(#[trigger] s[j])
    ensures ix(f, s, last) == -1
    decreases s.len()
{
    if s.len() > 0 {
        assert(!f(s[0])); assert(!f(s[s.len() - 1]));
        let t = if last { s.subrange(0, s.len() - 1) } else { s.subrange(1, s.len() as int) };
        assert forall|j: int| 0 <= j < t.len() implies !f(#[trigger] t[j]) by { assert(t[j] == if last { s[j] } else { s[j + 1] }); }
        lemma_no_ix(f, t, last);
    }
}
pub open spec fn f_space() -> spec_fn(u8) -> bool { |c: u8| c == 32 }
pub open spec fn f_white() -> spec_fn(u8) -> bool { |c: u8| sp(c) }
pub open spec fn cut(f: spec_fn(u8) -> bool, s: Seq<u8>, last: bool) -> (Seq<u8>, Seq<u8>) {
    let k = ix(f, s, last);
    if k < 0 { (s, Seq::empty()) } else { (strip(s.subrange(0, k)), strip(s.subrange(k + 1, s.len() as int))) }
}
/// the URI and the protocol: cut at a space, and only if there is none at other white space
pub open spec fn uri_protocol(s: Seq<u8>, last: bool) -> (Seq<u8>, Seq<u8>) {
    if ix(f_space(), s, last) >= 0 { cut(f_space(), s, last) } else { cut(f_white(), s, last) }
}
pub open spec fn says<F: Fn(&u8) -> bool>(p: F, f: spec_fn(u8) -> bool) -> bool { forall|c: &u8, b: bool| #[trigger] p.ensures((c,), b) ==> b == f(*c) }
pub broadcast proof fn lemma_cut_space<F: Fn(&u8) -> bool>(p: F, s: Seq<u8>, last: bool, k: int)
    requires #[trigger] cut_at(p, s, last, k), says(p, f_space())
    ensures ix(f_space(), s, last) == k
{ lemma_ix(f_space(), s, last, k); }
pub broadcast proof fn lemma_cut_white<F: Fn(&u8) -> bool>(p: F, s: Seq<u8>, last: bool, k: int)
    requires #[trigger] cut_at(p, s, last, k), says(p, f_white())
    ensures ix(f_white(), s, last) == k
{ lemma_ix(f_white(), s, last, k); }
pub broadcast proof fn lemma_no_cut_space<F: Fn(&u8) -> bool>(p: F, s: Seq<u8>)
    requires #[trigger] no_cut(p, s), says(p, f_space())
    ensures ix(f_space(), s, true) == -1, ix(f_space(), s, false) == -1
{ lemma_no_ix(f_space(), s, true); lemma_no_ix(f_space(), s, false); }
pub broadcast proof fn lemma_no_cut_white<F: Fn(&u8) -> bool>(p: F, s: Seq<u8>)
    requires #[trigger] no_cut(p, s), says(p, f_white())
    ensures ix(f_white(), s, true) == -1, ix(f_white(), s, false) == -1
{ lemma_no_ix(f_white(), s, true); lemma_no_ix(f_white(), s, false); }
pub proof fn lemma_no_white(s: Seq<u8>)
    ensures (forall|j: int| 0 <= j < s.len() ==> !sp(#[trigger] s[j])) ==> ix(f_white(), s, true) == -1 && ix(f_white(), s, false) == -1
{ if forall|j: int| 0 <= j < s.len() ==> !sp(#[trigger] s[j]) { lemma_no_ix(f_white(), s, true); lemma_no_ix(f_white(), s, false); } }
pub proof fn lemma_skip_len(f: spec_fn(u8) -> bool, s: Seq<u8>)
    ensures skip_while(f, s).len() <= s.len(), skip_while(f, s).len() > 0 ==> !f(skip_while(f, s)[0]), s.len() > 0 && f(s[0]) ==> skip_while(f, s).len() < s.len()
    decreases s.len()
{ if s.len() > 0 && f(s[0]) { lemma_skip_len(f, s.subrange(1, s.len() as int)); } }
pub proof fn lemma_lstrip(s: Seq<u8>) ensures lstrip(s).len() <= s.len(), lstrip(s).len() > 0 ==> !sp(lstrip(s)[0]) decreases s.len()
{ if s.len() > 0 && sp(s[0]) { lemma_lstrip(s.subrange(1, s.len() as int)); } }
pub proof fn lemma_rstrip(s: Seq<u8>)
    ensures rstrip(s).len() <= s.len(), rstrip(s).len() > 0 ==> !sp(rstrip(s)[rstrip(s).len() - 1]), rstrip(s).len() > 0 ==> rstrip(s)[0] == s[0]
    decreases s.len()
{ if s.len() > 0 && sp(s[s.len() - 1]) { lemma_rstrip(s.subrange(0, s.len() - 1)); } }
pub proof fn lemma_strip(s: Seq<u8>) ensures strip(strip(s)) == strip(s), strip(s).len() <= s.len()
{ lemma_lstrip(s); lemma_rstrip(lstrip(s)); }
pub proof fn lemma_strip_len(s: Seq<u8>) ensures strip(s).len() <= s.len(), strip(Seq::<u8>::empty()) == Seq::<u8>::empty()
{ lemma_lstrip(s); lemma_rstrip(lstrip(s)); }
/// what the request line says
pub ghost struct Rq { pub lead: Seq<u8>, pub method: Seq<u8>, pub more: bool, pub uri: Seq<u8>, pub protocol: Seq<u8> }
pub open spec fn rq_parts(s: Seq<u8>, last: bool) -> Rq {
    let a = skip_sp(s);
    let b = skip_text(a);
    let c = skip_sp(b);
    let up = uri_protocol(strip(c), last);
    Rq { lead: before(s, a), method: before(a, b), more: c.len() > 0, uri: up.0, protocol: up.1 }
}
pub open spec fn rq_data(cfg: Config, line: Seq<u8>) -> Seq<u8> { if cfg.server_personality == HtpServerPersonality::APACHE_2 { until_nul(line) } else { line } }
/// what follows the method
pub open spec fn rq_rest(c: &ConnectionParser, line: Seq<u8>) -> Seq<u8> { skip_sp(skip_text(skip_sp(rq_data(*c.cfg, line)))) }
pub open spec fn rq_line(cfg: Config, line: Seq<u8>) -> Rq { rq_parts(rq_data(cfg, line), cfg.decoder_cfg.allow_space_uri) }
pub open spec fn rq_kept(cfg: Config, p: Rq) -> bool { p.lead.len() > 0 && cfg.requestline_leading_whitespace_unwanted != HtpUnwanted::IGNORE }
/// the name of the method, with the leading white space if that is configured to matter
pub open spec fn rq_name(cfg: Config, p: Rq) -> Seq<u8> { if rq_kept(cfg, p) { p.lead + p.method } else { p.method } }
pub open spec fn is_text(o: Option<Bstr>, s: Seq<u8>) -> bool { o is Some && o->Some_0@ == s }
pub open spec fn rs_unchanged(o: Transaction, n: Transaction) -> bool {
    &&& n.response_line == o.response_line && n.response_protocol == o.response_protocol && n.response_protocol_number == o.response_protocol_number
    &&& n.response_status == o.response_status && n.response_status_number == o.response_status_number && n.response_message == o.response_message
}
pub open spec fn rq_unchanged(o: Transaction, n: Transaction) -> bool {
    &&& n.request_line == o.request_line && n.request_method == o.request_method && n.request_method_number == o.request_method_number && n.request_uri == o.request_uri
    &&& n.request_protocol == o.request_protocol && n.request_protocol_number == o.request_protocol_number && n.is_protocol_0_9 == o.is_protocol_0_9
    &&& n.response_status_expected_number == o.response_status_expected_number
}
pub open spec fn rq_ens(cfg: Config, line: Seq<u8>, o: Transaction, n: Transaction) -> bool {
    let p = rq_line(cfg, line);
    &&& is_text(n.request_line, line)
    &&& is_text(n.request_method, rq_name(cfg, p))
    &&& n.request_method_number == method_of(rq_name(cfg, p))
    &&& n.response_status_expected_number == if rq_kept(cfg, p) { cfg.requestline_leading_whitespace_unwanted } else { o.response_status_expected_number }
    &&& if p.more { is_text(n.request_uri, p.uri) } else { n.request_uri == o.request_uri }
    &&& if p.more && p.protocol.len() > 0 { is_text(n.request_protocol, p.protocol) && n.request_protocol_number == protocol_of(p.protocol) && n.is_protocol_0_9 == o.is_protocol_0_9 }
        else { n.request_protocol == o.request_protocol && n.request_protocol_number == HtpProtocol::V0_9 && n.is_protocol_0_9 }
    &&& rs_unchanged(o, n)
}
/// what the response line says: its protocol, its status, its message; each only if the one before it is there
pub ghost struct Rs { pub protocol: Seq<u8>, pub status: Seq<u8>, pub message: Option<Seq<u8>> }
pub open spec fn rs_parts(s: Seq<u8>) -> Rs {
    let a = skip_sp0(s);
    let b = skip_text(a);
    let c = skip_sp(b);
    let d = skip_text(c);
    let e = skip_aws(d);
    Rs { protocol: before(a, b), status: before(c, d), message: if e.len() < d.len() { Some(rchomp(e)) } else { None } }
}
pub open spec fn rs_ens(line: Seq<u8>, o: Transaction, n: Transaction) -> bool {
    let p = rs_parts(line);
    &&& is_text(n.response_line, line)
    &&& if p.protocol.len() > 0 { is_text(n.response_protocol, p.protocol) && n.response_protocol_number == protocol_of(p.protocol) }
        else { n.response_protocol == o.response_protocol && n.response_protocol_number == HtpProtocol::INVALID }
    &&& if p.protocol.len() > 0 && p.status.len() > 0 { is_text(n.response_status, p.status) && n.response_status_number == status_of(p.status) }
        else { n.response_status is None && n.response_status_number == HtpResponseNumber::INVALID }
    &&& if p.protocol.len() > 0 && p.status.len() > 0 && p.message is Some { is_text(n.response_message, p.message->Some_0) } else { n.response_message is None }
    &&& rq_unchanged(o, n)
}
/// the known methods, by their exact names
pub open spec fn method_of(s: Seq<u8>) -> HtpMethod {
    if s =~= seq![71u8, 69, 84] { HtpMethod::GET }
    else if s =~= seq![80u8, 85, 84] { HtpMethod::PUT }
    else if s =~= seq![80u8, 79, 83, 84] { HtpMethod::POST }
    else if s =~= seq![68u8, 69, 76, 69, 84, 69] { HtpMethod::DELETE }
    else if s =~= seq![67u8, 79, 78, 78, 69, 67, 84] { HtpMethod::CONNECT }
    else if s =~= seq![79u8, 80, 84, 73, 79, 78, 83] { HtpMethod::OPTIONS }
    else if s =~= seq![84u8, 82, 65, 67, 69] { HtpMethod::TRACE }
    else if s =~= seq![80u8, 65, 84, 67, 72] { HtpMethod::PATCH }
    else if s =~= seq![80u8, 82, 79, 80, 70, 73, 78, 68] { HtpMethod::PROPFIND }
    else if s =~= seq![80u8, 82, 79, 80, 80, 65, 84, 67, 72] { HtpMethod::PROPPATCH }
    else if s =~= seq![77u8, 75, 67, 79, 76] { HtpMethod::MKCOL }
    else if s =~= seq![67u8, 79, 80, 89] { HtpMethod::COPY }
    else if s =~= seq![77u8, 79, 86, 69] { HtpMethod::MOVE }
    else if s =~= seq![76u8, 79, 67, 75] { HtpMethod::LOCK }
    else if s =~= seq![85u8, 78, 76, 79, 67, 75] { HtpMethod::UNLOCK }
    else if s =~= seq![86u8, 69, 82, 83, 73, 79, 78, 45, 67, 79, 78, 84, 82, 79, 76] { HtpMethod::VERSION_CONTROL }
    else if s =~= seq![67u8, 72, 69, 67, 75, 79, 85, 84] { HtpMethod::CHECKOUT }
    else if s =~= seq![85u8, 78, 67, 72, 69, 67, 75, 79, 85, 84] { HtpMethod::UNCHECKOUT }
    else if s =~= seq![67u8, 72, 69, 67, 75, 73, 78] { HtpMethod::CHECKIN }
    else if s =~= seq![85u8, 80, 68, 65, 84, 69] { HtpMethod::UPDATE }
    else if s =~= seq![76u8, 65, 66, 69, 76] { HtpMethod::LABEL }
    else if s =~= seq![82u8, 69, 80, 79, 82, 84] { HtpMethod::REPORT }
    else if s =~= seq![77u8, 75, 87, 79, 82, 75, 83, 80, 65, 67, 69] { HtpMethod::MKWORKSPACE }
    else if s =~= seq![77u8, 75, 65, 67, 84, 73, 86, 73, 84, 89] { HtpMethod::MKACTIVITY }
    else if s =~= seq![66u8, 65, 83, 69, 76, 73, 78, 69, 45, 67, 79, 78, 84, 82, 79, 76] { HtpMethod::BASELINE_CONTROL }
    else if s =~= seq![77u8, 69, 82, 71, 69] { HtpMethod::MERGE }
    else if s =~= seq![73u8, 78, 86, 65, 76, 73, 68] { HtpMethod::INVALID }
    else if s =~= seq![72u8, 69, 65, 68] { HtpMethod::HEAD }
    else { HtpMethod::UNKNOWN }
}
// --------------------------------------------------------------------------- the code
/*@ fn util.rs::is_space
attr: #[verifier::when_used_as_spec(sp)]
ret: r
spec: ensures r == sp(c)
@*/
/*@ fn util.rs::chomp
ret: r
spec: ensures r@ == rchomp(data@)
start: let ghost d0 = data@;
loop 0:
  invariant rchomp(data@) == rchomp(d0)
  ensures rchomp(data@) == data@, rchomp(data@) == rchomp(d0)
  decreases data@.len()
@*/
/*@ fn util.rs::trim_start
ret: r
spec: ensures r@ == lstrip(input@)
loop 0:
  invariant lstrip(result@) == lstrip(input@)
  ensures lstrip(result@) == result@, lstrip(result@) == lstrip(input@)
  decreases result@.len()
@*/
/*@ fn util.rs::trim_end
ret: r
spec: ensures r@ == rstrip(input@)
loop 0:
  invariant rstrip(result@) == rstrip(input@)
  ensures rstrip(result@) == result@, rstrip(result@) == rstrip(input@)
  decreases result@.len()
@*/
/*@ fn util.rs::trimmed
ret: r
spec: ensures r@ == strip(input@)
@*/
//@include cut.inc
/*@ fn util.rs::take_until_null
ret: r
closures: pure
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1), r->Ok_0.1@ == until_nul(data@)
@*/
/*@ fn util.rs::take_is_space
ret: r
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1), r->Ok_0.0@ == skip_sp(data@)
@*/
/*@ fn util.rs::take_is_space_or_null
ret: r
closures: pure
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1), r->Ok_0.0@ == skip_sp0(data@)
@*/
/*@ fn util.rs::take_not_is_space
ret: r
closures: pure
spec: ensures r is Ok, splits(data, r->Ok_0.0, r->Ok_0.1), r->Ok_0.0@ == skip_text(data@)
@*/
/*@ fn util.rs::take_ascii_whitespace
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], &[u8]>) ensures r is Ok, splits(input, r->Ok_0.0, r->Ok_0.1), r->Ok_0.0@ == skip_aws(input@)
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)),
  forall|i: &[u8], r: IResult<&[u8], &[u8]>| #[trigger] p.ensures((i,), r) ==> r is Ok && splits(i, r->Ok_0.0, r->Ok_0.1) && r->Ok_0.0@ == skip_aws(i@)
@*/
/*@ fn request.rs::HtpMethod::new
ret: r
spec: ensures r == method_of(method@)
@*/
/*@ fn response.rs::ConnectionParser::parse_response_line
impl: impl ConnectionParser
ret: r
pre: response_line_parser ( response_line ) ? =>> vx_nom(response_line_parser(response_line))?
start: proof {
    let a = skip_sp0(response_line@); let b = skip_text(a); let c = skip_sp(b);
    lemma_skip_len(|c: u8| !sp(c), a); lemma_skip_len(|c: u8| sp(c), b);
    assert(b.len() > 0 ==> c.len() < b.len());
  }
spec: ensures match old(self).rst() {
    None => r is Err && final(self).rst() is None,
    Some(o) => r is Ok && final(self).rst() is Some && rs_ens(response_line@, o, final(self).rst()->Some_0) }
@*/
/*@ fn request.rs::ConnectionParser::parse_request_line
impl: impl ConnectionParser
ret: r
closures: pure
hide: hide(method_of); hide(ix); hide(lstrip); hide(rstrip); hide(skip_while); broadcast use {lemma_cut_space, lemma_cut_white, lemma_no_cut_space, lemma_no_cut_white};
start: proof {
    let c = rq_rest(self, request_line@);
    let t = strip(c);
    lemma_strip(c);
    lemma_no_white(t); lemma_strip_len(Seq::empty());
    assert forall|k: int| 0 <= k < t.len() implies strip(#[trigger] t.subrange(0, k)).len() < t.len() by { lemma_strip_len(t.subrange(0, k)); }
  }
pre: Bstr::from([ls, method].concat()) =>> Bstr::vx_vec(vx_concat(ls, method))
subst: uri.iter().any(__ANY) =>> vx_any(uri, __ANY)
subst: ws.iter().any(__ANY) =>> vx_any(ws, __ANY)
spec: ensures match old(self).rqt() {
    None => r is Err && final(self).rqt() is None,
    Some(o) => r is Ok && final(self).rqt() is Some && rq_ens(*old(self).cfg, request_line@, o, final(self).rqt()->Some_0) }
@*/
}
fn main() {}
