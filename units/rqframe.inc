/*@ item uri.rs::Uri
fields: hostname, port_number
@*/
/*@ item config.rs::Config
fields: parse_request_auth
@*/
/*@ item transaction.rs::Transaction
fields: cfg, flags, request_headers, request_transfer_coding, request_protocol_number, request_content_length, request_hostname, request_port_number, request_content_type, parsed_uri
@*/
#[verifier::external_body] pub fn vx_ne(a: Option<u16>, b: Option<u16>) -> (r: bool) ensures r == (a != b) { unimplemented!() }
pub open spec fn n_cl() -> Seq<u8> { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104] }
pub open spec fn n_te() -> Seq<u8> { seq![116u8, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103] }
pub open spec fn n_ct() -> Seq<u8> { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101] }
pub open spec fn n_host() -> Seq<u8> { seq![104u8, 111, 115, 116] }
pub open spec fn n_chunked() -> Seq<u8> { seq![99u8, 104, 117, 110, 107, 101, 100] }
proof fn lemma_names() ensures 
    (n_cl() =~= [99u8, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104]@),
    (n_te() =~= [116u8, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103]@),
    (n_ct() =~= [99u8, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101]@),
    (n_host() =~= [104u8, 111, 115, 116]@), (n_chunked() =~= [99u8, 104, 117, 110, 107, 101, 100]@) {}
/// the Host header's value read as host and port: None if unreadable, else the host, the port if one is given (itself None if not a number), and validity
pub uninterp spec fn hostport(v: Seq<u8>) -> Option<(Seq<u8>, Option<Option<u16>>, bool)>;
#[verifier::external_body] pub fn parse_hostport(v: &Bstr) -> (r: core::result::Result<(&[u8], (&[u8], Option<(&[u8], Option<u16>)>, bool)), u8>)
    ensures r is Ok == hostport(v@) is Some,
        r is Ok ==> (r->Ok_0.1).0@ == (hostport(v@)->0).0 && (r->Ok_0.1).2 == (hostport(v@)->0).2
            && match (r->Ok_0.1).1 { None => (hostport(v@)->0).1 is None, Some(p) => (hostport(v@)->0).1 == Some(p.1) } { unimplemented!() }
/// Authorization: what it sets besides AUTH_INVALID is P21's matter, as is that it fails with DECLINED only
#[verifier::external_body] pub fn parse_authorization(tx: &mut Transaction) -> (r: Result<()>) ensures *final(tx) == *old(tx), r is Err ==> r == Err::<(), _>(HtpStatus::DECLINED) { unimplemented!() }
// ---- the rule -------------------------------------------------------------------------------
pub open spec fn te(t: Transaction) -> Option<Header> { t.request_headers.first(n_te()) }
pub open spec fn cl(t: Transaction) -> Option<Header> { t.request_headers.first(n_cl()) }
pub open spec fn host(t: Transaction) -> Option<Header> { t.request_headers.first(n_host()) }
pub open spec fn is_chunked(t: Transaction) -> bool { te(t) is Some && holds_nocase_nozero(te(t)->0.value@, n_chunked()) }
/// how the request's body is delimited
pub open spec fn coding(t: Transaction) -> HtpTransferCoding {
    if te(t) is Some { if is_chunked(t) { HtpTransferCoding::CHUNKED } else { HtpTransferCoding::INVALID } }
    else if cl(t) is Some { if content_length(cl(t)->0.value@) is Some { HtpTransferCoding::IDENTITY } else { HtpTransferCoding::INVALID } }
    else { HtpTransferCoding::NO_BODY }
}
pub open spec fn bad_te(t: Transaction) -> bool { te(t) is Some && (!is_chunked(t) || rank(t.request_protocol_number) < 101) }
pub open spec fn bad_cl(t: Transaction) -> bool { te(t) is None && cl(t) is Some && content_length(cl(t)->0.value@) is None }
pub open spec fn invalid(t: Transaction) -> bool { coding(t) == HtpTransferCoding::INVALID }
pub open spec fn smuggling(t: Transaction) -> bool {
    if te(t) is Some { is_chunked(t) && (rank(t.request_protocol_number) < 101 || cl(t) is Some) }
    else { cl(t) is Some && (cl(t)->0.flags & HtpFlags::FIELD_FOLDED != 0 || cl(t)->0.flags & HtpFlags::FIELD_REPEATED != 0) }
}
/// host and port of the request before the Host header is looked at: the URI's, when it has any
pub open spec fn uri_host(t: Transaction) -> Option<Seq<u8>> {
    if t.parsed_uri is Some && t.parsed_uri->0.hostname is Some { Some(t.parsed_uri->0.hostname->0@) }
    else if t.request_hostname is Some { Some(t.request_hostname->0@) } else { None }
}
pub open spec fn uri_port(t: Transaction) -> Option<u16> {
    if t.parsed_uri is Some && t.parsed_uri->0.port_number is Some { t.parsed_uri->0.port_number } else { t.request_port_number }
}
pub open spec fn hp(t: Transaction) -> Option<(Seq<u8>, Option<Option<u16>>, bool)> { if host(t) is Some { hostport(host(t)->0.value@) } else { None } }
pub open spec fn host_missing(t: Transaction) -> bool { host(t) is None && rank(t.request_protocol_number) >= 101 }
pub open spec fn hosth_invalid(t: Transaction) -> bool { hp(t) is Some && !(hp(t)->0).2 }
pub open spec fn ambiguous(t: Transaction) -> bool {
    uri_host(t) is Some && host(t) is Some && (hp(t) is None || lowered(uri_host(t)->0) != lowered((hp(t)->0).0)
        || ((hp(t)->0).1 is Some && uri_port(t) is Some && uri_port(t) != (hp(t)->0).1->0))
}
pub open spec fn the_host(t: Transaction) -> Option<Seq<u8>> { if uri_host(t) is Some { uri_host(t) } else if hp(t) is Some { Some(lowered((hp(t)->0).0)) } else { None } }
pub open spec fn the_port(t: Transaction) -> Option<u16> { if uri_host(t) is None && hp(t) is Some && (hp(t)->0).1 is Some { (hp(t)->0).1->0 } else { uri_port(t) } }

/// the flags this decision sets
pub open spec fn ours() -> u64 { HtpFlags::REQUEST_INVALID_T_E | HtpFlags::REQUEST_INVALID | HtpFlags::REQUEST_SMUGGLING | HtpFlags::REQUEST_INVALID_C_L | HtpFlags::HOSTH_INVALID | HtpFlags::HOST_AMBIGUOUS | HtpFlags::HOST_MISSING | HtpFlags::AUTH_INVALID }
pub mod bits {
    use vstd::prelude::*;
    #[verifier::opaque] pub open spec fn bit(w: u64, f: u64) -> bool { w & f != 0 }
    #[verifier::opaque] pub open spec fn rest(w: u64, m: u64) -> u64 { w & !m }
    pub broadcast proof fn lemma_or(a: u64, b: u64, c: u64) ensures #[trigger] bit(a | b, c) == (bit(a, c) || bit(b, c)) {
        reveal(bit);
        assert(((a | b) & c != 0) == (a & c != 0 || b & c != 0)) by(bit_vector);
    }
    pub broadcast proof fn lemma_or_rest(a: u64, b: u64, c: u64) ensures rest(b, c) == 0 ==> #[trigger] rest(a | b, c) == rest(a, c) {
        reveal(rest);
        assert(b & !c == 0 ==> (a | b) & !c == a & !c) by(bit_vector);
    }
    pub broadcast group all { lemma_or, lemma_or_rest }
}
use bits::*;
/// every one of them is a bit of its own
proof fn lemma_bits() ensures
    bit(HtpFlags::REQUEST_INVALID_T_E, HtpFlags::REQUEST_INVALID_T_E),
    !bit(HtpFlags::REQUEST_INVALID_T_E, HtpFlags::REQUEST_INVALID),
    !bit(HtpFlags::REQUEST_INVALID_T_E, HtpFlags::REQUEST_SMUGGLING),
    !bit(HtpFlags::REQUEST_INVALID_T_E, HtpFlags::REQUEST_INVALID_C_L),
    !bit(HtpFlags::REQUEST_INVALID_T_E, HtpFlags::HOSTH_INVALID),
    !bit(HtpFlags::REQUEST_INVALID_T_E, HtpFlags::HOST_AMBIGUOUS),
    !bit(HtpFlags::REQUEST_INVALID_T_E, HtpFlags::HOST_MISSING),
    !bit(HtpFlags::REQUEST_INVALID_T_E, HtpFlags::AUTH_INVALID),
    rest(HtpFlags::REQUEST_INVALID_T_E, ours()) == 0,
    !bit(HtpFlags::REQUEST_INVALID, HtpFlags::REQUEST_INVALID_T_E),
    bit(HtpFlags::REQUEST_INVALID, HtpFlags::REQUEST_INVALID),
    !bit(HtpFlags::REQUEST_INVALID, HtpFlags::REQUEST_SMUGGLING),
    !bit(HtpFlags::REQUEST_INVALID, HtpFlags::REQUEST_INVALID_C_L),
    !bit(HtpFlags::REQUEST_INVALID, HtpFlags::HOSTH_INVALID),
    !bit(HtpFlags::REQUEST_INVALID, HtpFlags::HOST_AMBIGUOUS),
    !bit(HtpFlags::REQUEST_INVALID, HtpFlags::HOST_MISSING),
    !bit(HtpFlags::REQUEST_INVALID, HtpFlags::AUTH_INVALID),
    rest(HtpFlags::REQUEST_INVALID, ours()) == 0,
    !bit(HtpFlags::REQUEST_SMUGGLING, HtpFlags::REQUEST_INVALID_T_E),
    !bit(HtpFlags::REQUEST_SMUGGLING, HtpFlags::REQUEST_INVALID),
    bit(HtpFlags::REQUEST_SMUGGLING, HtpFlags::REQUEST_SMUGGLING),
    !bit(HtpFlags::REQUEST_SMUGGLING, HtpFlags::REQUEST_INVALID_C_L),
    !bit(HtpFlags::REQUEST_SMUGGLING, HtpFlags::HOSTH_INVALID),
    !bit(HtpFlags::REQUEST_SMUGGLING, HtpFlags::HOST_AMBIGUOUS),
    !bit(HtpFlags::REQUEST_SMUGGLING, HtpFlags::HOST_MISSING),
    !bit(HtpFlags::REQUEST_SMUGGLING, HtpFlags::AUTH_INVALID),
    rest(HtpFlags::REQUEST_SMUGGLING, ours()) == 0,
    !bit(HtpFlags::REQUEST_INVALID_C_L, HtpFlags::REQUEST_INVALID_T_E),
    !bit(HtpFlags::REQUEST_INVALID_C_L, HtpFlags::REQUEST_INVALID),
    !bit(HtpFlags::REQUEST_INVALID_C_L, HtpFlags::REQUEST_SMUGGLING),
    bit(HtpFlags::REQUEST_INVALID_C_L, HtpFlags::REQUEST_INVALID_C_L),
    !bit(HtpFlags::REQUEST_INVALID_C_L, HtpFlags::HOSTH_INVALID),
    !bit(HtpFlags::REQUEST_INVALID_C_L, HtpFlags::HOST_AMBIGUOUS),
    !bit(HtpFlags::REQUEST_INVALID_C_L, HtpFlags::HOST_MISSING),
    !bit(HtpFlags::REQUEST_INVALID_C_L, HtpFlags::AUTH_INVALID),
    rest(HtpFlags::REQUEST_INVALID_C_L, ours()) == 0,
    !bit(HtpFlags::HOSTH_INVALID, HtpFlags::REQUEST_INVALID_T_E),
    !bit(HtpFlags::HOSTH_INVALID, HtpFlags::REQUEST_INVALID),
    !bit(HtpFlags::HOSTH_INVALID, HtpFlags::REQUEST_SMUGGLING),
    !bit(HtpFlags::HOSTH_INVALID, HtpFlags::REQUEST_INVALID_C_L),
    bit(HtpFlags::HOSTH_INVALID, HtpFlags::HOSTH_INVALID),
    !bit(HtpFlags::HOSTH_INVALID, HtpFlags::HOST_AMBIGUOUS),
    !bit(HtpFlags::HOSTH_INVALID, HtpFlags::HOST_MISSING),
    !bit(HtpFlags::HOSTH_INVALID, HtpFlags::AUTH_INVALID),
    rest(HtpFlags::HOSTH_INVALID, ours()) == 0,
    !bit(HtpFlags::HOST_AMBIGUOUS, HtpFlags::REQUEST_INVALID_T_E),
    !bit(HtpFlags::HOST_AMBIGUOUS, HtpFlags::REQUEST_INVALID),
    !bit(HtpFlags::HOST_AMBIGUOUS, HtpFlags::REQUEST_SMUGGLING),
    !bit(HtpFlags::HOST_AMBIGUOUS, HtpFlags::REQUEST_INVALID_C_L),
    !bit(HtpFlags::HOST_AMBIGUOUS, HtpFlags::HOSTH_INVALID),
    bit(HtpFlags::HOST_AMBIGUOUS, HtpFlags::HOST_AMBIGUOUS),
    !bit(HtpFlags::HOST_AMBIGUOUS, HtpFlags::HOST_MISSING),
    !bit(HtpFlags::HOST_AMBIGUOUS, HtpFlags::AUTH_INVALID),
    rest(HtpFlags::HOST_AMBIGUOUS, ours()) == 0,
    !bit(HtpFlags::HOST_MISSING, HtpFlags::REQUEST_INVALID_T_E),
    !bit(HtpFlags::HOST_MISSING, HtpFlags::REQUEST_INVALID),
    !bit(HtpFlags::HOST_MISSING, HtpFlags::REQUEST_SMUGGLING),
    !bit(HtpFlags::HOST_MISSING, HtpFlags::REQUEST_INVALID_C_L),
    !bit(HtpFlags::HOST_MISSING, HtpFlags::HOSTH_INVALID),
    !bit(HtpFlags::HOST_MISSING, HtpFlags::HOST_AMBIGUOUS),
    bit(HtpFlags::HOST_MISSING, HtpFlags::HOST_MISSING),
    !bit(HtpFlags::HOST_MISSING, HtpFlags::AUTH_INVALID),
    rest(HtpFlags::HOST_MISSING, ours()) == 0,
    !bit(HtpFlags::AUTH_INVALID, HtpFlags::REQUEST_INVALID_T_E),
    !bit(HtpFlags::AUTH_INVALID, HtpFlags::REQUEST_INVALID),
    !bit(HtpFlags::AUTH_INVALID, HtpFlags::REQUEST_SMUGGLING),
    !bit(HtpFlags::AUTH_INVALID, HtpFlags::REQUEST_INVALID_C_L),
    !bit(HtpFlags::AUTH_INVALID, HtpFlags::HOSTH_INVALID),
    !bit(HtpFlags::AUTH_INVALID, HtpFlags::HOST_AMBIGUOUS),
    !bit(HtpFlags::AUTH_INVALID, HtpFlags::HOST_MISSING),
    bit(HtpFlags::AUTH_INVALID, HtpFlags::AUTH_INVALID),
    rest(HtpFlags::AUTH_INVALID, ours()) == 0,
{
    reveal(bit); reveal(rest);
    assert(HtpFlags::REQUEST_INVALID_T_E & HtpFlags::REQUEST_INVALID_T_E != 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_T_E & HtpFlags::REQUEST_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_T_E & HtpFlags::REQUEST_SMUGGLING == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_T_E & HtpFlags::REQUEST_INVALID_C_L == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_T_E & HtpFlags::HOSTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_T_E & HtpFlags::HOST_AMBIGUOUS == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_T_E & HtpFlags::HOST_MISSING == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_T_E & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_T_E & !ours() == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID & HtpFlags::REQUEST_INVALID_T_E == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID & HtpFlags::REQUEST_INVALID != 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID & HtpFlags::REQUEST_SMUGGLING == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID & HtpFlags::REQUEST_INVALID_C_L == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID & HtpFlags::HOSTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID & HtpFlags::HOST_AMBIGUOUS == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID & HtpFlags::HOST_MISSING == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID & !ours() == 0) by(compute);
    assert(HtpFlags::REQUEST_SMUGGLING & HtpFlags::REQUEST_INVALID_T_E == 0) by(compute);
    assert(HtpFlags::REQUEST_SMUGGLING & HtpFlags::REQUEST_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_SMUGGLING & HtpFlags::REQUEST_SMUGGLING != 0) by(compute);
    assert(HtpFlags::REQUEST_SMUGGLING & HtpFlags::REQUEST_INVALID_C_L == 0) by(compute);
    assert(HtpFlags::REQUEST_SMUGGLING & HtpFlags::HOSTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_SMUGGLING & HtpFlags::HOST_AMBIGUOUS == 0) by(compute);
    assert(HtpFlags::REQUEST_SMUGGLING & HtpFlags::HOST_MISSING == 0) by(compute);
    assert(HtpFlags::REQUEST_SMUGGLING & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_SMUGGLING & !ours() == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_C_L & HtpFlags::REQUEST_INVALID_T_E == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_C_L & HtpFlags::REQUEST_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_C_L & HtpFlags::REQUEST_SMUGGLING == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_C_L & HtpFlags::REQUEST_INVALID_C_L != 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_C_L & HtpFlags::HOSTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_C_L & HtpFlags::HOST_AMBIGUOUS == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_C_L & HtpFlags::HOST_MISSING == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_C_L & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::REQUEST_INVALID_C_L & !ours() == 0) by(compute);
    assert(HtpFlags::HOSTH_INVALID & HtpFlags::REQUEST_INVALID_T_E == 0) by(compute);
    assert(HtpFlags::HOSTH_INVALID & HtpFlags::REQUEST_INVALID == 0) by(compute);
    assert(HtpFlags::HOSTH_INVALID & HtpFlags::REQUEST_SMUGGLING == 0) by(compute);
    assert(HtpFlags::HOSTH_INVALID & HtpFlags::REQUEST_INVALID_C_L == 0) by(compute);
    assert(HtpFlags::HOSTH_INVALID & HtpFlags::HOSTH_INVALID != 0) by(compute);
    assert(HtpFlags::HOSTH_INVALID & HtpFlags::HOST_AMBIGUOUS == 0) by(compute);
    assert(HtpFlags::HOSTH_INVALID & HtpFlags::HOST_MISSING == 0) by(compute);
    assert(HtpFlags::HOSTH_INVALID & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::HOSTH_INVALID & !ours() == 0) by(compute);
    assert(HtpFlags::HOST_AMBIGUOUS & HtpFlags::REQUEST_INVALID_T_E == 0) by(compute);
    assert(HtpFlags::HOST_AMBIGUOUS & HtpFlags::REQUEST_INVALID == 0) by(compute);
    assert(HtpFlags::HOST_AMBIGUOUS & HtpFlags::REQUEST_SMUGGLING == 0) by(compute);
    assert(HtpFlags::HOST_AMBIGUOUS & HtpFlags::REQUEST_INVALID_C_L == 0) by(compute);
    assert(HtpFlags::HOST_AMBIGUOUS & HtpFlags::HOSTH_INVALID == 0) by(compute);
    assert(HtpFlags::HOST_AMBIGUOUS & HtpFlags::HOST_AMBIGUOUS != 0) by(compute);
    assert(HtpFlags::HOST_AMBIGUOUS & HtpFlags::HOST_MISSING == 0) by(compute);
    assert(HtpFlags::HOST_AMBIGUOUS & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::HOST_AMBIGUOUS & !ours() == 0) by(compute);
    assert(HtpFlags::HOST_MISSING & HtpFlags::REQUEST_INVALID_T_E == 0) by(compute);
    assert(HtpFlags::HOST_MISSING & HtpFlags::REQUEST_INVALID == 0) by(compute);
    assert(HtpFlags::HOST_MISSING & HtpFlags::REQUEST_SMUGGLING == 0) by(compute);
    assert(HtpFlags::HOST_MISSING & HtpFlags::REQUEST_INVALID_C_L == 0) by(compute);
    assert(HtpFlags::HOST_MISSING & HtpFlags::HOSTH_INVALID == 0) by(compute);
    assert(HtpFlags::HOST_MISSING & HtpFlags::HOST_AMBIGUOUS == 0) by(compute);
    assert(HtpFlags::HOST_MISSING & HtpFlags::HOST_MISSING != 0) by(compute);
    assert(HtpFlags::HOST_MISSING & HtpFlags::AUTH_INVALID == 0) by(compute);
    assert(HtpFlags::HOST_MISSING & !ours() == 0) by(compute);
    assert(HtpFlags::AUTH_INVALID & HtpFlags::REQUEST_INVALID_T_E == 0) by(compute);
    assert(HtpFlags::AUTH_INVALID & HtpFlags::REQUEST_INVALID == 0) by(compute);
    assert(HtpFlags::AUTH_INVALID & HtpFlags::REQUEST_SMUGGLING == 0) by(compute);
    assert(HtpFlags::AUTH_INVALID & HtpFlags::REQUEST_INVALID_C_L == 0) by(compute);
    assert(HtpFlags::AUTH_INVALID & HtpFlags::HOSTH_INVALID == 0) by(compute);
    assert(HtpFlags::AUTH_INVALID & HtpFlags::HOST_AMBIGUOUS == 0) by(compute);
    assert(HtpFlags::AUTH_INVALID & HtpFlags::HOST_MISSING == 0) by(compute);
    assert(HtpFlags::AUTH_INVALID & HtpFlags::AUTH_INVALID != 0) by(compute);
    assert(HtpFlags::AUTH_INVALID & !ours() == 0) by(compute);
}

/*@ fn transaction.rs::Transaction::get_parsed_uri_hostname
ret: r
closure 0 args: parsed_uri: &Uri
closure 0: -> (x: Option<&Bstr>) ensures match x { Some(b) => parsed_uri.hostname == Some(*b), None => parsed_uri.hostname is None }
spec:
    ensures match r { Some(b) => self.parsed_uri is Some && self.parsed_uri->0.hostname == Some(*b), None => self.parsed_uri is None || self.parsed_uri->0.hostname is None },
@*/
/*@ fn transaction.rs::Transaction::get_parsed_uri_port_number
ret: r
closure 0 args: parsed_uri: &Uri
closure 0: -> (x: Option<&u16>) ensures match x { Some(b) => parsed_uri.port_number == Some(*b), None => parsed_uri.port_number is None }
spec:
    ensures match r { Some(b) => self.parsed_uri is Some && self.parsed_uri->0.port_number == Some(*b), None => self.parsed_uri is None || self.parsed_uri->0.port_number is None },
@*/
pub open spec fn oview(b: Option<Bstr>) -> Option<Seq<u8>> { match b { Some(x) => Some(x@), None => None } }
// The same function is brought in once per clause of its contract: the solver is much faster on the parts than on the whole.
