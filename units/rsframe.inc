/*@ item transaction.rs::HtpResponseProgress
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item transaction.rs::HtpResponseNumber
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item request.rs::HtpMethod
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item connection_parser.rs::State
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item connection_parser.rs::HtpStreamState
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
#[verifier::external_body] pub struct ParserData { _0: u8 }
/*@ item transaction.rs::Transaction
fields: flags, request_method_number, request_headers, response_headers, response_status_number, response_protocol_number, response_progress, response_transfer_coding, response_content_length, response_content_type, seen_100continue, is_http_2_upgrade
@*/
/*@ item connection_parser.rs::ConnectionParser
fields: request_state, response_state, request_status, response_status, response_data_other_at_tx_end, request_content_length, request_body_data_left, response_content_length, response_body_data_left, transactions
subst: transactions : Transactions =>> transactions: Transactions, pub told: Ghost<nat>
@*/
// the held transactions, seen from the response side (unit txs)
#[verifier::external_body] pub struct Transactions { _0: u8 }
impl Transactions { pub uninterp spec fn rs(&self) -> Option<Transaction>; }
impl ConnectionParser {
    pub open spec fn rst(&self) -> Option<Transaction> { self.transactions.rs() }
    #[verifier::external_body] pub fn response_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rst() == Some(*t) && final(self).rst() == Some(*final(t)), None => old(self).rst() is None && final(self).rst() is None } { unimplemented!() }
    /// the end of the headers is told to the application (once per call), and nothing that is decided here changes
    #[verifier::external_body] pub fn state_response_headers(&mut self, input: &mut ParserData) -> (r: Result<()>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, told: final(self).told, ..*old(self) }), final(self).rst() == old(self).rst(), final(self).told@ == old(self).told@ + 1 { unimplemented!() }
}
impl Headers {
    pub uninterp spec fn first_nocase(&self, name: Seq<u8>) -> Option<Header>;
    pub open spec fn none(&self) -> bool { forall|n: Seq<u8>| #[trigger] self.first(n) is None }
    #[verifier::external_body] pub fn get_nocase(&self, key: &[u8]) -> (r: Option<&Header>)
        ensures match r { Some(h) => self.first_nocase(key@) == Some(*h), None => self.first_nocase(key@) is None } { unimplemented!() }
    // get_nocase_nozero(..).cloned()
    #[verifier::external_body] pub fn vx_get_cloned(&self, key: &[u8]) -> (r: Option<Header>) ensures r == self.first(key@) { unimplemented!() }
    // elements.clear()
    #[verifier::external_body] pub fn vx_clear(&mut self) ensures final(self).none() { unimplemented!() }
}
#[verifier::external_body] pub fn vx_gt0(a: Option<u64>) -> (r: bool) ensures r == (a is Some && a->0 > 0) { unimplemented!() }
#[verifier::external_body] pub fn vx_eq(a: Option<u64>, b: Option<u64>) -> (r: bool) ensures r == (a == b) { unimplemented!() }
pub uninterp spec fn holds_nocase(v: Seq<u8>, n: Seq<u8>) -> bool;
impl Bstr {
    #[verifier::external_body] pub fn index_of_nocase(&self, n: &[u8]) -> (r: Option<usize>) ensures r is Some == holds_nocase(self@, n@) { unimplemented!() }
    #[verifier::external_body] pub fn eq_slice(&self, n: &[u8]) -> (r: bool) ensures r == (self@ == n@) { unimplemented!() }
}
pub open spec fn n_cl() -> Seq<u8> { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104] }
pub open spec fn n_te() -> Seq<u8> { seq![116u8, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103] }
pub open spec fn n_ct() -> Seq<u8> { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101] }
pub open spec fn n_up() -> Seq<u8> { seq![117u8, 112, 103, 114, 97, 100, 101] }
pub open spec fn n_chunked() -> Seq<u8> { seq![99u8, 104, 117, 110, 107, 101, 100] }
pub open spec fn n_h2c() -> Seq<u8> { seq![104u8, 50, 99] }
pub open spec fn n_expect() -> Seq<u8> { seq![101u8, 120, 112, 101, 99, 116] }
pub open spec fn n_100() -> Seq<u8> { seq![49u8, 48, 48, 45, 99, 111, 110, 116, 105, 110, 117, 101] }
pub open spec fn n_mbr() -> Seq<u8> { seq![109u8, 117, 108, 116, 105, 112, 97, 114, 116, 47, 98, 121, 116, 101, 114, 97, 110, 103, 101, 115] }
proof fn lemma_names() ensures
    n_cl() =~= [99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 108u8, 101u8, 110u8, 103u8, 116u8, 104u8]@,
    n_te() =~= [116u8, 114u8, 97u8, 110u8, 115u8, 102u8, 101u8, 114u8, 45u8, 101u8, 110u8, 99u8, 111u8, 100u8, 105u8, 110u8, 103u8]@,
    n_ct() =~= [99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 116u8, 121u8, 112u8, 101u8]@,
    n_up() =~= [117u8, 112u8, 103u8, 114u8, 97u8, 100u8, 101u8]@,
    n_chunked() =~= [99u8, 104u8, 117u8, 110u8, 107u8, 101u8, 100u8]@,
    n_h2c() =~= [104u8, 50u8, 99u8]@,
    n_expect() =~= [101u8, 120u8, 112u8, 101u8, 99u8, 116u8]@,
    n_100() =~= [49u8, 48u8, 48u8, 45u8, 99u8, 111u8, 110u8, 116u8, 105u8, 110u8, 117u8, 101u8]@,
    n_mbr() =~= [109u8, 117u8, 108u8, 116u8, 105u8, 112u8, 97u8, 114u8, 116u8, 47u8, 98u8, 121u8, 116u8, 101u8, 114u8, 97u8, 110u8, 103u8, 101u8, 115u8]@,
{}
/*@ fn transaction.rs::HtpResponseNumber::in_range
ret: r
spec: ensures r == (self is VALID && min <= self->VALID_0 <= max)
@*/
/*@ fn transaction.rs::HtpResponseNumber::eq_num
ret: r
spec: ensures r == (self is VALID && self->VALID_0 == num)
@*/
// ---- the rule -------------------------------------------------------------------------------
pub open spec fn code(t: Transaction) -> int { if t.response_status_number is VALID { t.response_status_number->VALID_0 as int } else { 0 } }
pub open spec fn te(t: Transaction) -> Option<Header> { t.response_headers.first(n_te()) }
pub open spec fn cl(t: Transaction) -> Option<Header> { t.response_headers.first(n_cl()) }
pub open spec fn len(t: Transaction) -> Option<u64> { if cl(t) is Some { content_length(cl(t)->0.value@) } else { None } }
pub open spec fn plain(t: Transaction) -> bool { te(t) is None && cl(t) is None }
pub open spec fn is_connect(t: Transaction) -> bool { t.request_method_number == HtpMethod::CONNECT }
/// a successful CONNECT: what follows is the tunnel's
pub open spec fn connected(t: Transaction) -> bool { is_connect(t) && 200 <= code(t) <= 299 }
/// switching protocols: what follows is no longer HTTP
pub open spec fn switching(t: Transaction) -> bool { !connected(t) && code(t) == 101 && plain(t) }
/// an interim answer: the final one follows
pub open spec fn interim(t: Transaction) -> bool { !connected(t) && code(t) == 100 && te(t) is None && !(len(t) is Some && len(t)->0 > 0) }
pub open spec fn no_body(t: Transaction) -> bool { t.request_method_number == HtpMethod::HEAD || ((100 <= code(t) <= 199 || code(t) == 204 || code(t) == 304) && plain(t)) }
pub enum Body { Tunnel, Switch, Interim, Nothing, Chunked, Length(u64), BadLength, Ranges, Close }
pub open spec fn byteranges(t: Transaction) -> bool { t.response_headers.first(n_ct()) is Some && holds_nocase(lowered(media_type(t.response_headers.first(n_ct())->0.value@)), n_mbr()) }
/// how the response is delimited
pub open spec fn body(t: Transaction) -> Body {
    if connected(t) { Body::Tunnel } else if switching(t) { Body::Switch } else if interim(t) { Body::Interim } else if no_body(t) { Body::Nothing }
    else if te(t) is Some && holds_nocase_nozero(te(t)->0.value@, n_chunked()) { Body::Chunked }
    else if cl(t) is Some { if len(t) is Some { Body::Length(len(t)->0) } else { Body::BadLength } }
    else if byteranges(t) { Body::Ranges } else { Body::Close }
}
pub open spec fn next(t: Transaction, s: State) -> State {
    match body(t) { Body::Tunnel => State::FINALIZE, Body::Switch => State::FINALIZE, Body::Interim => State::LINE, Body::Nothing => State::FINALIZE, Body::Chunked => State::BODY_CHUNKED_LENGTH,
        Body::Length(n) => if n > 0 { State::BODY_IDENTITY_CL_KNOWN } else { State::FINALIZE }, Body::BadLength => s, Body::Ranges => s, Body::Close => State::BODY_IDENTITY_STREAM_CLOSE }
}
pub open spec fn coding(t: Transaction) -> HtpTransferCoding {
    match body(t) { Body::Nothing => HtpTransferCoding::NO_BODY, Body::Chunked => HtpTransferCoding::CHUNKED, Body::Length(n) => HtpTransferCoding::IDENTITY, Body::BadLength => HtpTransferCoding::IDENTITY,
        Body::Close => HtpTransferCoding::IDENTITY, _ => t.response_transfer_coding }
}
pub open spec fn progress(t: Transaction) -> HtpResponseProgress {
    match body(t) { Body::Interim => HtpResponseProgress::LINE, Body::Chunked => HtpResponseProgress::BODY, Body::Close => HtpResponseProgress::BODY,
        Body::Length(n) => if n > 0 { HtpResponseProgress::BODY } else { t.response_progress }, _ => t.response_progress }
}
pub open spec fn smuggling(t: Transaction) -> bool {
    match body(t) { Body::Chunked => cl(t) is Some, Body::Length(_) => cl(t)->0.flags & HtpFlags::FIELD_REPEATED != 0, Body::BadLength => cl(t)->0.flags & HtpFlags::FIELD_REPEATED != 0, _ => false }
}
/// a refusal of a body the client announced but has not sent yet
pub open spec fn body_refused(o: &ConnectionParser, t: Transaction) -> bool {
    400 <= code(t) <= 499 && o.request_content_length is Some && o.request_content_length->0 > 0 && o.request_body_data_left == o.request_content_length
        && t.request_headers.first_nocase(n_expect()) is Some && t.request_headers.first_nocase(n_expect())->0.value@ == n_100()
}
pub open spec fn request_goes(o: &ConnectionParser, t: Transaction) -> HtpStreamState {
    if o.request_status == HtpStreamState::ERROR || o.request_status == HtpStreamState::STOP || connected(t) { o.request_status }
    else if switching(t) { HtpStreamState::TUNNEL } else if is_connect(t) { HtpStreamState::DATA } else { o.request_status }
}
