// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include bstr.inc
//@include flags.inc
//@include pdata.inc
/*@ item transaction.rs::HtpRequestProgress
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item transaction.rs::HtpResponseProgress
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item connection_parser.rs::State
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item connection_parser.rs::HtpStreamState
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
/*@ item connection.rs::Connection
fields: request_data_counter, response_data_counter
@*/
/*@ item transaction.rs::Transaction
fields: flags, request_progress, response_progress
@*/
/*@ item config.rs::Config
fields: flush_incomplete
@*/
#[verifier::external_body] pub struct DataHook { _0: u8 }
#[verifier::external_body] pub struct Transactions { _0: u8 }
impl Transactions { pub uninterp spec fn rq(&self) -> Option<Transaction>; pub uninterp spec fn rs(&self) -> Option<Transaction>; pub uninterp spec fn rqi(&self) -> usize; pub uninterp spec fn rsi(&self) -> usize; }
/// ghost record of one direction: what the raw data callbacks got, and whether anything else may have been told to the application
pub ghost struct Told { pub raw: Seq<u8>, pub other: nat }
/*@ item connection_parser.rs::ConnectionParser
fields: cfg, conn, request_state, response_state, request_state_previous, response_state_previous, request_status, response_status, request_bytes_consumed, response_bytes_consumed, request_data_receiver_hook, response_data_receiver_hook, request_chunk_count, transactions
subst: transactions : Transactions =>> transactions: Transactions, pub rq: Ghost<Told>, pub rs: Ghost<Told>
@*/
pub open spec fn wadd(a: u64, n: int) -> u64 { if a + n > u64::MAX { (a + n - u64::MAX - 1) as u64 } else { (a + n) as u64 } }
/// failed, or stopped: nothing is to be processed any more
pub open spec fn over(s: HtpStreamState) -> bool { s == HtpStreamState::ERROR || s == HtpStreamState::STOP }
/*@ fn connection.rs::Connection::track_inbound_data
spec:
    ensures *final(self) == (Connection { request_data_counter: wadd(old(self).request_data_counter, len as int), ..*old(self) }),
@*/
/*@ fn connection.rs::Connection::track_outbound_data
spec:
    ensures *final(self) == (Connection { response_data_counter: wadd(old(self).response_data_counter, len as int), ..*old(self) }),
@*/
impl ConnectionParser {
    pub open spec fn rqt(&self) -> Option<Transaction> { self.transactions.rq() }
    pub open spec fn rst(&self) -> Option<Transaction> { self.transactions.rs() }
    #[verifier::external_body] pub fn request_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rqt() == Some(*t) && final(self).rqt() == Some(*final(t)), None => old(self).rqt() is None && final(self).rqt() is None } { unimplemented!() }
    #[verifier::external_body] pub fn response_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rst() == Some(*t) && final(self).rst() == Some(*final(t)), None => old(self).rst() is None && final(self).rst() is None } { unimplemented!() }
    #[verifier::external_body] pub fn request(&mut self) -> (r: Option<&Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rqt() == Some(*t) && final(self).rqt() == Some(*t), None => old(self).rqt() is None && final(self).rqt() is None } { unimplemented!() }
    #[verifier::external_body] pub fn request_index(&self) -> (r: usize) { unimplemented!() }
    // ---- the state functions, as far as this property needs them: they move the cursor within the data (units cursor, bodies, bufs), do not
    // touch the byte counters (every use of them is looked for in src), and leave a direction that is over alone (request_connect_probe_data
    // below, response_body_determine in unit rsframe; every assignment of a status is looked for in src)
    #[verifier::external_body] pub fn handle_request_state(&mut self, data: &mut ParserData) -> (r: Result<()>)
        requires old(data).wf(), old(self).request_bytes_consumed == old(data).position, !over(old(self).request_status),
        ensures final(data).wf(), final(data).data == old(data).data, final(data).gap_len == old(data).gap_len, final(self).request_bytes_consumed == final(data).position, final(self).response_bytes_consumed == old(self).response_bytes_consumed,
            final(self).conn == old(self).conn, over(old(self).response_status) ==> final(self).response_status == old(self).response_status, !over(final(self).request_status), r is Ok && final(self).request_state == State::HEADERS ==> final(self).rqt() is Some { unimplemented!() }
    #[verifier::external_body] pub fn handle_response_state(&mut self, data: &mut ParserData) -> (r: Result<()>)
        requires old(data).wf(), old(self).response_bytes_consumed == old(data).position, !over(old(self).response_status),
        ensures final(data).wf(), final(data).data == old(data).data, final(data).gap_len == old(data).gap_len, final(self).response_bytes_consumed == final(data).position, final(self).request_bytes_consumed == old(self).request_bytes_consumed,
            final(self).conn == old(self).conn, over(old(self).request_status) ==> final(self).request_status == old(self).request_status, !over(final(self).response_status) { unimplemented!() }
    #[verifier::external_body] pub fn flush_incomplete_transactions(&mut self)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, rq: final(self).rq, rs: final(self).rs, ..*old(self) }) { unimplemented!() }
}
impl Connection { #[verifier::external_body] pub fn open(&mut self, a: Option<u32>, b: Option<u16>, c: Option<u32>, d: Option<u16>, t: Option<u64>) ensures *final(self) == *old(self) { unimplemented!() } }
impl Connection { #[verifier::external_body] pub fn close(&mut self, t: Option<u64>) ensures *final(self) == *old(self) { unimplemented!() } }
// ---- raw data callbacks: what they are given is recorded ----
#[verifier::external_body] pub fn vx_rq_raw(c: &mut ConnectionParser, d: &ParserData) -> (r: Result<()>)
    ensures *final(c) == (ConnectionParser { rq: Ghost(Told { raw: old(c).rq@.raw + d.rest(), ..old(c).rq@ }), ..*old(c) }) { unimplemented!() }
#[verifier::external_body] pub fn vx_rs_raw(c: &mut ConnectionParser, d: &ParserData) -> (r: Result<()>)
    ensures *final(c) == (ConnectionParser { rs: Ghost(Told { raw: old(c).rs@.raw + d.rest(), ..old(c).rs@ }), ..*old(c) }) { unimplemented!() }
#[verifier::external_body] pub fn vx_hook(t: &Transaction) -> (r: DataHook) { unimplemented!() }
impl<'a> ParserData<'a> {
    /// consumed, but not yet shown to a raw data callback
    pub open spec fn pending(&self) -> Seq<u8> { if self.data is Some && self.callback_position <= self.position { self.data->0@.subrange(self.callback_position as int, self.position as int) } else { seq![] } }
    pub open spec fn shown(&self, o: &ParserData<'a>) -> bool { *self == (ParserData { callback_position: if o.data is Some && o.callback_position <= o.position { o.position } else { o.callback_position }, ..*o }) }
}
/*@ fn request.rs::ConnectionParser::request_receiver_send_data
pre: ParserData :: from ( data . callback_data ( ) ) =>> ParserData::from_slice(data.callback_data())
pre: let mut tx_data = __ANY ; =>>
pre: if let Some ( hook ) = & self . request_data_receiver_hook { hook . run_all ( self , & mut tx_data ) ? ; } =>> if self.request_data_receiver_hook.is_some() { vx_rq_raw(self, &data)?; }
ret: r
spec:
    requires old(data).wf(),
    ensures final(data).shown(old(data)), final(self).rqt() == old(self).rqt(),
        *final(self) == (ConnectionParser { rq: final(self).rq, transactions: final(self).transactions, ..*old(self) }), final(self).rq@.other == old(self).rq@.other,
        // whoever receives raw data gets what was consumed since the last time, once
        old(self).rqt() is Some && old(self).request_data_receiver_hook is Some ==> final(self).rq@.raw =~= old(self).rq@.raw + old(data).pending(),
        old(self).rqt() is None || old(self).request_data_receiver_hook is None ==> final(self).rq == old(self).rq,
@*/
/*@ fn response.rs::ConnectionParser::response_receiver_send_data
pre: ParserData :: from ( data . callback_data ( ) ) =>> ParserData::from_slice(data.callback_data())
pre: let mut tx_data = __ANY ; =>>
pre: if let Some ( hook ) = & self . response_data_receiver_hook { hook . run_all ( self , & mut tx_data ) ? ; } =>> if self.response_data_receiver_hook.is_some() { vx_rs_raw(self, &data)?; }
ret: r
spec:
    requires old(data).wf(),
    ensures final(data).shown(old(data)), final(self).rst() == old(self).rst(),
        *final(self) == (ConnectionParser { rs: final(self).rs, transactions: final(self).transactions, ..*old(self) }), final(self).rs@.other == old(self).rs@.other,
        old(self).rst() is Some && old(self).response_data_receiver_hook is Some ==> final(self).rs@.raw =~= old(self).rs@.raw + old(data).pending(),
        old(self).rst() is None || old(self).response_data_receiver_hook is None ==> final(self).rs == old(self).rs,
@*/
/*@ fn request.rs::ConnectionParser::request_receiver_set
ret: r
spec:
    ensures r is Ok, *final(self) == (ConnectionParser { request_data_receiver_hook: data_receiver_hook, ..*old(self) }),
@*/
/*@ fn response.rs::ConnectionParser::response_receiver_set
ret: r
spec:
    ensures r is Ok, *final(self) == (ConnectionParser { response_data_receiver_hook: data_receiver_hook, ..*old(self) }),
@*/
/*@ fn request.rs::ConnectionParser::request_receiver_finalize_clear
ret: r
spec:
    requires old(input).wf(),
    ensures final(self).request_data_receiver_hook is None, final(self).rqt() == old(self).rqt(), final(self).rq@.other == old(self).rq@.other,
        *final(self) == (ConnectionParser { rq: final(self).rq, transactions: final(self).transactions, request_data_receiver_hook: None, ..*old(self) }),
        // the rest is shown, then nothing more
        old(self).request_data_receiver_hook is None ==> *final(self) == *old(self) && *final(input) == *old(input) && r is Ok,
        old(self).request_data_receiver_hook is Some ==> final(input).shown(old(input)),
        old(self).request_data_receiver_hook is Some && old(self).rqt() is Some ==> final(self).rq@.raw =~= old(self).rq@.raw + old(input).pending(),
@*/
/*@ fn response.rs::ConnectionParser::response_receiver_finalize_clear
ret: r
spec:
    requires old(input).wf(),
    ensures final(self).response_data_receiver_hook is None, final(self).rst() == old(self).rst(), final(self).rs@.other == old(self).rs@.other,
        *final(self) == (ConnectionParser { rs: final(self).rs, transactions: final(self).transactions, response_data_receiver_hook: None, ..*old(self) }),
        old(self).response_data_receiver_hook is None ==> *final(self) == *old(self) && *final(input) == *old(input) && r is Ok,
        old(self).response_data_receiver_hook is Some ==> final(input).shown(old(input)),
        old(self).response_data_receiver_hook is Some && old(self).rst() is Some ==> final(self).rs@.raw =~= old(self).rs@.raw + old(input).pending(),
@*/
/*@ fn request.rs::ConnectionParser::request_handle_state_change
pre: req . cfg . hook_request_header_data . clone ( ) =>> vx_hook(req)
pre: req . cfg . hook_request_trailer_data . clone ( ) =>> vx_hook(req)
subst: input . reset_callback_start ( ) ; =>> let vx_p = req.request_progress; input.reset_callback_start();
subst: match req . request_progress =>> match vx_p
ret: r
spec:
    requires old(input).wf(), old(self).request_state == State::HEADERS ==> old(self).rqt() is Some,
    ensures final(input).wf(), r is Ok, ({
        let enters = old(self).request_state == State::HEADERS && old(self).request_state_previous != State::HEADERS;
        let p = old(self).rqt()->0.request_progress;
        // raw data is shown from the beginning of the headers on, starting at what is consumed next
        &&& final(self).rqt() == old(self).rqt() && final(self).rq == old(self).rq
        &&& *final(self) == (ConnectionParser { transactions: final(self).transactions, request_state_previous: old(self).request_state, request_data_receiver_hook: final(self).request_data_receiver_hook, ..*old(self) })
        &&& *final(input) == (if enters { ParserData { callback_position: old(input).position, ..*old(input) } } else { *old(input) })
        &&& enters && (p == HtpRequestProgress::HEADERS || p == HtpRequestProgress::TRAILER) ==> final(self).request_data_receiver_hook is Some
        &&& !(enters && (p == HtpRequestProgress::HEADERS || p == HtpRequestProgress::TRAILER)) ==> final(self).request_data_receiver_hook == old(self).request_data_receiver_hook
    }),
@*/
/*@ fn response.rs::ConnectionParser::response_handle_state_change
pre: resp . cfg . hook_response_header_data . clone ( ) =>> vx_hook(resp)
pre: resp . cfg . hook_response_trailer_data . clone ( ) =>> vx_hook(resp)
subst: input . reset_callback_start ( ) ; =>> let vx_p = resp.response_progress; input.reset_callback_start();
subst: match resp . response_progress =>> match vx_p
ret: r
spec:
    requires old(input).wf(),
    ensures final(input).wf(), ({
        let enters = old(self).response_state == State::HEADERS && old(self).response_state_previous != State::HEADERS;
        let p = old(self).rst()->0.response_progress;
        &&& r is Err ==> r == Err::<(), _>(HtpStatus::ERROR) && enters && old(self).rst() is None && *final(input) == *old(input) && *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) })
        &&& enters && old(self).rst() is None ==> r is Err
        &&& final(self).rst() == old(self).rst() && final(self).rs == old(self).rs
        &&& r is Ok ==> *final(self) == (ConnectionParser { transactions: final(self).transactions, response_state_previous: old(self).response_state, response_data_receiver_hook: final(self).response_data_receiver_hook, ..*old(self) })
        &&& r is Ok ==> *final(input) == (if enters { ParserData { callback_position: old(input).position, ..*old(input) } } else { *old(input) })
        &&& r is Ok && enters && (p == HtpResponseProgress::HEADERS || p == HtpResponseProgress::TRAILER) ==> final(self).response_data_receiver_hook is Some
        &&& r is Ok && !(enters && (p == HtpResponseProgress::HEADERS || p == HtpResponseProgress::TRAILER)) ==> final(self).response_data_receiver_hook == old(self).response_data_receiver_hook
    }),
@*/
/*@ fn request.rs::ConnectionParser::request_data
attr: #[verifier::exec_allows_no_decreases_clause]
presig: mut chunk : ParserData =>> vx_chunk: ParserData
presig: Option < OffsetDateTime > =>> Option<u64>
pre: if let Some ( timestamp ) = timestamp { __ANY } =>>
ret: r
spec:
    requires vx_chunk.wf(), vx_chunk.position == 0,
    ensures ({
        let s0 = *old(self); let s1 = *final(self); let n = vx_chunk.left() as int;
        let refused = over(s0.request_status) || (n == 0 && s0.request_status != HtpStreamState::CLOSED);
        // a direction that is over stays so: the call does nothing at all, and tells it
        &&& over(s0.request_status) ==> r == s0.request_status
        &&& refused ==> s1 == (ConnectionParser { request_bytes_consumed: 0, ..s0 })
        &&& !over(s0.request_status) && refused ==> r == HtpStreamState::CLOSED
        // all other data is counted, and no more consumed than there is
        &&& !refused ==> s1.conn == (Connection { request_data_counter: wadd(s0.conn.request_data_counter, n), ..s0.conn })
        &&& s1.request_bytes_consumed <= n && s1.response_bytes_consumed == s0.response_bytes_consumed
        // what the call reports is what it will stay
        &&& over(r) ==> s1.request_status == r
        &&& over(s1.request_status) ==> r == s1.request_status
        &&& r == HtpStreamState::DATA_OTHER ==> s1.request_bytes_consumed < n
        &&& s0.request_status == HtpStreamState::TUNNEL && !refused ==> r == HtpStreamState::TUNNEL && s1.request_status == r && s1.rq == s0.rq && s1.rs == s0.rs && s1.request_bytes_consumed == 0
        // and the other direction, if over, is not brought back
        &&& over(s0.response_status) ==> s1.response_status == s0.response_status
    }),
start: let mut chunk = vx_chunk; let ghost n = vx_chunk.left();
loop 0:
    invariant
        chunk.wf(), chunk.data == vx_chunk.data, chunk.gap_len == vx_chunk.gap_len, n == vx_chunk.total(), n == vx_chunk.left(), vx_chunk.position == 0, vx_chunk.wf(), self.request_bytes_consumed == chunk.position, !over(self.request_status), self.response_bytes_consumed == old(self).response_bytes_consumed,
        !over(old(self).request_status), !(n == 0 && old(self).request_status != HtpStreamState::CLOSED),
        old(self).request_status != HtpStreamState::TUNNEL,
        self.conn == (Connection { request_data_counter: wadd(old(self).conn.request_data_counter, n as int), ..old(self).conn }),
        over(old(self).response_status) ==> self.response_status == old(self).response_status,
@*/
/*@ fn response.rs::ConnectionParser::response_data
attr: #[verifier::exec_allows_no_decreases_clause]
presig: mut chunk : ParserData =>> vx_chunk: ParserData
presig: Option < OffsetDateTime > =>> Option<u64>
pre: if let Some ( timestamp ) = timestamp { __ANY } =>>
ret: r
spec:
    requires vx_chunk.wf(), vx_chunk.position == 0,
    ensures ({
        let s0 = *old(self); let s1 = *final(self); let n = vx_chunk.left() as int;
        let refused = over(s0.response_status) || (n == 0 && s0.response_status != HtpStreamState::CLOSED);
        // a direction that is over stays so: the call does nothing at all, and tells it
        &&& over(s0.response_status) ==> r == s0.response_status
        &&& refused ==> s1 == (ConnectionParser { response_bytes_consumed: 0, ..s0 })
        &&& !over(s0.response_status) && refused ==> r == HtpStreamState::CLOSED
        // all other data is counted, and no more consumed than there is
        &&& !refused ==> s1.conn == (Connection { response_data_counter: wadd(s0.conn.response_data_counter, n), ..s0.conn })
        &&& s1.response_bytes_consumed <= n && s1.request_bytes_consumed == s0.request_bytes_consumed
        // what the call reports is what it will stay
        &&& over(r) ==> s1.response_status == r
        &&& over(s1.response_status) ==> r == s1.response_status
        &&& r == HtpStreamState::DATA_OTHER ==> s1.response_bytes_consumed < n
        &&& s0.response_status == HtpStreamState::TUNNEL && !refused ==> r == HtpStreamState::TUNNEL && s1.response_status == r && s1.rq == s0.rq && s1.rs == s0.rs && s1.response_bytes_consumed == 0
        // and the other direction, if over, is not brought back
        &&& over(s0.request_status) ==> s1.request_status == s0.request_status
    }),
start: let mut chunk = vx_chunk; let ghost n = vx_chunk.left();
loop 0:
    invariant
        chunk.wf(), chunk.data == vx_chunk.data, chunk.gap_len == vx_chunk.gap_len, n == vx_chunk.total(), n == vx_chunk.left(), vx_chunk.position == 0, vx_chunk.wf(), self.response_bytes_consumed == chunk.position, !over(self.response_status), self.request_bytes_consumed == old(self).request_bytes_consumed,
        !over(old(self).response_status), !(n == 0 && old(self).response_status != HtpStreamState::CLOSED),
        old(self).response_status != HtpStreamState::TUNNEL,
        self.conn == (Connection { response_data_counter: wadd(old(self).conn.response_data_counter, n as int), ..old(self).conn }),
        over(old(self).request_status) ==> self.request_status == old(self).request_status,
@*/
/*@ fn connection_parser.rs::ConnectionParser::request_close
presig: Option < OffsetDateTime > =>> Option<u64>
pre: ParserData :: default ( ) =>> ParserData::vx_none()
spec:
    ensures
        old(self).request_status == HtpStreamState::ERROR ==> final(self).request_status == HtpStreamState::ERROR && *final(self) == (ConnectionParser { request_bytes_consumed: 0, ..*old(self) }),
        final(self).conn == old(self).conn, over(old(self).response_status) ==> final(self).response_status == old(self).response_status,
@*/
/*@ fn connection_parser.rs::ConnectionParser::close
presig: Option < OffsetDateTime > =>> Option<u64>
pre: ParserData :: default ( ) =>> ParserData::vx_none()
spec:
    ensures
        old(self).request_status == HtpStreamState::ERROR ==> final(self).request_status == HtpStreamState::ERROR,
        old(self).response_status == HtpStreamState::ERROR ==> final(self).response_status == HtpStreamState::ERROR,
        final(self).conn == old(self).conn,
        !old(self).cfg.flush_incomplete && old(self).request_status == HtpStreamState::ERROR && old(self).response_status == HtpStreamState::ERROR ==> final(self).rq == old(self).rq && final(self).rs == old(self).rs,
@*/
impl<'a> ParserData<'a> { #[verifier::external_body] pub fn vx_none() -> (r: ParserData<'a>) ensures r == fresh_data(None, None) { unimplemented!() } }
/*@ fn request.rs::ConnectionParser::request_connect_probe_data
pre: if let Ok ( ( _ , data ) ) = take_till_lf_null ( input . as_slice ( ) ) { data } =>> if vx_has_line(input.as_slice()) { }
pre: let data = if =>> let data: () = if
pre: if ! self . request_buf . is_empty ( ) { __ANY } =>>
pre: let mut buffered = self . request_buf . clone ( ) ; =>>
pre: buffered . add ( data ) ; =>>
pre: tuple ( ( take_is_space , take_not_is_space ) ) ( __ANY ) =>> vx_word()
pre: HtpMethod :: new ( method ) == HtpMethod :: UNKNOWN =>> vx_unknown(method)
ret: r
spec:
    requires old(input).wf(), !over(old(self).request_status),
    ensures over(old(self).response_status) ==> final(self).response_status == old(self).response_status, !over(final(self).request_status),
@*/
/*@ fn request.rs::ConnectionParser::request_connect_check
pre: req . unwrap ( ) . request_method_number == HtpMethod :: CONNECT =>> vx_connect(req.unwrap())
ret: r
spec:
    ensures final(self).response_status == old(self).response_status, final(self).request_status == old(self).request_status || final(self).request_status == HtpStreamState::DATA_OTHER,
        !over(old(self).request_status) ==> !over(final(self).request_status),
        final(self).conn == old(self).conn, final(self).request_bytes_consumed == old(self).request_bytes_consumed, final(self).response_bytes_consumed == old(self).response_bytes_consumed,
@*/
#[verifier::external_body] pub fn vx_connect(t: &Transaction) -> bool { unimplemented!() }
/*@ fn connection_parser.rs::ConnectionParser::open
presig: Option < IpAddr > =>> Option<u32>
presig: Option < OffsetDateTime > =>> Option<u64>
spec:
    ensures final(self).conn == old(self).conn,
        over(old(self).request_status) ==> final(self).request_status == old(self).request_status,
        over(old(self).response_status) ==> final(self).response_status == old(self).response_status,
        old(self).request_status != HtpStreamState::NEW || old(self).response_status != HtpStreamState::NEW ==> *final(self) == *old(self),
@*/
#[verifier::external_body] pub fn vx_has_line(s: &[u8]) -> bool { unimplemented!() }
#[verifier::external_body] pub fn vx_word() -> (r: core::result::Result<(u8, (u8, &'static [u8])), ()>) { unimplemented!() }
#[verifier::external_body] pub fn vx_unknown(s: &[u8]) -> (r: bool) { unimplemented!() }
impl ConnectionParser {
    #[verifier::external_body] pub fn handle_request_absent_lf(&mut self, input: &mut ParserData) -> (r: Result<()>) ensures final(self).response_status == old(self).response_status, final(self).request_status == old(self).request_status { unimplemented!() }
    #[verifier::external_body] pub fn state_request_complete(&mut self, input: &mut ParserData) -> (r: Result<()>) ensures final(self).response_status == old(self).response_status, final(self).request_status == old(self).request_status { unimplemented!() }
}
fn main() {}
}
