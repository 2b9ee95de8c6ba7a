// ---- the connection parser as the state functions see it ----
/*@ item transaction.rs::HtpRequestProgress
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item transaction.rs::HtpResponseProgress
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item transaction.rs::HtpTransferCoding
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item decompressors.rs::HtpContentEncoding
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item connection_parser.rs::State
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item connection_parser.rs::HtpStreamState
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
#[verifier::external_body] pub struct Decompressor { _0: u8 }
#[verifier::external_body] pub struct Options { _0: u8 }
/*@ item transaction.rs::Transaction
fields: index, request_progress, response_progress, request_transfer_coding, response_transfer_coding, request_content_encoding_processing, response_content_encoding_processing, request_content_length, response_content_length, request_message_len, request_entity_len, response_message_len, response_entity_len, request_decompressor, response_decompressor, is_protocol_0_9
@*/
/*@ item config.rs::Config
fields: field_limit, compression_options
@*/
/// what the application has seen of a body: each byte handed over, None for each byte of a gap
pub type Seen = Seq<Option<u8>>;
/// ghost record of one direction: what the body data callbacks got (those of the transaction, then those of the
/// configuration), how often they were told the end, what the decompressor got, what the raw data callback got, the lines
/// handed to the line parser
pub ghost struct Told { pub tx: Seen, pub cfg: Seen, pub ends: nat, pub coded: Seq<u8>, pub raw: Seq<u8>, pub lines: Seq<Seq<u8>> }
/*@ item connection_parser.rs::ConnectionParser
fields: cfg, request_state, response_state, request_state_previous, response_state_previous, request_status, response_status, request_bytes_consumed, response_bytes_consumed, request_buf, response_buf, request_header, response_header, response_content_length, response_body_data_left, request_content_length, request_body_data_left, request_chunked_length, response_chunked_length, request_chunk_count, request_chunk_request_index, transactions
subst: transactions : Transactions =>> transactions: Transactions, pub rq: Ghost<Told>, pub rs: Ghost<Told>, pub refused: Ghost<bool>
@*/
// The held transactions: the contracts of unit txs, seen from one direction. rq()/rs() is the transaction the request/response
// side is working on (a fresh one if there is none and room for it), None when the maximum is reached.
#[verifier::external_body] pub struct Transactions { _0: u8 }
impl Transactions { pub uninterp spec fn rq(&self) -> Option<Transaction>; pub uninterp spec fn rs(&self) -> Option<Transaction>; }
impl ConnectionParser {
    pub open spec fn rqt(&self) -> Option<Transaction> { self.transactions.rq() }
    pub open spec fn rst(&self) -> Option<Transaction> { self.transactions.rs() }
    #[verifier::external_body] pub fn request_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rqt() == Some(*t) && final(self).rqt() == Some(*final(t)), None => old(self).rqt() is None && final(self).rqt() is None } { unimplemented!() }
    #[verifier::external_body] pub fn response_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rst() == Some(*t) && final(self).rst() == Some(*final(t)), None => old(self).rst() is None && final(self).rst() is None } { unimplemented!() }
    #[verifier::external_body] pub fn request(&mut self) -> (r: Option<&Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rqt() == Some(*t) && final(self).rqt() == Some(*t), None => old(self).rqt() is None && final(self).rqt() is None } { unimplemented!() }
    #[verifier::external_body] pub fn response(&mut self) -> (r: Option<&Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rst() == Some(*t) && final(self).rst() == Some(*t), None => old(self).rst() is None && final(self).rst() is None } { unimplemented!() }
}
#[verifier::external_body] pub fn take(b: &mut Bstr) -> (r: Bstr) ensures r@ == old(b)@, final(b)@ == Seq::<u8>::empty() { unimplemented!() }
pub fn vx_gt0(a: Option<u64>) -> (r: bool) ensures r == (a is Some && a->0 > 0) { match a { Some(v) => v > 0, None => false } }
pub open spec fn wadd(a: u64, n: int) -> u64 { if a + n > u64::MAX { (a + n - u64::MAX - 1) as u64 } else { (a + n) as u64 } }
/*@ config
pre: self . request_body_data_left > Some ( 0 ) =>> vx_gt0(self.request_body_data_left)
pre: self . response_body_data_left > Some ( 0 ) =>> vx_gt0(self.response_body_data_left)
@*/
/*@ fn connection_parser.rs::ConnectionParser::request_data_consume
spec:
    requires old(input).wf(), consumed <= old(input).left(),
    ensures final(input).at(old(input), old(input).position + consumed), final(input).wf(),
        *final(self) == (ConnectionParser { request_bytes_consumed: final(input).position, ..*old(self) }),
@*/
/*@ fn connection_parser.rs::ConnectionParser::response_data_consume
spec:
    requires old(input).wf(), consumed <= old(input).left(),
    ensures final(input).at(old(input), old(input).position + consumed), final(input).wf(),
        *final(self) == (ConnectionParser { response_bytes_consumed: final(input).position, ..*old(self) }),
@*/
/*@ fn connection_parser.rs::ConnectionParser::request_data_unconsume
spec:
    requires old(input).wf(),
    ensures final(input).at(old(input), if unconsume <= old(input).position { old(input).position - unconsume } else { 0 }), final(input).wf(),
        *final(self) == (ConnectionParser { request_bytes_consumed: final(input).position, ..*old(self) }),
@*/
/*@ fn connection_parser.rs::ConnectionParser::response_data_unconsume
spec:
    requires old(input).wf(),
    ensures final(input).at(old(input), if unconsume <= old(input).position { old(input).position - unconsume } else { 0 }), final(input).wf(),
        *final(self) == (ConnectionParser { response_bytes_consumed: final(input).position, ..*old(self) }),
@*/
/*@ fn request.rs::ConnectionParser::check_request_buffer_limit
ret: r
spec:
    requires old(self).request_buf@.len() + len + old(self).rq_head() <= usize::MAX,
    ensures *final(self) == *old(self),
        // refused exactly when what would be held exceeds the limit
        len > 0 ==> (r is Ok == (old(self).request_buf@.len() + old(self).rq_head() + len <= old(self).cfg.field_limit)),
        len == 0 ==> r is Ok, r is Err ==> r == Err::<(), _>(HtpStatus::ERROR),
@*/
/*@ fn response.rs::ConnectionParser::check_response_buffer_limit
ret: r
spec:
    requires old(self).response_buf@.len() + len + old(self).rs_head() <= usize::MAX,
    ensures *final(self) == *old(self),
        len > 0 ==> (r is Ok == (old(self).response_buf@.len() + old(self).rs_head() + len <= old(self).cfg.field_limit)),
        len == 0 ==> r is Ok, r is Err ==> r == Err::<(), _>(HtpStatus::ERROR),
@*/
impl ConnectionParser {
    pub open spec fn rq_head(&self) -> nat { match self.request_header { Some(h) => h@.len(), None => 0 } }
    pub open spec fn rs_head(&self) -> nat { match self.response_header { Some(h) => h@.len(), None => 0 } }
    pub open spec fn rq_held(&self) -> nat { self.request_buf@.len() + self.rq_head() }
    pub open spec fn rs_held(&self) -> nat { self.response_buf@.len() + self.rs_head() }
    /// what is held back never exceeds the limit (and a limit is an amount of memory)
    pub open spec fn rq_lim(&self) -> bool { self.rq_held() <= self.cfg.field_limit && self.cfg.field_limit <= isize::MAX }
    pub open spec fn rs_lim(&self) -> bool { self.rs_held() <= self.cfg.field_limit && self.cfg.field_limit <= isize::MAX }
}
/*@ fn request.rs::ConnectionParser::handle_request_absent_lf
ret: r
spec:
    requires old(data).wf(), old(self).rq_lim(), old(data).gap_len is None,
    ensures
        final(data).wf(), final(self).rq_lim(), r is Err,
        r == Err::<(), _>(HtpStatus::DATA_BUFFER) || r == Err::<(), _>(HtpStatus::ERROR),
        // all of the data is held back, or nothing is and the stream fails
        (r == Err::<(), _>(HtpStatus::DATA_BUFFER)) == (old(data).left() == 0 || old(self).rq_held() + old(data).left() <= old(self).cfg.field_limit),
        r == Err::<(), _>(HtpStatus::DATA_BUFFER) ==> final(data).at(old(data), old(data).total() as int) && final(self).request_buf@ == old(self).request_buf@ + old(data).rest()
            && *final(self) == (ConnectionParser { request_buf: final(self).request_buf, request_bytes_consumed: final(data).position, ..*old(self) }),
        r == Err::<(), _>(HtpStatus::ERROR) ==> *final(self) == *old(self) && *final(data) == *old(data),
@*/
/*@ fn response.rs::ConnectionParser::handle_response_absent_lf
ret: r
spec:
    requires old(data).wf(), old(self).rs_lim(), old(data).gap_len is None,
    ensures
        final(data).wf(), final(self).rs_lim(), r is Err,
        r == Err::<(), _>(HtpStatus::DATA_BUFFER) || r == Err::<(), _>(HtpStatus::ERROR),
        (r == Err::<(), _>(HtpStatus::DATA_BUFFER)) == (old(data).left() == 0 || old(self).rs_held() + old(data).left() <= old(self).cfg.field_limit),
        r == Err::<(), _>(HtpStatus::DATA_BUFFER) ==> final(data).at(old(data), old(data).total() as int) && final(self).response_buf@ == old(self).response_buf@ + old(data).rest()
            && *final(self) == (ConnectionParser { response_buf: final(self).response_buf, response_bytes_consumed: final(data).position, ..*old(self) }),
        r == Err::<(), _>(HtpStatus::ERROR) ==> *final(self) == *old(self) && *final(data) == *old(data),
@*/
