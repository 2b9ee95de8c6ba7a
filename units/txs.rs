#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include btree.inc
/*@ item transaction.rs::HtpRequestProgress
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item transaction.rs::HtpResponseProgress
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item transaction.rs::Transaction
fields: index, request_progress, response_progress, is_protocol_0_9, request_transfer_coding, response_transfer_coding, response_content_encoding_processing, request_method, request_uri, response_status_number
@*/
/*@ item transaction.rs::HtpTransferCoding
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item transaction.rs::HtpResponseNumber
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item decompressors.rs::HtpContentEncoding
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item connection_parser.rs::State
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item connection_parser.rs::HtpStreamState
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
#[verifier::external_body] pub struct Bstr { _0: u8 }
#[verifier::external_body] pub struct ParserData { _0: u8 }
impl ParserData {
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.left() == 0) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_buf_empty(b: &Bstr) -> bool { unimplemented!() }
#[verifier::external_body] pub fn vx_some_bstr() -> (r: Option<Bstr>) ensures r is Some { unimplemented!() }
/// what the callbacks of the application are told about transactions, in order
pub enum Ev { RequestStart(usize), RequestComplete(usize), ResponseStart(usize), ResponseComplete(usize), TransactionComplete(usize) }
/*@ item connection_parser.rs::ConnectionParser
fields: cfg, request_state, response_state, request_status, response_status, response_data_other_at_tx_end, request_buf, response_content_length, response_body_data_left, request_content_length, request_body_data_left, request_chunk_count, request_chunk_request_index, transactions
subst: transactions : Transactions =>> transactions: Transactions, pub told: Ghost<Seq<Ev>>
@*/
/*@ item config.rs::Config
fields: tx_auto_destroy, max_tx
@*/
/*@ item transactions.rs::Transactions
fields: config, request, response, transactions
@*/
pub struct Logger { pub l: u8 }
pub open spec fn started(t: Transaction) -> bool { !(t.request_progress == HtpRequestProgress::NOT_STARTED && t.response_progress == HtpResponseProgress::NOT_STARTED) }
pub open spec fn complete(t: Transaction) -> bool { t.request_progress == HtpRequestProgress::COMPLETE && t.response_progress == HtpResponseProgress::COMPLETE }
pub open spec fn fresh(i: usize) -> Transaction {
    Transaction { index: i, request_progress: HtpRequestProgress::NOT_STARTED, response_progress: HtpResponseProgress::NOT_STARTED, is_protocol_0_9: false,
        request_transfer_coding: HtpTransferCoding::UNKNOWN, response_transfer_coding: HtpTransferCoding::UNKNOWN, response_content_encoding_processing: HtpContentEncoding::NONE,
        request_method: None, request_uri: None, response_status_number: HtpResponseNumber::UNKNOWN }
}
impl Transactions {
    /// what holds between calls: a transaction is held under its own index, and no more than the maximum are held
    pub open spec fn inv(&self) -> bool {
        &&& self.transactions@.len() <= self.config.max_tx
        &&& forall|i: usize| #[trigger] self.transactions@.contains_key(i) ==> self.transactions@[i].index == i
    }
    /// nothing but the held transactions differs
    pub open spec fn same(&self, o: &Transactions) -> bool { self.config == o.config && self.request == o.request && self.response == o.response }
    /// the current transaction at index i: the held one, or a fresh one if there is room
    pub open spec fn cur(&self, i: usize) -> Option<Transaction> {
        if self.transactions@.contains_key(i) { Some(self.transactions@[i]) } else if self.transactions@.len() >= self.config.max_tx { None } else { Some(fresh(i)) }
    }
    /// moving on: with auto-destroy a complete transaction is dropped, else nothing is
    pub open spec fn freed(&self, i: usize) -> Map<usize, Transaction> {
        let m = self.transactions@;
        if self.config.tx_auto_destroy && self.left(i) && m.contains_key(i) && complete(m[i]) { m.remove(i) } else { m }
    }
    /// one of the two directions is done with transaction i
    pub open spec fn left(&self, i: usize) -> bool { self.request > i || self.response > i }
}
pub proof fn lemma_len(m: Map<usize, Transaction>, k: usize)

    ensures forall|v: Transaction| (#[trigger] m.insert(k, v)).len() == m.len() + (if m.contains_key(k) { 0int } else { 1int }),
        m.remove(k).len() <= m.len(), !m.contains_key(k) ==> m.remove(k) == m,
{
    assert forall|v: Transaction| (#[trigger] m.insert(k, v)).len() == m.len() + (if m.contains_key(k) { 0int } else { 1int }) by {
        assert(m.insert(k, v).dom() =~= m.dom().insert(k));
    }
    assert(m.remove(k).dom() =~= m.dom().remove(k));
    if !m.contains_key(k) { assert(m.remove(k) =~= m); }
}
/*@ fn transaction.rs::Transaction::new
presig: cfg : & Rc < Config > =>> cfg: &Rc<Config>
fields: index, request_progress, response_progress, is_protocol_0_9, request_transfer_coding, response_transfer_coding, response_content_encoding_processing, request_method, request_uri, response_status_number
ret: r
spec:
    ensures r == fresh(index),
@*/
/*@ fn transaction.rs::Transaction::is_started
ret: r
spec:
    ensures r == started(*self),
@*/
/*@ fn transaction.rs::Transaction::is_complete
ret: r
spec:
    ensures r == complete(*self),
@*/
/*@ fn transactions.rs::Transactions::new
fields: config, request, response, transactions
ret: r
spec:
    ensures r.config == *cfg, r.request == 0, r.response == 0, r.transactions@ == Map::<usize, Transaction>::empty(), r.inv(),
@*/
/*@ fn transactions.rs::Transactions::size
pre: std :: cmp :: max ( self . request , self . response ) =>> if self.request >= self.response { self.request } else { self.response }
ret: r
spec:
    requires self.inv(),
    ensures ({
        let i = if self.request >= self.response { self.request } else { self.response };
        r == (if self.transactions@.contains_key(i) && started(self.transactions@[i]) { if i == usize::MAX { 0 } else { (i + 1) as usize } } else { i })
    }),
@*/
/*@ fn transactions.rs::Transactions::request_index
ret: r
spec:
    ensures r == self.request,
@*/
/*@ fn transactions.rs::Transactions::response_index
ret: r
spec:
    ensures r == self.response,
@*/
/*@ fn transactions.rs::Transactions::request_mut
pre: let logger = & self . logger ; =>> let logger = &Logger { l: 0 };
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).same(old(self)), final(self).transactions@.len() <= final(self).config.max_tx,
        match (r, old(self).cur(old(self).request)) {
            (Some(t), Some(c)) => *t == c && final(self).transactions@ == old(self).transactions@.insert(old(self).request, *final(t)),
            (None, None) => final(self).transactions@ == old(self).transactions@,
            _ => false,
        },
        (match r { Some(t) => final(t).index == old(self).request, None => true }) ==> final(self).inv(),
start: proof { lemma_len(self.transactions@, self.request); }
@*/
/*@ fn transactions.rs::Transactions::response_mut
pre: let logger = & self . logger ; =>> let logger = &Logger { l: 0 };
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).same(old(self)), final(self).transactions@.len() <= final(self).config.max_tx,
        match (r, old(self).cur(old(self).response)) {
            (Some(t), Some(c)) => *t == c && final(self).transactions@ == old(self).transactions@.insert(old(self).response, *final(t)),
            (None, None) => final(self).transactions@ == old(self).transactions@,
            _ => false,
        },
        (match r { Some(t) => final(t).index == old(self).response, None => true }) ==> final(self).inv(),
start: proof { lemma_len(self.transactions@, self.response); }
@*/
/*@ fn transactions.rs::Transactions::request
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).same(old(self)), final(self).inv(),
        match (r, old(self).cur(old(self).request)) {
            (Some(t), Some(c)) => *t == c && final(self).transactions@ == old(self).transactions@.insert(old(self).request, c),
            (None, None) => final(self).transactions@ == old(self).transactions@,
            _ => false,
        },
@*/
/*@ fn transactions.rs::Transactions::response
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).same(old(self)), final(self).inv(),
        match (r, old(self).cur(old(self).response)) {
            (Some(t), Some(c)) => *t == c && final(self).transactions@ == old(self).transactions@.insert(old(self).response, c),
            (None, None) => final(self).transactions@ == old(self).transactions@,
            _ => false,
        },
@*/
/*@ fn transactions.rs::Transactions::check_free
spec:
    requires old(self).inv(),
    ensures final(self).same(old(self)), final(self).transactions@ == old(self).freed(index), final(self).inv(),
start: proof { lemma_len(self.transactions@, index); }
@*/
/*@ fn transactions.rs::Transactions::request_next
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).request == (if old(self).request == usize::MAX { 0 } else { (old(self).request + 1) as usize }), r == final(self).request,
        final(self).response == old(self).response, final(self).config == old(self).config,
        final(self).transactions@ == old(self).freed(old(self).request), final(self).inv(),
@*/
/*@ fn transactions.rs::Transactions::response_next
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).response == (if old(self).response == usize::MAX { 0 } else { (old(self).response + 1) as usize }), r == final(self).response,
        final(self).request == old(self).request, final(self).config == old(self).config,
        final(self).transactions@ == old(self).freed(old(self).response), final(self).inv(),
@*/
/*@ fn transactions.rs::Transactions::remove
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).same(old(self)), final(self).transactions@ == old(self).transactions@.remove(index), final(self).inv(),
        r is Some == old(self).transactions@.contains_key(index), r is Some ==> r->0 == old(self).transactions@[index],
start: proof { lemma_len(self.transactions@, index); }
@*/
/*@ fn transactions.rs::Transactions::get
ret: r
spec:
    ensures r is Some == self.transactions@.contains_key(index), r is Some ==> *r->0 == self.transactions@[index],
@*/
/*@ fn transactions.rs::Transactions::get_mut
ret: r
spec:
    ensures
        final(self).same(old(self)),
        r is Some == old(self).transactions@.contains_key(index),
        r is Some ==> *r->0 == old(self).transactions@[index] && final(self).transactions@ == old(self).transactions@.insert(index, *final(r->0)),
        r is None ==> final(self).transactions@ == old(self).transactions@,
@*/
// ---- the connection parser's use of them ----
pub open spec fn wrap1(i: usize) -> usize { if i == usize::MAX { 0 } else { (i + 1) as usize } }
impl ConnectionParser {
    pub open spec fn inv(&self) -> bool { self.transactions.inv() && self.cfg == self.transactions.config }
    pub open spec fn held(&self) -> Map<usize, Transaction> { self.transactions.transactions@ }
    /// the two indices stand where they stood
    pub open spec fn still(&self, o: &ConnectionParser) -> bool { self.transactions.same(&o.transactions) && self.cfg == o.cfg }
}
// callbacks (the application's code) and the body/raw-data functions: assumed to leave indices, progress and the map of transactions alone
#[verifier::external_body] pub fn vx_hook(c: &mut ConnectionParser, i: usize, Ghost(e): Ghost<Ev>) -> (r: Result<()>)
    ensures *final(c) == (ConnectionParser { told: Ghost(old(c).told@.push(e)), ..*old(c) }) { unimplemented!() }
impl ConnectionParser {
    #[verifier::external_body] pub fn request_body_data(&mut self, data: Option<&[u8]>) -> (r: Result<()>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn response_body_data(&mut self, data: Option<&[u8]>) -> (r: Result<()>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn request_receiver_finalize_clear(&mut self, input: &mut ParserData) -> (r: Result<()>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn response_receiver_finalize_clear(&mut self, input: &mut ParserData) -> (r: Result<()>) ensures *final(self) == *old(self) { unimplemented!() }
}
/*@ fn transaction.rs::Transaction::request_has_body
ret: r
spec:
    ensures true,
@*/
/*@ fn connection_parser.rs::ConnectionParser::request_mut
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).still(old(self)), final(self).held().len() <= final(self).cfg.max_tx,
        *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
        match (r, old(self).transactions.cur(old(self).transactions.request)) {
            (Some(t), Some(c)) => *t == c && final(self).held() == old(self).held().insert(old(self).transactions.request, *final(t)),
            (None, None) => final(self).held() == old(self).held(),
            _ => false,
        },
        (match r { Some(t) => final(t).index == old(self).transactions.request, None => true }) ==> final(self).inv(),
@*/
/*@ fn connection_parser.rs::ConnectionParser::response_mut
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).still(old(self)), final(self).held().len() <= final(self).cfg.max_tx,
        *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
        match (r, old(self).transactions.cur(old(self).transactions.response)) {
            (Some(t), Some(c)) => *t == c && final(self).held() == old(self).held().insert(old(self).transactions.response, *final(t)),
            (None, None) => final(self).held() == old(self).held(),
            _ => false,
        },
        (match r { Some(t) => final(t).index == old(self).transactions.response, None => true }) ==> final(self).inv(),
@*/
/*@ fn connection_parser.rs::ConnectionParser::request
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).still(old(self)), final(self).inv(),
        *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
        match (r, old(self).transactions.cur(old(self).transactions.request)) {
            (Some(t), Some(c)) => *t == c && final(self).held() == old(self).held().insert(old(self).transactions.request, c),
            (None, None) => final(self).held() == old(self).held(),
            _ => false,
        },
@*/
/*@ fn connection_parser.rs::ConnectionParser::response
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).still(old(self)), final(self).inv(),
        *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
        match (r, old(self).transactions.cur(old(self).transactions.response)) {
            (Some(t), Some(c)) => *t == c && final(self).held() == old(self).held().insert(old(self).transactions.response, c),
            (None, None) => final(self).held() == old(self).held(),
            _ => false,
        },
@*/
/*@ fn connection_parser.rs::ConnectionParser::request_index
ret: r
spec:
    ensures r == self.transactions.request,
@*/
/*@ fn connection_parser.rs::ConnectionParser::response_index
ret: r
spec:
    ensures r == self.transactions.response,
@*/
/*@ fn connection_parser.rs::ConnectionParser::tx
ret: r
spec:
    ensures r is Some == self.held().contains_key(index), r is Some ==> *r->0 == self.held()[index],
@*/
/*@ fn connection_parser.rs::ConnectionParser::request_next
pre: self . conn . flags . set ( ConnectionFlags :: PIPELINED ) =>> ()
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).inv(), r == final(self).transactions.request, r == wrap1(old(self).transactions.request),
        final(self).transactions.response == old(self).transactions.response, final(self).held() == old(self).transactions.freed(old(self).transactions.request),
        *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
@*/
/*@ fn connection_parser.rs::ConnectionParser::response_next
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).inv(), r == final(self).transactions.response, r == wrap1(old(self).transactions.response),
        final(self).transactions.request == old(self).transactions.request, final(self).held() == old(self).transactions.freed(old(self).transactions.response),
        *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
@*/
/*@ fn connection_parser.rs::ConnectionParser::remove_tx
spec:
    requires old(self).inv(),
    ensures final(self).inv(), final(self).still(old(self)), final(self).held() == old(self).held().remove(tx_id), final(self).told == old(self).told,
@*/
/*@ fn connection_parser.rs::ConnectionParser::finalize
pre: self . cfg . hook_transaction_complete . clone ( ) . run_all ( self , __ANY ) =>> vx_hook(self, tx_index, Ghost(Ev::TransactionComplete(tx_index)))
ret: r
spec:
    requires old(self).inv(),
    ensures
        *final(self) == (ConnectionParser { told: final(self).told, ..*old(self) }),
        final(self).told@ == (if old(self).held().contains_key(tx_index) && complete(old(self).held()[tx_index]) && old(self).transactions.left(tx_index) { old(self).told@.push(Ev::TransactionComplete(tx_index)) } else { old(self).told@ }),
@*/
/*@ fn connection_parser.rs::ConnectionParser::request_parser_check_waiting
ret: r
spec:
    requires old(self).inv(),
    ensures *final(self) == (ConnectionParser { response_data_other_at_tx_end: final(self).response_data_other_at_tx_end, ..*old(self) }),
@*/
/*@ fn connection_parser.rs::ConnectionParser::state_request_start
pre: self . cfg . hook_request_start . clone ( ) . run_all ( self , __ANY ) =>> vx_hook(self, self.request_index(), Ghost(Ev::RequestStart(self.transactions.request)))
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).still(old(self)),
        match old(self).transactions.cur(old(self).transactions.request) {
            Some(c) => final(self).held() == old(self).held().insert(c.index, Transaction { request_progress: HtpRequestProgress::LINE, ..c })
                && final(self).told@ == old(self).told@.push(Ev::RequestStart(c.index)) && final(self).request_state == State::LINE,
            None => r is Err && final(self).held() == old(self).held() && final(self).told@ == old(self).told@,
        },
@*/
/*@ fn connection_parser.rs::ConnectionParser::state_response_start
pre: self . cfg . hook_response_start . clone ( ) . run_all ( self , __ANY ) =>> vx_hook(self, self.response_index(), Ghost(Ev::ResponseStart(self.transactions.response)))
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).still(old(self)),
        match old(self).transactions.cur(old(self).transactions.response) {
            Some(c) => final(self).held().dom() == old(self).held().insert(c.index, c).dom()
                && (forall|i: usize| #[trigger] final(self).held().contains_key(i) && i != c.index ==> final(self).held()[i] == old(self).held()[i])
                && final(self).held()[c.index].request_progress == c.request_progress
                && final(self).held()[c.index].response_progress == (if c.is_protocol_0_9 { HtpResponseProgress::BODY } else { HtpResponseProgress::LINE })
                && final(self).told@ == old(self).told@.push(Ev::ResponseStart(c.index)),
            None => r is Err && final(self).held() == old(self).held() && final(self).told@ == old(self).told@,
        },
@*/
/*@ fn connection_parser.rs::ConnectionParser::state_request_complete
pre: self . cfg . hook_request_complete . clone ( ) . run_all ( self , __ANY ) =>> vx_hook(self, self.request_index(), Ghost(Ev::RequestComplete(self.transactions.request)))
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).transactions.response == old(self).transactions.response, final(self).cfg == old(self).cfg,
        final(self).transactions.request == (if r is Ok { wrap1(old(self).transactions.request) } else { old(self).transactions.request }),
        match old(self).transactions.cur(old(self).transactions.request) {
            None => r is Err && final(self).held() == old(self).held() && final(self).told@ == old(self).told@,
            Some(c) => {
                let d = Transaction { request_progress: HtpRequestProgress::COMPLETE, ..c };
                let done = old(self).held().insert(c.index, d);
                // in every outcome the request is now complete, or an error ended it before that
                &&& r is Ok ==> final(self).held() =~= (if old(self).cfg.tx_auto_destroy && complete(d) && old(self).transactions.left(c.index) { done.remove(c.index) } else { done })
                &&& r is Err ==> final(self).held() =~= done || final(self).held() =~= old(self).held().insert(c.index, c)
                // the application hears of it once, and of the transaction iff the response is complete and done with, too
                &&& r is Ok ==> final(self).told@ =~= old(self).told@
                        + (if c.request_progress == HtpRequestProgress::COMPLETE { seq![] } else { seq![Ev::RequestComplete(c.index)] })
                        + (if complete(d) && old(self).transactions.left(c.index) { seq![Ev::TransactionComplete(c.index)] } else { seq![] })
            },
        },
@*/
/*@ fn connection_parser.rs::ConnectionParser::state_response_complete
pre: self . cfg . hook_response_complete . clone ( ) . run_all ( self , __ANY ) =>> vx_hook(self, response_index, Ghost(Ev::ResponseComplete(response_index)))
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).transactions.request == old(self).transactions.request, final(self).cfg == old(self).cfg,
        final(self).transactions.response == (if r is Ok { wrap1(old(self).transactions.response) } else { old(self).transactions.response }),
        match old(self).transactions.cur(old(self).transactions.response) {
            None => r is Err && final(self).held() == old(self).held() && final(self).told@ == old(self).told@,
            Some(c) => {
                let d = Transaction { response_progress: HtpResponseProgress::COMPLETE, ..c };
                let done = old(self).held().insert(c.index, d);
                &&& r is Ok ==> final(self).held() =~= (if old(self).cfg.tx_auto_destroy && complete(d) && old(self).transactions.left(c.index) { done.remove(c.index) } else { done })
                &&& r is Err ==> final(self).held() =~= done
                &&& r is Ok ==> final(self).told@ =~= old(self).told@
                        + (if c.response_progress == HtpResponseProgress::COMPLETE { seq![] } else { seq![Ev::ResponseComplete(c.index)] })
                        + (if complete(d) && old(self).transactions.left(c.index) { seq![Ev::TransactionComplete(c.index)] } else { seq![] })
            },
        },
@*/
/*@ fn connection_parser.rs::ConnectionParser::request_reset
spec:
    ensures final(self).transactions == old(self).transactions, final(self).cfg == old(self).cfg, final(self).told == old(self).told,
@*/
/*@ fn request.rs::ConnectionParser::request_idle
pre: self . request_buf . is_empty ( ) =>> vx_buf_empty(&self.request_buf)
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).still(old(self)),
        r is Err ==> final(self).held() == old(self).held() && final(self).told@ == old(self).told@,
        r is Ok ==> match old(self).transactions.cur(old(self).transactions.request) {
            Some(c) => final(self).held() == old(self).held().insert(c.index, Transaction { request_progress: HtpRequestProgress::LINE, ..c })
                && final(self).told@ == old(self).told@.push(Ev::RequestStart(c.index)),
            None => final(self).held() == old(self).held() && final(self).told@ == old(self).told@,
        },
@*/
/*@ fn response.rs::ConnectionParser::response_idle
pre: let uri = Uri { __ANY } ; =>> 
pre: tx . request_uri = uri . path . clone ( ) ; =>> tx.request_uri = vx_some_bstr();
pre: tx . parsed_uri = Some ( uri ) ; =>> 
ret: r
spec:
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).cfg == old(self).cfg, final(self).transactions.response == old(self).transactions.response,
        old(self).transactions.cur(old(self).transactions.response) is None ==> r is Err && final(self).held() == old(self).held() && final(self).told@ == old(self).told@ && final(self).still(old(self)),
        ({
            let i = old(self).transactions.response;
            let c = old(self).transactions.cur(i);
            let invented = c is Some && c->0.request_progress == HtpRequestProgress::NOT_STARTED && input.left() > 0;
            // the request side moves by one exactly when a request had to be invented for this response
            &&& final(self).transactions.request == (if invented { wrap1(old(self).transactions.request) } else { old(self).transactions.request })
            &&& input.left() == 0 ==> r is Err && final(self).held() == old(self).held() && final(self).told@ == old(self).told@
            // nothing disappears, except what the request side leaves behind complete when it moves
            &&& forall|k: usize| #[trigger] old(self).held().contains_key(k) && k != i ==> (final(self).held().contains_key(k) && final(self).held()[k] == old(self).held()[k])
                    || (invented && k == old(self).transactions.request && old(self).cfg.tx_auto_destroy && complete(old(self).held()[k]))
            &&& c is Some && input.left() > 0 ==> final(self).told@ == old(self).told@.push(Ev::ResponseStart(i))
        }),
subst: self . response_content_length = None ; =>> let ghost mid = *self; proof { let rq = old(self).transactions.request; lemma_len(old(self).held(), rq); lemma_len(mid.held(), mid.transactions.response); lemma_len(old(self).held(), mid.transactions.response); let c = old(self).transactions.cur(mid.transactions.response)->0; lemma_len(old(self).held().insert(mid.transactions.response, Transaction { request_progress: HtpRequestProgress::COMPLETE, ..c }), rq); } self.response_content_length = None;
tail: proof { let i = old(self).transactions.response; assert(mid.transactions.cur(i) is Some); assert(mid.transactions.cur(i)->0.index == i); assert forall|k: usize| #[trigger] old(self).held().contains_key(k) && k != i && !(k == old(self).transactions.request && old(self).cfg.tx_auto_destroy && complete(old(self).held()[k])) implies self.held().contains_key(k) && self.held()[k] == old(self).held()[k] by { assert(mid.held().contains_key(k)); assert(mid.held().insert(i, mid.transactions.cur(i)->0).dom().contains(k)); assert(self.held().dom().contains(k)); } }
@*/
/// the held transactions in index order (IntoIterator for &mut Transactions walks BTreeMap::iter_mut; assumed)
pub open spec fn walk(m: Map<usize, Transaction>, v: Seq<Transaction>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> m.contains_key((#[trigger] v[k]).index) && m[v[k].index] == v[k]
    &&& forall|a: int, b: int| 0 <= a < b < v.len() ==> (#[trigger] v[a]).index < (#[trigger] v[b]).index
    &&& forall|i: usize| #[trigger] m.contains_key(i) ==> exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).index == i
}
#[verifier::external_body]
pub fn vx_walk(t: &Transactions) -> (r: Vec<Transaction>) requires t.inv() ensures walk(t.transactions@, r@) { unimplemented!() }
pub open spec fn pending(t: Transaction) -> bool { started(t) && !complete(t) }
pub open spec fn pend(v: Seq<Transaction>) -> Seq<usize> decreases v.len() {
    if v.len() == 0 { seq![] } else if pending(v.last()) { pend(v.drop_last()).push(v.last().index) } else { pend(v.drop_last()) }
}
pub open spec fn told_of(s: Seq<usize>) -> Seq<Ev> { Seq::new(s.len(), |k: int| Ev::TransactionComplete(s[k])) }
pub proof fn lemma_pend(v: Seq<Transaction>, i: usize)
    ensures pend(v).contains(i) == (exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).index == i && pending(v[k])),
    decreases v.len(),
{
    if v.len() > 0 {
        let u = v.drop_last();
        lemma_pend(u, i);
        if exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).index == i && pending(v[k]) {
            let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).index == i && pending(v[k]);
            if k < u.len() { assert(u[k] == v[k]); let j = pend(u).index_of(i); assert(pend(v)[j] == i); } else { assert(pend(v)[pend(v).len() - 1] == i); }
        }
        if pend(v).contains(i) {
            let j = pend(v).index_of(i);
            if j < pend(u).len() { assert(pend(u)[j] == i); assert(pend(u).contains(i)); let k = choose|k: int| 0 <= k < u.len() && (#[trigger] u[k]).index == i && pending(u[k]); assert(v[k] == u[k]); }
            else { assert(v[v.len() - 1].index == i); }
        }
    }
}
/*@ fn connection_parser.rs::ConnectionParser::flush_incomplete_transactions
pre: for tx in & mut self . transactions =>> for tx in __w
pre: self . cfg . hook_transaction_complete . clone ( ) . run_all ( self , __ANY ) =>> vx_hook(self, index, Ghost(Ev::TransactionComplete(index)))
spec:
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).still(old(self)),
        // exactly the transactions that are started but not complete are reported, and dropped if configured
        forall|i: usize| #[trigger] final(self).held().contains_key(i) == (old(self).held().contains_key(i) && !(old(self).cfg.tx_auto_destroy && pending(old(self).held()[i]))),
        forall|i: usize| #[trigger] final(self).held().contains_key(i) ==> final(self).held()[i] == old(self).held()[i],
        exists|v: Seq<Transaction>| #[trigger] walk(old(self).held(), v) && final(self).told@ =~= old(self).told@ + told_of(pend(v)),
start: let __w = vx_walk(&self.transactions); let ghost w = __w@;
loop 0 iter: it
loop 0:
    invariant it.seq() == w, to_remove@ == pend(w.take(it.index@ as int)),
loop 0 start: proof { assert(w.take(it.index@ + 1).drop_last() =~= w.take(it.index@ as int)); assert(w.take(it.index@ + 1).last() == tx); }
loop 1 before: proof { assert(w.take(w.len() as int) =~= w); } let ghost l = to_remove@;
loop 1 iter: it
loop 1:
    invariant
        it.seq() == l, walk(old(self).held(), w), l == pend(w),
        self.inv(), self.still(old(self)), old(self).inv(),
        self.told@ =~= old(self).told@ + told_of(l.take(it.index@ as int)),
        forall|i: usize| #[trigger] self.held().contains_key(i) == (old(self).held().contains_key(i) && !(old(self).cfg.tx_auto_destroy && l.take(it.index@ as int).contains(i))),
        forall|i: usize| #[trigger] self.held().contains_key(i) ==> self.held()[i] == old(self).held()[i],
loop 1 start: let ghost n = it.index@ as int; let ghost before = self.held(); proof { assert(l.take(n + 1) =~= l.take(n).push(index)); assert(told_of(l.take(n + 1)) =~= told_of(l.take(n)).push(Ev::TransactionComplete(index))); }
loop 1 end: proof { assert forall|i: usize| l.take(n + 1).contains(i) == (l.take(n).contains(i) || i == index) by { if l.take(n).contains(i) { let j = l.take(n).index_of(i); assert(l.take(n + 1)[j] == i); } assert(l.take(n + 1)[n] == index); if l.take(n + 1).contains(i) { let j = l.take(n + 1).index_of(i); if j < n { assert(l.take(n)[j] == i); } } } }
loop 1 after: proof { assert(l.take(l.len() as int) =~= l); assert forall|i: usize| #[trigger] old(self).held().contains_key(i) implies l.contains(i) == pending(old(self).held()[i]) by { lemma_pend(w, i); let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).index == i; assert(w[k] == old(self).held()[i]); } assert(walk(old(self).held(), w)); }
@*/
fn main() {}
}
