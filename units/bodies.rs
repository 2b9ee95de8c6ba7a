// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
use std::cmp::Ordering;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include bstr.inc
//@include pdata.inc
//@include conn.inc
//@include body.inc
// contracts of the line and number functions (units lines and nums)
pub uninterp spec fn chunk_spec(s: Seq<u8>) -> Option<(Option<u64>, bool)>;
pub uninterp spec fn chunk_data_valid(s: Seq<u8>) -> bool;
pub open spec fn ctl(c: u8) -> bool { c == 13 || c == 10 || c == 32 || c == 9 || c == 11 || c == 12 }
pub open spec fn all_ctl(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> ctl(#[trigger] s[k]) }
#[verifier::external_body] pub fn parse_chunked_length(input: &[u8]) -> (r: Result<(Option<u64>, bool)>)
    ensures match chunk_spec(input@) { Some(v) => r == Ok::<(Option<u64>, bool), HtpStatus>(v), None => r == Err::<(Option<u64>, bool), HtpStatus>(HtpStatus::ERROR) } { unimplemented!() }
#[verifier::external_body] pub fn is_valid_chunked_length_data(data: &[u8]) -> (r: bool) ensures r == chunk_data_valid(data@) { unimplemented!() }
#[verifier::external_body] pub fn is_chunked_ctl_line(l: &[u8]) -> (r: bool) ensures r == all_ctl(l@) { unimplemented!() }
pub open spec fn no_lf(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != 10 }
/// line is s up to and including its first LF
pub open spec fn line_of(s: Seq<u8>, line: Seq<u8>) -> bool { line.len() > 0 && line.last() == 10 && no_lf(line.drop_last()) && line.len() <= s.len() && line == s.subrange(0, line.len() as int) }
#[verifier::external_body] pub fn take_till_lf<'a>(data: &'a [u8]) -> (r: core::result::Result<(&'a [u8], &'a [u8]), ()>)
    ensures match r { Ok((rest, line)) => line_of(data@, line@) && 0 < line@.len() <= data@.len() && rest@ == data@.subrange(line@.len() as int, data@.len() as int), Err(_) => no_lf(data@) } { unimplemented!() }
// ---- the states of a body ----
/*@ fn request.rs::ConnectionParser::request_body_chunked_data
ret: r
spec:
    requires old(input).wf(), old(input).gap_len is None, !old(self).refused@,
    ensures
        final(input).wf(), ({
            let want = match old(self).request_chunked_length { Some(l) => l as int, None => 0 };
            let n = if old(input).left() <= want { old(input).left() as int } else { want };
            let p = old(input).rest().subrange(0, n);
            &&& n == 0 ==> r == Err::<(), _>(HtpStatus::DATA) && *final(self) == *old(self) && *final(input) == *old(input)
            // the next n bytes, and only they, are the body; n bytes fewer are to come
            &&& n > 0 && !final(self).refused@ && r != Err::<(), _>(HtpStatus::ERROR) ==> final(self).rq_took(old(self), p, false) && final(input).at(old(input), old(input).position + n)
                    && *final(self) == (ConnectionParser { rq: final(self).rq, transactions: final(self).transactions, request_bytes_consumed: final(input).position,
                        request_chunked_length: Some((want - n) as u64), request_state: if want == n { State::BODY_CHUNKED_DATA_END } else { old(self).request_state }, ..*old(self) })
                    && r == (if want == n { Ok(()) } else { Err(HtpStatus::DATA) })
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_chunked_data
ret: r
spec:
    requires old(input).wf(), old(input).gap_len is None, !old(self).refused@,
    ensures
        final(input).wf(), ({
            let want = match old(self).response_chunked_length { Some(l) => l as int, None => 0 };
            let n = if old(input).left() <= want { old(input).left() as int } else { want };
            let p = old(input).rest().subrange(0, n);
            &&& n == 0 ==> r == Err::<(), _>(HtpStatus::DATA) && *final(self) == *old(self) && *final(input) == *old(input)
            &&& n > 0 && !final(self).refused@ && r != Err::<(), _>(HtpStatus::ERROR) ==> final(self).rs_took(old(self), p) && final(input).at(old(input), old(input).position + n)
                    && *final(self) == (ConnectionParser { rs: final(self).rs, transactions: final(self).transactions, response_bytes_consumed: final(input).position,
                        response_chunked_length: Some((want - n) as u64), response_state: if want == n { State::BODY_CHUNKED_DATA_END } else { old(self).response_state }, ..*old(self) })
                    && r == (if want == n { Ok(()) } else { Err(HtpStatus::DATA) })
        }),
@*/
/*@ fn request.rs::ConnectionParser::request_body_identity
pre: Data :: new ( req , & parser_data ) =>> Data::new(&parser_data)
subst: self . request_state = State :: FINALIZE ; =>> self.request_state = State::FINALIZE; let ghost mid = *self;
tail: proof { if __tail is Ok { assert(somes(bytes_of(None)) =~= seq![]); let p = old(data).rest().subrange(0, left as int); if old(data).gap_len is None { assert(mid.rq_took(old(self), p, false)); assert(self.rq_took(&mid, seq![], true)); assert(self.rq_took(old(self), p, true)); } else {assert(mid.rq_gap(old(self), left as nat, false));  assert(self.rq_gap(old(self), left as nat, true));} } }
ret: r
spec:
    requires old(data).wf(), !old(self).refused@,
    ensures
        final(data).wf(), ({
            let left = old(self).request_body_data_left;
            let n = if old(data).left() <= left->0 { old(data).left() as int } else { left->0 as int };
            let p = old(data).rest().subrange(0, n);
            let mid = ConnectionParser { rq: old(self).rq, transactions: old(self).transactions, ..*final(self) };
            &&& left is None ==> r == Err::<(), _>(HtpStatus::ERROR) && *final(self) == *old(self) && *final(data) == *old(data)
            &&& left is Some && n == 0 ==> r == Err::<(), _>(HtpStatus::DATA) && *final(self) == *old(self) && *final(data) == *old(data)
            &&& left is Some && n > 0 && !final(self).refused@ && r != Err::<(), _>(HtpStatus::ERROR) ==> {
                &&& final(data).at(old(data), old(data).position + n)
                &&& *final(self) == (ConnectionParser { rq: final(self).rq, transactions: final(self).transactions, request_bytes_consumed: final(data).position,
                        request_body_data_left: Some((left->0 - n) as u64), request_state: if left->0 == n { State::FINALIZE } else { old(self).request_state }, ..*old(self) })
                &&& r is Ok == (left->0 == n) && (left->0 == n || r == Err::<(), _>(HtpStatus::DATA))
                // the next n bytes, and only they, are the body, followed by the end notice if they are the last
                &&& old(data).gap_len is None ==> final(self).rq_took(old(self), p, left->0 == n)
                &&& old(data).gap_len is Some ==> final(self).rq_gap(old(self), n as nat, left->0 == n)
            }
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_identity_cl_known
pre: Data :: new ( resp , & parser_data ) =>> Data::new(&parser_data)
subst: self . response_body_data_left = Some ( __ANY ) ; =>> self.response_body_data_left = Some(__ANY); let ghost mid = *self;
tail: proof { if __tail is Ok { assert(somes(bytes_of(None)) =~= seq![]); let p = old(data).rest().subrange(0, left as int); if old(data).gap_len is None { assert(mid.rs_took(old(self), p)); assert(self.rs_took(old(self), p)); } else { assert(mid.rs_gap(old(self), left as nat)); assert(self.rs_gap(old(self), left as nat));} } }
ret: r
spec:
    requires old(data).wf(), !old(self).refused@,
    ensures
        final(data).wf(), ({
            let left = old(self).response_body_data_left;
            let n = if old(data).left() <= left->0 { old(data).left() as int } else { left->0 as int };
            let p = old(data).rest().subrange(0, n);
            let closed = old(self).response_status == HtpStreamState::CLOSED;
            &&& !closed && left is None ==> r == Err::<(), _>(HtpStatus::ERROR) && *final(self) == *old(self) && *final(data) == *old(data)
            &&& !closed && left is Some && n == 0 ==> r == Err::<(), _>(HtpStatus::DATA) && *final(self) == *old(self) && *final(data) == *old(data)
            &&& !closed && left is Some && n > 0 && !final(self).refused@ && r != Err::<(), _>(HtpStatus::ERROR) ==> {
                &&& final(data).at(old(data), old(data).position + n)
                &&& *final(self) == (ConnectionParser { rs: final(self).rs, transactions: final(self).transactions, response_bytes_consumed: final(data).position,
                        response_body_data_left: Some((left->0 - n) as u64), response_state: if left->0 == n { State::FINALIZE } else { old(self).response_state }, ..*old(self) })
                &&& r is Ok == (left->0 == n) && (left->0 == n || r == Err::<(), _>(HtpStatus::DATA))
                &&& old(data).gap_len is None ==> final(self).rs_took(old(self), p)
                &&& old(data).gap_len is Some ==> final(self).rs_gap(old(self), n as nat)
            }
            &&& closed && old(data).left() == 0 && r is Ok ==> final(self).rs_took(old(self), seq![]) && *final(data) == *old(data) && final(self).response_state == State::FINALIZE
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_identity_stream_close
pre: Data :: new ( __ANY , data ) =>> Data::new(data)
ret: r
spec:
    requires old(data).wf(), !old(self).refused@,
    ensures
        final(data).wf(), !final(self).refused@ && r != Err::<(), _>(HtpStatus::ERROR) ==> {
            let closed = old(self).response_status == HtpStreamState::CLOSED;
            &&& final(data).at(old(data), old(data).total() as int)
            &&& *final(self) == (ConnectionParser { rs: final(self).rs, transactions: final(self).transactions, response_bytes_consumed: final(self).response_bytes_consumed,
                    response_state: if closed { State::FINALIZE } else { old(self).response_state }, ..*old(self) })
            &&& r == (if closed { Ok(()) } else { Err(HtpStatus::DATA) })
            // all that is left is body
            &&& old(data).left() > 0 && old(data).gap_len is None ==> final(self).rs_took(old(self), old(data).rest()) && final(self).response_bytes_consumed == final(data).position
            &&& old(data).left() > 0 && old(data).gap_len is Some ==> final(self).rs_gap(old(self), old(data).left()) && final(self).response_bytes_consumed == final(data).position
            &&& old(data).left() == 0 ==> final(self).rs == old(self).rs
        },
@*/
/*@ fn request.rs::ConnectionParser::request_body_chunked_data_end
ret: r
spec:
    requires old(input).wf(), old(input).gap_len is None,
    ensures
        final(input).wf(), final(self).rq == old(self).rq,
        old(self).rqt() is None ==> r == Err::<(), _>(HtpStatus::ERROR) && *final(input) == *old(input),
        old(self).rqt() is Some ==> ({
            let s = old(input).rest();
            let n = final(input).position - old(input).position;
            let t = old(self).rqt()->0;
            // up to the end of the line or of the data; none of it body
            &&& (r is Ok && line_of(s, s.subrange(0, n))) || (r == Err::<(), _>(HtpStatus::DATA_BUFFER) && no_lf(s) && n == s.len())
            &&& 0 <= n <= s.len() && final(input).same(old(input))
            &&& final(self).rqt() == Some(Transaction { request_message_len: wadd(t.request_message_len, n), ..t })
            &&& *final(self) == (ConnectionParser { transactions: final(self).transactions, request_bytes_consumed: final(input).position,
                    request_state: if r is Ok { State::BODY_CHUNKED_LENGTH } else { old(self).request_state }, ..*old(self) })
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_chunked_data_end
ret: r
spec:
    requires old(input).wf(), old(input).gap_len is None,
    ensures
        final(input).wf(), final(self).rs == old(self).rs,
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR) && *final(input) == *old(input),
        old(self).rst() is Some ==> ({
            let s = old(input).rest();
            let n = final(input).position - old(input).position;
            let t = old(self).rst()->0;
            &&& (r is Ok && line_of(s, s.subrange(0, n))) || (r == Err::<(), _>(HtpStatus::DATA_BUFFER) && no_lf(s) && n == s.len())
            &&& 0 <= n <= s.len() && final(input).same(old(input))
            &&& final(self).rst() == Some(Transaction { response_message_len: wadd(t.response_message_len, n), ..t })
            &&& *final(self) == (ConnectionParser { transactions: final(self).transactions, response_bytes_consumed: final(input).position,
                    response_state: if r is Ok { State::BODY_CHUNKED_LENGTH } else { old(self).response_state }, ..*old(self) })
        }),
@*/
/*@ fn request.rs::ConnectionParser::request_body_determine
pre: req . request_content_length > Some ( 0 ) =>> vx_gt0(req.request_content_length)
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
ret: r
spec:
    ensures
        final(self).rq == old(self).rq, match old(self).rqt() {
            None => r == Err::<(), _>(HtpStatus::ERROR),
            Some(t) => {
                let c = t.request_content_length;
                let body = c is Some && c->0 > 0;
                match t.request_transfer_coding {
                    HtpTransferCoding::CHUNKED => r is Ok && final(self).rqt() == Some(Transaction { request_progress: HtpRequestProgress::BODY, ..t })
                        && *final(self) == (ConnectionParser { transactions: final(self).transactions, request_state: State::BODY_CHUNKED_LENGTH, ..*old(self) }),
                    HtpTransferCoding::IDENTITY => r is Ok && final(self).rqt() == Some(Transaction { request_progress: if body { HtpRequestProgress::BODY } else { t.request_progress }, ..t })
                        && *final(self) == (ConnectionParser { transactions: final(self).transactions, request_content_length: c, request_body_data_left: c,
                            request_state: if body { State::BODY_IDENTITY } else { State::FINALIZE }, ..*old(self) }),
                    HtpTransferCoding::NO_BODY => r is Ok && final(self).rqt() == Some(t)
                        && *final(self) == (ConnectionParser { transactions: final(self).transactions, request_state: State::FINALIZE, ..*old(self) }),
                    _ => r == Err::<(), _>(HtpStatus::ERROR) && final(self).rqt() == Some(t) && *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
                }
            },
        },
@*/
impl ConnectionParser {
    /// from o to self, a gap of n bytes of the body was counted and told once (and the end, if `end` and the body is not compressed)
    pub open spec fn rq_gap(&self, o: &ConnectionParser, n: nat, end: bool) -> bool {
        let t = o.rqt()->0; let u = self.rqt()->0; let e = t.request_content_encoding_processing;
        &&& o.rqt() is Some && self.rqt() is Some && !self.refused@ && self.refused == o.refused
        &&& u == (Transaction { request_message_len: wadd(t.request_message_len, n as int), request_entity_len: u.request_entity_len, request_decompressor: u.request_decompressor, ..t })
        &&& plain(e) || !end ==> u.request_entity_len == t.request_entity_len && self.rq@.tx =~= o.rq@.tx + nones(n) && self.rq@.cfg =~= o.rq@.cfg + nones(n)
                && self.rq@.ends == o.rq@.ends + (if end { 1nat } else { 0nat })
        &&& self.rq@.coded =~= o.rq@.coded && self.rq@.raw == o.rq@.raw
    }
    pub open spec fn rs_gap(&self, o: &ConnectionParser, n: nat) -> bool {
        let t = o.rst()->0; let u = self.rst()->0; let e = t.response_content_encoding_processing;
        &&& o.rst() is Some && self.rst() is Some && !self.refused@ && self.refused == o.refused
        &&& u == (Transaction { response_message_len: wadd(t.response_message_len, n as int), response_entity_len: u.response_entity_len, response_decompressor: u.response_decompressor, ..t })
        &&& plain(e) ==> u.response_entity_len == t.response_entity_len && self.rs@.tx =~= o.rs@.tx + nones(n) && self.rs@.cfg =~= o.rs@.cfg + nones(n)
        &&& self.rs@.coded =~= o.rs@.coded && self.rs@.raw == o.rs@.raw
    }
}
// ---- chunk length lines ----
/// number of bytes up to and including the first LF, 0 if there is none
pub open spec fn line_len(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == 10 { 1 } else { let n = line_len(s.skip(1)); if n > 0 { n + 1 } else { 0 } } }
/// number of bytes of the leading lines that are blank
pub open spec fn blanks(b: spec_fn(Seq<u8>) -> bool, s: Seq<u8>) -> int decreases s.len() {
    let n = line_len(s);
    if 0 < n <= s.len() && b(s.take(n)) { n + blanks(b, s.skip(n)) } else { 0 }
}
pub proof fn lemma_line_len(s: Seq<u8>)
    ensures 0 <= line_len(s) <= s.len(), line_len(s) == 0 <==> no_lf(s),
        line_len(s) > 0 ==> line_of(s, s.take(line_len(s))),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_line_len(s.skip(1));
        let n = line_len(s.skip(1));
        if s[0] == 10 { assert(s.take(1).drop_last() =~= seq![]); assert(s.take(1).last() == 10); assert(s.take(1) =~= s.subrange(0, 1)); assert(!no_lf(s)); }
        else if n > 0 {
            let l = s.take(n + 1);
            assert(l.last() == s.skip(1).take(n).last());
            assert forall|k: int| 0 <= k < l.drop_last().len() implies #[trigger] l.drop_last()[k] != 10 by { if k > 0 { assert(s.skip(1).take(n).drop_last()[k - 1] == l[k]); } }
            assert(l =~= s.subrange(0, n + 1));
            assert(s[n] == l.last());
            assert(!no_lf(s));
        } else { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != 10 by { if k > 0 { assert(s.skip(1)[k - 1] == s[k]); } } }
    }
}
pub proof fn lemma_line_of(s: Seq<u8>, l: Seq<u8>)
    requires line_of(s, l),
    ensures line_len(s) == l.len(), s.take(l.len() as int) == l,
{
    lemma_line_len(s);
    let n = line_len(s);
    assert(s[l.len() - 1] == l.last());
    assert(!no_lf(s));
    if n < l.len() { assert(l.drop_last()[n - 1] == s[n - 1]); assert(s.take(n).last() == s[n - 1]); assert(false); }
    if n > l.len() { assert(s.take(n).drop_last()[l.len() - 1] == s[l.len() - 1]); assert(false); }
    assert(s.take(l.len() as int) =~= l);
}
/// a line that begins with held data without LF
pub proof fn lemma_joined(h: Seq<u8>, d: Seq<u8>, l: Seq<u8>)
    requires no_lf(h), line_of(d, l),
    ensures line_of(h + d, h + l), line_len(h + d) == h.len() + l.len(), (h + d).take((h.len() + l.len()) as int) == h + l, (h + d).skip((h.len() + l.len()) as int) =~= d.skip(l.len() as int),
{
    let m = h + l;
    assert(m.last() == 10);
    assert forall|k: int| 0 <= k < m.drop_last().len() implies #[trigger] m.drop_last()[k] != 10 by { if k >= h.len() { assert(l.drop_last()[k - h.len()] == m[k]); } else { assert(m[k] == h[k]); } }
    assert(m =~= (h + d).subrange(0, m.len() as int));
    lemma_line_of(h + d, m);
}
pub proof fn lemma_no_lf_joined(h: Seq<u8>, d: Seq<u8>)
    requires no_lf(h), no_lf(d),
    ensures line_len(h + d) == 0, no_lf(h + d),
{
    assert forall|k: int| 0 <= k < (h + d).len() implies #[trigger] (h + d)[k] != 10 by { if k >= h.len() { assert((h + d)[k] == d[k - h.len()]); } else { assert((h + d)[k] == h[k]); } }
    lemma_line_len(h + d);
}
pub proof fn lemma_blanks(b: spec_fn(Seq<u8>) -> bool, s: Seq<u8>)
    ensures
        0 < line_len(s) && b(s.take(line_len(s))) ==> blanks(b, s) == line_len(s) + blanks(b, s.skip(line_len(s))),
        line_len(s) == 0 || !b(s.take(line_len(s))) ==> blanks(b, s) == 0,
{ lemma_line_len(s); }
pub open spec fn rq_blank() -> spec_fn(Seq<u8>) -> bool { |l: Seq<u8>| l =~= seq![10u8] }
pub open spec fn rs_blank() -> spec_fn(Seq<u8>) -> bool { |l: Seq<u8>| all_ctl(l) }
/*@ fn request.rs::ConnectionParser::request_body_chunked_length
pre: chunk_line . as_slice ( ) . eq ( b"\n" ) =>> bytes_eq(chunk_line.as_slice(), &[10u8])
closure 0 args: e: HtpStatus
closure 0: -> (b: HtpStatus) ensures b == e
pre: parse_chunked_length ( & chunk_line ) =>> parse_chunked_length(chunk_line.as_slice())
pre: is_valid_chunked_length_data ( & seen ) =>> is_valid_chunked_length_data(seen.as_slice())
ret: r
attr: #[verifier::rlimit(50)]
spec:
    requires old(input).wf(), old(input).gap_len is None, old(self).rq_lim(), no_lf(old(self).request_buf@), old(self).rqt() is Some,
    ensures
        final(input).wf(), final(input).same(old(input)), final(self).rq_lim(), no_lf(final(self).request_buf@), final(self).rqt() is Some,
        *final(self) == (ConnectionParser { transactions: final(self).transactions, request_bytes_consumed: final(self).request_bytes_consumed,
            request_buf: final(self).request_buf, request_chunked_length: final(self).request_chunked_length, request_state: final(self).request_state, ..*old(self) }),
        ({
            let b = old(self).request_buf@; let s = b + old(input).rest(); let t = old(self).rqt()->0;
            let k = blanks(rq_blank(), s); let u = s.skip(k); let n = line_len(u);
            let v = chunk_spec(u.take(n));
            // the held data and the new data are read as one; what is consumed is counted once and is no body
            &&& r is Ok ==> n > 0 && v is Some && (v->0).0 is Some && final(input).position == old(input).position + k + n - b.len() && final(self).request_bytes_consumed == final(input).position && final(self).request_buf@.len() == 0
                    && final(self).request_chunked_length == (v->0).0
                    && (((v->0).0)->0 == 0 ==> final(self).request_state == State::HEADERS && final(self).rqt()->0 == (Transaction { request_message_len: wadd(t.request_message_len, k + n), request_progress: HtpRequestProgress::TRAILER, ..t }))
                    && (((v->0).0)->0 > 0 ==> final(self).request_state == State::BODY_CHUNKED_DATA && final(self).rqt()->0 == (Transaction { request_message_len: wadd(t.request_message_len, k + n), ..t }))
            &&& r == Err::<(), _>(HtpStatus::DATA_BUFFER) ==> n == 0 && chunk_data_valid(u) && final(self).request_buf@ == u && final(input).position == old(input).total() && final(self).request_bytes_consumed == final(input).position
                    && final(self).rqt()->0 == (Transaction { request_message_len: wadd(t.request_message_len, k), ..t }) && final(self).request_state == old(self).request_state
            // an error only for an unusable length or too much held data
            &&& r is Err && r != Err::<(), _>(HtpStatus::DATA_BUFFER) ==> (n > 0 && (v is None || (v->0).0 is None)) || (n == 0 && !chunk_data_valid(u)) || s.len() + old(self).rq_head() > old(self).cfg.field_limit
        }),
loop 0 before: let ghost s0 = old(self).request_buf@ + old(input).rest(); let ghost mut k: int = 0; proof { assert(s0.skip(0) =~= s0); }
loop 0:
    invariant
        s0 == old(self).request_buf@ + old(input).rest(), old(input).wf(), old(input).gap_len is None, old(self).rq_lim(),
        input.wf(), input.same(old(input)), self.rq_lim(), no_lf(self.request_buf@), old(self).rqt() is Some, self.rqt() is Some,
        data@ == input.rest(), self.request_bytes_consumed == input.position || *self == *old(self),
        0 <= k <= s0.len(), self.request_buf@ + data@ =~= s0.skip(k), k > 0 ==> self.request_buf@.len() == 0,
        blanks(rq_blank(), s0) == k + blanks(rq_blank(), s0.skip(k)),
        input.position == old(input).position + k - (if k > 0 { old(self).request_buf@.len() } else { 0 }),
        k == 0 ==> self.request_buf@ == old(self).request_buf@,
        self.rqt()->0 == (Transaction { request_message_len: wadd(old(self).rqt()->0.request_message_len, k), ..old(self).rqt()->0 }),
        *self == (ConnectionParser { transactions: self.transactions, request_bytes_consumed: self.request_bytes_consumed, request_buf: self.request_buf, ..*old(self) }),
    decreases data@.len(),
hide: hide(blanks); hide(line_len); hide(line_of); hide(no_lf);
loop 0 start: let ghost h = self.request_buf@; let ghost d0 = data@; let ghost sk = s0.skip(k); proof { lemma_blanks(rq_blank(), sk); assert(sk =~= h + d0); assert(no_lf(seq![])) by { reveal(no_lf); } if no_lf(d0) { lemma_no_lf_joined(h, d0); } }
subst: if ! self . request_buf . is_empty ( ) =>> proof { lemma_joined(h, d0, line@); assert(input.rest() =~= remaining@); assert(s0.skip(k + h.len() + line@.len()) =~= sk.skip((h.len() + line@.len()) as int)); } if !self.request_buf.is_empty()
subst: data = remaining ; =>> data = remaining; proof { assert(rq_blank()(sk.take(line_len(sk)))); k = k + h.len() + line@.len(); }
@*/
pub proof fn lemma_no_lf_empty() ensures no_lf(Seq::<u8>::empty()), no_lf(seq![]) {}
/*@ fn response.rs::ConnectionParser::response_body_chunked_length
pre: is_chunked_ctl_line ( & chunk_line ) =>> is_chunked_ctl_line(chunk_line.as_slice())
pre: parse_chunked_length ( & chunk_line ) =>> parse_chunked_length(chunk_line.as_slice())
pre: is_valid_chunked_length_data ( & seen ) =>> is_valid_chunked_length_data(seen.as_slice())
pre: & chunk_line [ 0 .. held ] =>> vstd::slice::slice_subrange(chunk_line.as_slice(), 0, held)
ret: r
attr: #[verifier::rlimit(50)]
spec:
    requires old(input).wf(), old(input).gap_len is None, old(self).rs_lim(), no_lf(old(self).response_buf@), old(self).rst() is Some, !old(self).refused@,
    ensures
        final(input).wf(), final(input).same(old(input)), final(self).rs_lim(), no_lf(final(self).response_buf@), r is Ok ==> final(self).rst() is Some,
        *final(self) == (ConnectionParser { transactions: final(self).transactions, response_bytes_consumed: final(self).response_bytes_consumed, rs: final(self).rs, refused: final(self).refused,
            response_buf: final(self).response_buf, response_chunked_length: final(self).response_chunked_length, response_state: final(self).response_state, ..*old(self) }),
        ({
            let b = old(self).response_buf@; let s = b + old(input).rest(); let t = old(self).rst()->0; let m = t.response_message_len;
            let k = blanks(rs_blank(), s); let u = s.skip(k); let n = line_len(u);
            let v = chunk_spec(u.take(n)); let l = (v->0).0;
            let bad = if n > 0 { v is None } else { !chunk_data_valid(u) };
            let held = if k > 0 { seq![] } else { b };
            let e = final(self).rst()->0;
            // the held data and the new data are read as one; the length line is consumed, counted once and no body
            &&& r is Ok && !bad ==> n > 0 && final(input).position == old(input).position + k + n - b.len() && final(self).response_bytes_consumed == final(input).position && final(self).response_buf@.len() == 0
                    && final(self).response_chunked_length == l && final(self).rs == old(self).rs && final(self).refused == old(self).refused
                    && e == (Transaction { response_message_len: wadd(m, k + n), response_progress: if l is Some && l->0 == 0 { HtpResponseProgress::TRAILER } else { t.response_progress }, ..t })
                    && final(self).response_state == (if l is None { old(self).response_state } else if l->0 == 0 { State::HEADERS } else { State::BODY_CHUNKED_DATA })
            &&& r == Err::<(), _>(HtpStatus::DATA_BUFFER) && !final(self).refused@ ==> !bad && n == 0 && final(self).response_buf@ == u && final(input).position == old(input).total() && final(self).response_bytes_consumed == final(input).position
                    && e == (Transaction { response_message_len: wadd(m, k), ..t }) && final(self).response_state == old(self).response_state
                    && final(self).rs == old(self).rs && final(self).refused == old(self).refused
            // an unusable length: what is left, the held data first, is body up to the end of the stream
            &&& r is Ok && bad && !final(self).refused@ ==> final(self).response_state == State::BODY_IDENTITY_STREAM_CLOSE && final(self).response_buf@.len() == 0
                    && final(input).position == old(input).position + (if k > 0 { k - b.len() } else { 0 })
                    && final(self).rs_fell(old(self), k, held)
            // an error only for too much held data or a body the decompressor refuses
            &&& r is Err && r != Err::<(), _>(HtpStatus::DATA_BUFFER) && !final(self).refused@ ==> s.len() + old(self).rs_head() > old(self).cfg.field_limit || (bad && held.len() > 0)
        }),
loop 0 before: let ghost s0 = old(self).response_buf@ + old(input).rest(); let ghost mut k: int = 0; proof { assert(s0.skip(0) =~= s0); lemma_no_lf_empty(); }
loop 0:
    invariant
        s0 == old(self).response_buf@ + old(input).rest(), old(input).wf(), old(input).gap_len is None, old(self).rs_lim(),
        input.wf(), input.same(old(input)), self.rs_lim(), no_lf(self.response_buf@), old(self).rst() is Some, self.rst() is Some, !old(self).refused@,
        data@ == input.rest(), self.response_bytes_consumed == input.position || *self == (ConnectionParser { transactions: self.transactions, ..*old(self) }),
        0 <= k <= s0.len(), self.response_buf@ + data@ =~= s0.skip(k), k > 0 ==> self.response_buf@.len() == 0,
        blanks(rs_blank(), s0) == k + blanks(rs_blank(), s0.skip(k)),
        input.position == old(input).position + k - (if k > 0 { old(self).response_buf@.len() } else { 0 }),
        k == 0 ==> self.response_buf@ == old(self).response_buf@,
        no_lf(Seq::<u8>::empty()), no_lf(seq![]),
        self.rst()->0 == (Transaction { response_message_len: wadd(old(self).rst()->0.response_message_len, k), ..old(self).rst()->0 }),
        *self == (ConnectionParser { transactions: self.transactions, response_bytes_consumed: self.response_bytes_consumed, response_buf: self.response_buf, ..*old(self) }),
    decreases data@.len(),
hide: hide(blanks); hide(line_len); hide(line_of); hide(no_lf); hide(all_ctl);
loop 0 start: let ghost h = self.response_buf@; let ghost d0 = data@; let ghost sk = s0.skip(k); proof { lemma_blanks(rs_blank(), sk); assert(sk =~= h + d0); if no_lf(d0) { lemma_no_lf_joined(h, d0); } }
subst: if ! self . response_buf . is_empty ( ) =>> proof { lemma_joined(h, d0, line@); assert(input.rest() =~= remaining@); assert(s0.skip(k + h.len() + line@.len()) =~= sk.skip((h.len() + line@.len()) as int)); } if !self.response_buf.is_empty()
subst: data = remaining ; =>> data = remaining; proof { assert(rs_blank()(sk.take(line_len(sk)))); k = k + h.len() + line@.len(); }
@*/
impl ConnectionParser {
    /// from o to self, k bytes were counted, then the response became one that ends with the stream, and p was taken as the beginning of its body
    pub open spec fn rs_fell(&self, o: &ConnectionParser, k: int, p: Seq<u8>) -> bool {
        let t = o.rst()->0; let u = self.rst()->0; let n = p.len() as int; let e = t.response_content_encoding_processing;
        &&& u == (Transaction { response_transfer_coding: HtpTransferCoding::IDENTITY, response_message_len: wadd(t.response_message_len, k + n), response_entity_len: u.response_entity_len, response_decompressor: u.response_decompressor, ..t })
        &&& plain(e) ==> u.response_entity_len == wadd(t.response_entity_len, n) && self.rs@.tx =~= o.rs@.tx + somes(p) && self.rs@.cfg =~= o.rs@.cfg + somes(p) && self.rs@.coded == o.rs@.coded && self.rs@.raw == o.rs@.raw && self.rs@.ends == o.rs@.ends
        &&& !plain(e) ==> self.rs@.coded =~= o.rs@.coded + p && self.rs@.raw == o.rs@.raw
    }
}
fn main() {}
}
