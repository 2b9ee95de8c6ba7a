// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use std::rc::Rc;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include bstr.inc
//@include pdata.inc
//@include conn.inc
pub assume_specification<T> [core::option::Option::<T>::replace] (_0: &mut Option<T>, _1: T) -> (r: Option<T>) ensures *final(_0) == Some(_1), r == *old(_0);
pub broadcast axiom fn ax_bstr_len(b: &Bstr) ensures (#[trigger] b@.len()) <= isize::MAX;
pub open spec fn no_lf(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != 10 }
pub open spec fn line_of(s: Seq<u8>, line: Seq<u8>) -> bool { line.len() > 0 && line.last() == 10 && no_lf(line.drop_last()) && line.len() <= s.len() && line == s.take(line.len() as int) }
#[verifier::external_body] pub fn take_till_lf<'a>(data: &'a [u8]) -> (r: core::result::Result<(&'a [u8], &'a [u8]), ()>)
    ensures match r { Ok((rest, line)) => line_of(data@, line@) && !no_lf(data@) && 0 < line@.len() <= data@.len() && rest@ == data@.subrange(line@.len() as int, data@.len() as int), Err(_) => no_lf(data@) } { unimplemented!() }
/// the line function of responses (unit lines): how many bytes of s make up its first line, 0 if there is none yet
pub uninterp spec fn eol_len(s: Seq<u8>) -> int;
#[verifier::external_body] pub fn take_till_eol<'a>(data: &'a [u8]) -> (r: core::result::Result<(&'a [u8], (&'a [u8], u8)), ()>)
    ensures match r { Ok((rest, (line, e))) => 0 < eol_len(data@) <= data@.len() && line@ == data@.take(eol_len(data@)) && rest@ == data@.skip(eol_len(data@)), Err(_) => eol_len(data@) == 0 } { unimplemented!() }
#[verifier::external_body] pub fn take_till_lf_null<'a>(data: &'a [u8]) -> (r: core::result::Result<(&'a [u8], &'a [u8]), ()>)
    ensures r is Ok ==> 0 < r->Ok_0.1@.len() <= data@.len() && r->Ok_0.1@ == data@.take(r->Ok_0.1@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_starts(s: &[u8], p: &[u8]) -> (r: bool) ensures r == (p@.len() <= s@.len() && s@.take(p@.len() as int) =~= p@) { unimplemented!() }
#[verifier::external_body] pub fn vx_ends(s: &[u8], p: &[u8]) -> (r: bool) ensures r == (p@.len() <= s@.len() && s@.skip(s@.len() - p@.len()) =~= p@) { unimplemented!() }
#[verifier::external_body] pub fn chomp(s: &[u8]) -> (r: &[u8]) ensures r@.len() <= s@.len(), r@ == s@.take(r@.len() as int) { unimplemented!() }
/// the first word of the line, and whether it is a method
#[verifier::external_body] pub fn vx_word(s: &[u8]) -> (r: core::result::Result<(u8, (u8, &[u8])), ()>) { unimplemented!() }
#[verifier::external_body] pub fn vx_unknown(s: &[u8]) -> (r: bool) { unimplemented!() }
pub uninterp spec fn as_body(l: Seq<u8>) -> bool;
#[verifier::external_body] pub fn treat_response_line_as_body(s: &[u8]) -> (r: bool) ensures r == as_body(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_eols(s: &[u8]) -> (r: usize) ensures r <= s@.len() { unimplemented!() }
// ---- the functions called, none of which touches the held data: a frame the check confirms by looking for every use of these fields in src ----
impl ConnectionParser {
    pub open spec fn kept(&self, o: &ConnectionParser) -> bool {
        self.request_buf == o.request_buf && self.request_header == o.request_header && self.response_buf == o.response_buf && self.response_header == o.response_header && self.cfg == o.cfg
    }
    /// as kept, but for the request side's (the response side's) held data
    pub open spec fn rq_kept(&self, o: &ConnectionParser) -> bool { self.response_buf == o.response_buf && self.response_header == o.response_header && self.cfg == o.cfg }
    pub open spec fn rs_kept(&self, o: &ConnectionParser) -> bool { self.request_buf == o.request_buf && self.request_header == o.request_header && self.cfg == o.cfg }
    #[verifier::external_body] pub fn state_request_headers(&mut self, input: &mut ParserData) -> (r: Result<()>) ensures final(self).kept(old(self)), final(input).wf() == old(input).wf(), final(input).position == old(input).position { unimplemented!() }
    #[verifier::external_body] pub fn state_request_complete(&mut self, input: &mut ParserData) -> (r: Result<()>) ensures final(self).kept(old(self)), final(input).wf() == old(input).wf(), final(input).position == old(input).position { unimplemented!() }
    #[verifier::external_body] pub fn state_response_complete(&mut self, input: &mut ParserData) -> (r: Result<()>) ensures final(self).kept(old(self)), final(input).wf() == old(input).wf(), final(input).position == old(input).position { unimplemented!() }
    #[verifier::external_body] pub fn request_body_data(&mut self, data: Option<&[u8]>) -> (r: Result<()>) ensures final(self).kept(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn response_body_data(&mut self, data: Option<&[u8]>) -> (r: Result<()>) ensures final(self).kept(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn response_receiver_finalize_clear(&mut self, input: &mut ParserData) -> (r: Result<()>) ensures final(self).kept(old(self)), final(input).wf() == old(input).wf(), final(input).position == old(input).position { unimplemented!() }
    #[verifier::external_body] pub fn vx_trailer_hook(&mut self) -> (r: Result<()>) ensures final(self).kept(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn response_index(&self) -> (r: usize) { unimplemented!() }
    /// the header parser: what it makes of the data (how many bytes at its end are left over, whether the block has ended)
    pub open spec fn rq_parse(&self, d: Seq<u8>) -> Result<(nat, bool)> { rq_parse(self.transactions, self.cfg, d) }
    pub open spec fn rs_parse(&self, d: Seq<u8>) -> Result<(nat, bool)> { rs_parse(self.transactions, self.cfg, d) }
    #[verifier::external_body] pub fn parse_request_headers<'a>(&mut self, data: &'a [u8]) -> (r: Result<(&'a [u8], bool)>)
        ensures final(self).kept(old(self)), r is Ok ==> r->Ok_0.0@.len() <= data@.len() && r->Ok_0.0@ == data@.skip(data@.len() - r->Ok_0.0@.len()),
            match r { Ok((a, b)) => old(self).rq_parse(data@) == Ok::<(nat, bool), HtpStatus>((a@.len(), b)), Err(e) => old(self).rq_parse(data@) == Err::<(nat, bool), HtpStatus>(e) } { unimplemented!() }
    #[verifier::external_body] pub fn parse_response_headers<'a>(&mut self, data: &'a [u8]) -> (r: Result<(&'a [u8], bool)>)
        ensures final(self).kept(old(self)), r is Ok ==> r->Ok_0.0@.len() <= data@.len() && r->Ok_0.0@ == data@.skip(data@.len() - r->Ok_0.0@.len()), r is Ok && old(self).rst() is Some ==> final(self).rst() is Some,
            match r { Ok((a, b)) => old(self).rs_parse(data@) == Ok::<(nat, bool), HtpStatus>((a@.len(), b)), Err(e) => old(self).rs_parse(data@) == Err::<(nat, bool), HtpStatus>(e) } { unimplemented!() }
    /// the line parsers behind the limit check
    #[verifier::external_body] pub fn parse_request_line(&mut self, l: &[u8]) -> (r: Result<()>) ensures final(self).kept(old(self)), final(self).rq@.lines == old(self).rq@.lines.push(l@) { unimplemented!() }
    #[verifier::external_body] pub fn state_request_line(&mut self) -> (r: Result<()>) ensures final(self).kept(old(self)), final(self).rq == old(self).rq { unimplemented!() }
    #[verifier::external_body] pub fn parse_response_line(&mut self, l: &[u8]) -> (r: Result<()>) ensures final(self).kept(old(self)), final(self).rs@.lines == old(self).rs@.lines.push(l@), final(self).rst() is Some == old(self).rst() is Some { unimplemented!() }
    #[verifier::external_body] pub fn state_response_line(&mut self) -> (r: Result<()>) ensures final(self).kept(old(self)), final(self).rs == old(self).rs, r is Ok && old(self).rst() is Some ==> final(self).rst() is Some { unimplemented!() }
    /// a response line that does not look like one is handed on as body data
    #[verifier::external_body] pub fn vx_line_as_body(&mut self, l: &[u8]) -> (r: Result<()>) ensures final(self).kept(old(self)), final(self).rs@.lines == old(self).rs@.lines.push(l@), r is Ok && old(self).rst() is Some ==> final(self).rst() is Some { unimplemented!() }
    #[verifier::external_body] pub fn request_reset(&mut self) ensures final(self).kept(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn state_request_start(&mut self) -> (r: Result<()>) ensures final(self).kept(old(self)) { unimplemented!() }
    /// lines that are skipped (unit lines)
    
    #[verifier::external_body] pub fn vx_ignorable(&self, l: &[u8]) -> (r: bool) ensures r == skipped(self.cfg, l@) { unimplemented!() }
}
pub uninterp spec fn rq_parse<C>(t: Transactions, c: C, d: Seq<u8>) -> Result<(nat, bool)>;
pub uninterp spec fn rs_parse<C>(t: Transactions, c: C, d: Seq<u8>) -> Result<(nat, bool)>;
pub uninterp spec fn skipped<C>(c: C, l: Seq<u8>) -> bool;
#[verifier::external_body] pub fn vx_http_near(d: &[u8]) -> (r: bool) { unimplemented!() }
/*@ fn request.rs::ConnectionParser::request_line_complete
pre: let perso = self . cfg . server_personality ; =>>
pre: is_line_ignorable ( perso , line ) =>> vx_ign
pre: let req = self . request_mut ( ) ; =>> let vx_ign = self.vx_ignorable(line); let req = self.request_mut();
pre: req . request_ignored_lines = __ANY ; =>>
pre: req . request_line = __ANY ; =>>
ret: r
spec:
    requires old(self).request_buf@.len() + line@.len() + old(self).rq_head() <= usize::MAX,
    ensures final(self).kept(old(self)),
        // a line beyond the limit is refused before it is looked at
        line@.len() > 0 && old(self).rq_held() + line@.len() > old(self).cfg.field_limit ==> r == Err::<(), _>(HtpStatus::ERROR) && *final(self) == *old(self),
        line@.len() == 0 ==> r == Err::<(), _>(HtpStatus::DATA) && *final(self) == *old(self),
        // every other line is handed on as it is (its end of line removed)
        line@.len() > 0 && old(self).rq_held() + line@.len() <= old(self).cfg.field_limit && old(self).rqt() is Some && !skipped(old(self).cfg, line@) ==>
            final(self).rq@.lines.len() == old(self).rq@.lines.len() + 1 && chomped(line@, final(self).rq@.lines.last()),
@*/
pub open spec fn chomped(l: Seq<u8>, c: Seq<u8>) -> bool { c.len() <= l.len() && c == l.take(c.len() as int) }
/*@ fn request.rs::ConnectionParser::request_line
start: broadcast use ax_bstr_len; proof { assert(old(input).rest().take(old(input).rest().len() as int) =~= old(input).rest()); }
ret: r
spec:
    requires old(input).wf(), old(input).gap_len is None, old(self).rq_lim(), old(self).request_header is None,
    ensures final(input).wf(), final(self).rq_lim(), final(self).rq_kept(old(self)), final(self).request_header is None, ({
        let closed = old(self).request_status == HtpStreamState::CLOSED;
        let d = old(input).rest(); let n = final(input).position - old(input).position; let l = old(self).request_buf@ + d.take(n); let lim = old(self).cfg.field_limit;
        // a line is complete with its LF, or at the end of the stream: it is what was held followed by the new data
        &&& !no_lf(d) || closed ==> 0 <= n <= d.len() && (if no_lf(d) { n == d.len() } else { line_of(d, d.take(n)) }) && final(self).request_buf@.len() == 0
            && (l.len() > lim ==> r == Err::<(), _>(HtpStatus::ERROR) && final(self).rq == old(self).rq)
            && (0 < l.len() <= lim && old(self).rqt() is Some && !skipped(old(self).cfg, l) ==> final(self).rq@.lines.len() == old(self).rq@.lines.len() + 1 && chomped(l, final(self).rq@.lines.last()))
        // otherwise all of it is held, or the stream fails
        &&& no_lf(d) && !closed ==> r is Err && (if d.len() == 0 || old(self).request_buf@.len() + d.len() <= lim { r == Err::<(), _>(HtpStatus::DATA_BUFFER) && final(self).request_buf@ == old(self).request_buf@ + d && n == d.len() }
            else { r == Err::<(), _>(HtpStatus::ERROR) && *final(self) == *old(self) && n == 0 })
    }),
@*/
/*@ fn request.rs::ConnectionParser::request_headers
start: broadcast use ax_bstr_len; proof { assert((seq![] + old(input).rest()) =~= old(input).rest()); }
pre: req . request_header_parser . set_complete ( true ) ; =>>
pre: remaining . starts_with ( b"\r\n" ) =>> vx_starts(remaining, &[13u8, 10])
pre: remaining . starts_with ( b"\n" ) =>> vx_starts(remaining, &[10u8])
ret: r
spec:
    requires old(input).wf(), old(input).gap_len is None, old(self).rq_lim(), old(self).request_buf@.len() == 0,
    ensures final(input).wf(), final(self).rq_lim(), final(self).rq_kept(old(self)), final(self).request_buf@.len() == 0, ({
        let d = old(input).rest(); let h = held(old(self).request_header); let s = h + d; let p = old(self).rq_parse(s); let m = (p->Ok_0).0;
        let eol = m == s.len() && (starts(s, seq![13u8, 10]) || starts(s, seq![10u8]));
        // the parser is given what was held followed by the new data; what it leaves over is held, if within the limit
        &&& old(self).request_status != HtpStreamState::CLOSED && p is Ok && !(p->Ok_0).1 && !eol ==> (if m == 0 || m <= old(self).cfg.field_limit { r == Err::<(), _>(HtpStatus::DATA_BUFFER) && final(self).request_header is Some && m <= s.len() && final(self).request_header->0@ == s.skip(s.len() - m) }
            else { r == Err::<(), _>(HtpStatus::ERROR) && final(self).request_header is None }) && final(input).position == old(input).total()
        &&& !(old(self).request_status != HtpStreamState::CLOSED && p is Ok && !(p->Ok_0).1 && !eol) && (old(self).request_status != HtpStreamState::CLOSED || r is Ok) ==> final(self).request_header is None
    }),
@*/
pub open spec fn held(h: Option<Bstr>) -> Seq<u8> { match h { Some(b) => b@, None => seq![] } }
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.take(p.len() as int) =~= p }
/*@ fn request.rs::ConnectionParser::request_connect_probe_data
start: broadcast use ax_bstr_len;
pre: tuple ( ( take_is_space , take_not_is_space ) ) ( __ANY ) =>> vx_word(buffered.as_slice())
pre: HtpMethod :: new ( method ) == HtpMethod :: UNKNOWN =>> vx_unknown(method)
ret: r
spec:
    requires old(input).wf(), old(input).gap_len is None, old(self).rq_lim(),
    ensures final(input).wf(), final(self).rq_lim(), final(self).rq_kept(old(self)), final(self).request_header == old(self).request_header,
        // what is held stays held, or is joined by all of the data
        final(self).request_buf@ == old(self).request_buf@ || final(self).request_buf@ == old(self).request_buf@ + old(input).rest(),
@*/
/*@ fn request.rs::ConnectionParser::request_idle
ret: r
spec:
    requires old(data).wf(),
    ensures final(self).kept(old(self)), *final(data) == *old(data),
@*/
/*@ fn request.rs::ConnectionParser::request_finalize
start: broadcast use ax_bstr_len;
pre: tuple ( ( take_is_space , take_not_is_space ) ) ( & data ) =>> vx_word(data.as_slice())
pre: HtpMethod :: new ( method ) == HtpMethod :: UNKNOWN =>> vx_unknown(method)
pre: & data [ 0 .. buf_len ] =>> vstd::slice::slice_subrange(data.as_slice(), 0, buf_len)
pre: self . request_body_data ( Some ( & data ) ) =>> self.request_body_data(Some(data.as_slice()))
ret: r
spec:
    requires old(input).wf(), old(self).rq_lim(),
    ensures final(input).wf(), final(self).rq_lim(), final(self).rq_kept(old(self)), final(self).request_header == old(self).request_header,
        // what is held stays held, or is joined by all of the data, or was handed on
        final(self).request_buf@ == old(self).request_buf@ || final(self).request_buf@.len() == 0
            || (r == Err::<(), _>(HtpStatus::DATA_BUFFER) && final(self).request_buf@ == old(self).request_buf@ + old(input).rest() && final(input).position == old(input).total()),
@*/
/*@ fn response.rs::ConnectionParser::response_line_complete
pre: is_line_ignorable ( self . cfg . server_personality , line ) =>> self.vx_ignorable(line)
pre: response_tx . response_ignored_lines = __ANY ; =>>
pre: response_tx . response_line = None ; =>>
pre: response_tx . response_protocol = None ; =>>
pre: response_tx . response_status = None ; =>>
pre: response_tx . response_message = None ; =>>
pre: let nextlen = __ANY ; =>>
pre: let next = & next [ .. nextlen ] ; =>>
pre: for i in 0 .. next . len ( ) - 4 { __ANY } =>> if vx_http_near(next) { return Ok(()); }
pre: self . response_body_data ( Some ( line ) ) ? =>> self.vx_line_as_body(line)?
ret: r
spec:
    requires old(input).wf(), old(self).response_buf@.len() + line@.len() + old(self).rs_head() <= usize::MAX,
    ensures final(self).kept(old(self)), final(input).wf(), final(input).position == old(input).position,
        line@.len() > 0 && old(self).rs_held() + line@.len() > old(self).cfg.field_limit ==> r == Err::<(), _>(HtpStatus::ERROR) && *final(self) == *old(self),
        line@.len() == 0 ==> r == Err::<(), _>(HtpStatus::DATA) && *final(self) == *old(self),
        // every other line is handed on as it is (one that does not look like a response line may be skipped, if what follows does)
        line@.len() > 0 && old(self).rs_held() + line@.len() <= old(self).cfg.field_limit && old(self).rst() is Some && !skipped(old(self).cfg, line@) ==>
            final(self).rs@.lines == old(self).rs@.lines.push(line@) || (r is Ok && as_body(line@) && final(self).rs == old(self).rs && old(input).left() >= 4),
@*/
/*@ fn response.rs::ConnectionParser::response_line
start: broadcast use ax_bstr_len; proof { assert(old(input).rest().take(old(input).rest().len() as int) =~= old(input).rest()); }
pre: input . as_slice ( ) . ends_with ( b"\n" ) =>> vx_ends(input.as_slice(), &[10u8])
ret: r
spec:
    requires old(input).wf(), old(input).gap_len is None, old(self).rs_lim(), old(self).response_header is None,
    ensures final(input).wf(), final(self).rs_lim(), final(self).rs_kept(old(self)), final(self).response_header is None, ({
        let d = old(input).rest(); let n = final(input).position - old(input).position; let l = old(self).response_buf@ + d.take(n); let lim = old(self).cfg.field_limit;
        let whole = old(self).response_status == HtpStreamState::CLOSED || (d.len() > 0 && d.last() == 10);
        // a line is complete with its end of line, or at the end of the stream: it is what was held followed by the new data
        &&& eol_len(d) > 0 || whole ==> n == (if eol_len(d) > 0 { eol_len(d) } else { d.len() as int }) && final(self).response_buf@.len() == 0
            && (l.len() > lim ==> r == Err::<(), _>(HtpStatus::ERROR) && final(self).rs == old(self).rs)
            && (0 < l.len() <= lim && old(self).rst() is Some && !skipped(old(self).cfg, l) ==> final(self).rs@.lines == old(self).rs@.lines.push(l) || (r is Ok && as_body(l) && final(self).rs == old(self).rs))
        &&& eol_len(d) == 0 && !whole ==> r is Err && (if d.len() == 0 || old(self).response_buf@.len() + d.len() <= lim { r == Err::<(), _>(HtpStatus::DATA_BUFFER) && final(self).response_buf@ == old(self).response_buf@ + d && n == d.len() }
            else { r == Err::<(), _>(HtpStatus::ERROR) && *final(self) == *old(self) && n == 0 })
    }),
@*/
/*@ fn response.rs::ConnectionParser::response_headers
start: broadcast use ax_bstr_len; proof { assert((seq![] + old(input).rest()) =~= old(input).rest()); }
pre: resp . response_header_parser . set_complete ( true ) ; =>>
pre: self . cfg . hook_response_trailer . clone ( ) . run_all ( self , response_index ) ? =>> self.vx_trailer_hook()?
pre: remaining . eq ( b"\r\n" ) =>> bytes_eq(remaining, &[13u8, 10])
pre: remaining . eq ( b"\n" ) =>> bytes_eq(remaining, &[10u8])
pre: remaining . starts_with ( b"\r\n" ) =>> vx_starts(remaining, &[13u8, 10])
pre: remaining . starts_with ( b"\n" ) =>> vx_starts(remaining, &[10u8])
pre: let eol_len = __ANY ; =>> let eol_len: usize = vx_eols(remaining);
ret: r
spec:
    requires old(input).wf(), old(input).gap_len is None, old(self).rs_lim(), old(self).response_buf@.len() == 0, old(self).rst() is Some,
    ensures final(input).wf(), final(self).rs_lim(), final(self).rs_kept(old(self)), final(self).response_buf@.len() == 0, ({
        let d = old(input).rest(); let h = held(old(self).response_header); let s = h + d; let p = old(self).rs_parse(s); let m = (p->Ok_0).0;
        let eol = m == s.len() && (starts(s, seq![13u8, 10]) || starts(s, seq![10u8]));
        // the parser is given what was held followed by the new data; what it leaves over is held, if within the limit
        &&& old(self).response_status != HtpStreamState::CLOSED && p is Ok && !(p->Ok_0).1 && !eol ==> (if m == 0 || m <= old(self).cfg.field_limit { r == Err::<(), _>(HtpStatus::DATA_BUFFER) && final(self).response_header is Some && m <= s.len() && final(self).response_header->0@ == s.skip(s.len() - m) }
            else { r == Err::<(), _>(HtpStatus::ERROR) && final(self).response_header is None }) && final(input).position == old(input).total()
        &&& r is Ok ==> final(self).response_header is None
    }),
@*/
/*@ fn response.rs::ConnectionParser::response_finalize
start: broadcast use ax_bstr_len;
pre: treat_response_line_as_body ( & data ) =>> treat_response_line_as_body(data.as_slice())
pre: & data [ 0 .. buf_len ] =>> vstd::slice::slice_subrange(data.as_slice(), 0, buf_len)
pre: response_next_byte . map ( | byte | * byte == b'\n' ) . unwrap_or ( false ) =>> vx_is_lf(response_next_byte)
ret: r
spec:
    requires old(input).wf(), old(self).rs_lim(),
    ensures final(input).wf(), final(self).rs_lim(), final(self).rs_kept(old(self)), final(self).response_header == old(self).response_header,
        final(self).response_buf@ == old(self).response_buf@ || final(self).response_buf@.len() == 0
            || (r == Err::<(), _>(HtpStatus::DATA_BUFFER) && final(self).response_buf@ == old(self).response_buf@ + old(input).rest() && final(input).position == old(input).total()),
@*/
pub fn vx_is_lf(b: Option<&u8>) -> (r: bool) { match b { Some(x) => *x == 10, None => false } }
fn main() {}
}
