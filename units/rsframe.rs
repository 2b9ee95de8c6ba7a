// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include bstr.inc
//@include flags.inc
//@include frame.inc
/// the part of a Content-Type value before the first ';' or blank
pub uninterp spec fn media_type(v: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub fn vx_media_type(v: &Bstr) -> (r: &[u8]) ensures r@ == media_type(v@) { unimplemented!() }
//@include rsframe.inc
// The same function is brought in once per clause of its contract: the solver is much faster on the parts than on the whole.
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
ret: r
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& b is BadLength || b is Ranges ==> r == Err::<(), _>(HtpStatus::ERROR)
            &&& b is Interim ==> r is Ok
            &&& n.told@ == o.told@ + (if b is Interim || b is BadLength || b is Ranges { 0nat } else { 1nat })
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
sig: pub fn response_body_determine_1(&mut self, input: &mut ParserData) -> (r: Result<()>)
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& n.response_state == next(t, o.response_state)
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
sig: pub fn response_body_determine_2(&mut self, input: &mut ParserData) -> (r: Result<()>)
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& n.response_status == (if b is Switch { HtpStreamState::TUNNEL } else { o.response_status })
            &&& n.response_data_other_at_tx_end == (o.response_data_other_at_tx_end || (is_connect(t) && !connected(t) && code(t) != 407))
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
sig: pub fn response_body_determine_3(&mut self, input: &mut ParserData) -> (r: Result<()>)
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& n.request_status == request_goes(&o, t)
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
sig: pub fn response_body_determine_4(&mut self, input: &mut ParserData) -> (r: Result<()>)
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& n.request_state == (if body_refused(&o, t) && !connected(t) { State::FINALIZE } else { o.request_state })
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
sig: pub fn response_body_determine_5(&mut self, input: &mut ParserData) -> (r: Result<()>)
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& n.response_content_length == (if b is Length || b is BadLength { len(t) } else { o.response_content_length })
            &&& n.response_body_data_left == (if b is Length || b is BadLength { len(t) } else if b is Close { None } else { o.response_body_data_left })
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
sig: pub fn response_body_determine_6(&mut self, input: &mut ParserData) -> (r: Result<()>)
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& u.response_transfer_coding == coding(t)
            &&& u.response_progress == progress(t)
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
sig: pub fn response_body_determine_7(&mut self, input: &mut ParserData) -> (r: Result<()>)
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& u.response_content_length == (if b is Length || b is BadLength { len(t) } else { t.response_content_length })
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
sig: pub fn response_body_determine_8(&mut self, input: &mut ParserData) -> (r: Result<()>)
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& u.flags == (if smuggling(t) { t.flags | HtpFlags::REQUEST_SMUGGLING } else { t.flags })
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
sig: pub fn response_body_determine_9(&mut self, input: &mut ParserData) -> (r: Result<()>)
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& u.seen_100continue == (t.seen_100continue || b is Interim)
            &&& (if b is Interim { u.response_headers.none() } else { u.response_headers == t.response_headers })
            &&& u.request_method_number == t.request_method_number && u.response_status_number == t.response_status_number && u.request_headers == t.request_headers
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_body_determine
attr: #[verifier::spinoff_prover]
sig: pub fn response_body_determine_10(&mut self, input: &mut ParserData) -> (r: Result<()>)
pre: . get_nocase_nozero ( "content-length" ) . cloned ( ) =>> .vx_get_cloned("content-length")
pre: . get_nocase_nozero ( "transfer-encoding" ) . cloned ( ) =>> .vx_get_cloned("transfer-encoding")
pre: , Some ( & mut self . logger ) =>>
pre: upgrade . value . index_of_nocase_nozero ( "h2c" ) =>> vx_index_of_nocase_nozero(&upgrade.value, "h2c")
pre: response_tx . response_headers . elements . clear ( ) =>> response_tx.response_headers.vx_clear()
pre: self . request_content_length > Some ( 0 ) =>> vx_gt0(self.request_content_length)
pre: self . request_body_data_left == self . request_content_length =>> vx_eq(self.request_body_data_left, self.request_content_length)
pre: if let Ok ( ( _ , ct ) ) = streaming_take_till :: < _ , _ , ( & [ u8 ] , ErrorKind ) > ( | c | __ANY ) ( & ct . value , ) { ct } else { & ct . value } =>> vx_media_type(&ct.value)
pre: te . value . index_of_nocase_nozero ( "chunked" ) . and ( Some ( te ) ) =>> if vx_index_of_nocase_nozero(&te.value, "chunked").is_some() { Some(te) } else { None }
pre: te . value . cmp_nocase ( "chunked" ) != Ordering :: Equal =>> !vx_same_nocase(&te.value, "chunked")
pre: response_tx . response_protocol_number < HtpProtocol :: V1_1 =>> vx_lt(response_tx.response_protocol_number, HtpProtocol::V1_1)
pre: ( * cl . value ) . as_slice ( ) =>> cl.value.as_slice()
closure 0 args: upgrade: &Header
closure 0: -> (b: bool) ensures b == holds_nocase_nozero(upgrade.value@, n_h2c())
closure 1 args: cl: &Header
closure 1: -> (x: Option<u64>) ensures x == content_length(cl.value@)
closure 2 args: te: Header
closure 2: -> (x: Option<Header>) ensures x == (if holds_nocase_nozero(te.value@, n_chunked()) { Some(te) } else { None })
start: proof { lemma_names(); }
spec:
    requires old(self).response_state == State::BODY_DETERMINE,
    ensures
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> final(self).rst() is Some && ({
            let o = *old(self); let n = *final(self); let t = o.rst()->0; let u = n.rst()->0; let b = body(t);
            &&& u.is_http_2_upgrade == (t.is_http_2_upgrade || (!connected(t) && code(t) == 101 && t.response_headers.first(n_up()) is Some && holds_nocase_nozero(t.response_headers.first(n_up())->0.value@, n_h2c())))
        }),
@*/
}
fn main() {}
