// ---- handing body data to the application ----
/*@ item transaction.rs::Data
fields: data
@*/
pub open spec fn somes(s: Seq<u8>) -> Seen { Seq::new(s.len(), |k: int| Some(s[k])) }
pub open spec fn nones(n: nat) -> Seen { Seq::new(n, |k: int| None) }
impl<'a> ParserData<'a> {
    /// what a callback that is given this data sees
    pub open spec fn seen(&self) -> Seen { if self.gap_len is Some { nones(self.left()) } else { somes(self.rest()) } }
}
impl<'a> Data<'a> {
    /// Data::new(tx, data): the transaction pointer is not modelled
    pub fn new(data: &'a ParserData<'a>) -> (r: Data<'a>) ensures r.data == data { Data { data } }
    /// d.data().is_null(): null exactly when there is no data (the end notice, or a gap)
    #[verifier::external_body] pub fn vx_null(&self) -> (r: bool) requires self.data.wf() ensures r == self.data.data is None { unimplemented!() }
}
/*@ fn transaction.rs::Data::len
ret: r
spec:
    requires self.data.wf(),
    ensures r == self.data.left(),
@*/
/*@ fn transaction.rs::Data::is_empty
ret: r
spec:
    requires self.data.wf(),
    ensures r == (self.data.left() == 0),
@*/
// The callbacks: the application's code, assumed to leave the parser alone. `refused` records that one of them refused.
pub open spec fn heard(o: Told, d: ParserData, tx: bool) -> Told {
    if tx { Told { tx: o.tx + d.seen(), ..o } } else { Told { cfg: o.cfg + d.seen(), ends: o.ends + (if d.left() == 0 { 1nat } else { 0nat }), ..o } }
}
#[verifier::external_body] pub fn vx_rq_hook(c: &mut ConnectionParser, d: &Data, tx: Ghost<bool>) -> (r: Result<()>)
    ensures r is Ok ==> *final(c) == (ConnectionParser { rq: Ghost(heard(old(c).rq@, *d.data, tx@)), ..*old(c) }),
        r is Err ==> final(c).refused@ && *final(c) == (ConnectionParser { refused: Ghost(true), rq: final(c).rq, ..*old(c) }) { unimplemented!() }
#[verifier::external_body] pub fn vx_rs_hook(c: &mut ConnectionParser, d: &Data, tx: Ghost<bool>) -> (r: Result<()>)
    ensures r is Ok ==> *final(c) == (ConnectionParser { rs: Ghost(heard(old(c).rs@, *d.data, tx@)), ..*old(c) }),
        r is Err ==> final(c).refused@ && *final(c) == (ConnectionParser { refused: Ghost(true), rs: final(c).rs, ..*old(c) }) { unimplemented!() }
/*@ fn request.rs::ConnectionParser::request_run_hook_body_data
pre: d . data ( ) . is_null ( ) =>> d.vx_null()
pre: req . hook_request_body_data . clone ( ) . run_all ( self , d ) =>> vx_rq_hook(self, d, Ghost(true))
pre: self . cfg . hook_request_body_data . run_all ( self , d ) =>> vx_rq_hook(self, d, Ghost(false))
ret: r
spec:
    requires old(d).data.wf(), old(self).rqt() is Some, !old(self).refused@,
    ensures
        *final(d) == *old(d), final(self).rqt() == old(self).rqt(), final(self).refused@ == r is Err, r is Ok ==> final(self).refused == old(self).refused,
        *final(self) == (ConnectionParser { rq: final(self).rq, transactions: final(self).transactions, refused: final(self).refused, ..*old(self) }),
        r is Ok ==> final(self).rq@ == (if old(d).data.data is Some && old(d).data.left() == 0 { old(self).rq@ } else { heard(heard(old(self).rq@, *old(d).data, true), *old(d).data, false) }),
@*/
/*@ fn response.rs::ConnectionParser::response_run_hook_body_data
pre: resp . hook_response_body_data . clone ( ) . run_all ( self , d ) =>> vx_rs_hook(self, d, Ghost(true))
pre: self . cfg . hook_response_body_data . run_all ( self , d ) =>> vx_rs_hook(self, d, Ghost(false))
ret: r
spec:
    requires old(d).data.wf(), old(self).rst() is Some, !old(self).refused@,
    ensures
        *final(d) == *old(d), final(self).rst() == old(self).rst(), final(self).refused@ == r is Err, r is Ok ==> final(self).refused == old(self).refused,
        *final(self) == (ConnectionParser { rs: final(self).rs, transactions: final(self).transactions, refused: final(self).refused, ..*old(self) }),
        r is Ok ==> final(self).rs@ == (if old(d).data.left() == 0 { old(self).rs@ } else { heard(heard(old(self).rs@, *old(d).data, true), *old(d).data, false) }),
@*/
// The decompressor (P17): hands what it makes of the data to the callbacks itself; here only what it is given counts.
impl Decompressor {
    #[verifier::external_body] pub fn time_spent(&self) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] pub fn set_passthrough(&mut self, p: bool) { unimplemented!() }
}
impl Options { #[verifier::external_body] pub fn get_time_limit(&self) -> (r: u32) { unimplemented!() } }
pub open spec fn rq_unzipped(n: &ConnectionParser, o: &ConnectionParser, data: Seq<u8>) -> bool {
    &&& *n == (ConnectionParser { rq: Ghost(Told { coded: o.rq@.coded + data, tx: n.rq@.tx, cfg: n.rq@.cfg, ends: n.rq@.ends, ..o.rq@ }), transactions: n.transactions, refused: n.refused, ..*o })
    &&& o.rqt() is Some ==> n.rqt() == Some(Transaction { request_entity_len: n.rqt()->0.request_entity_len, ..o.rqt()->0 })
    &&& o.rqt() is None ==> n.rqt() is None
}
pub open spec fn rs_unzipped(n: &ConnectionParser, o: &ConnectionParser, data: Seq<u8>) -> bool {
    &&& *n == (ConnectionParser { rs: Ghost(Told { coded: o.rs@.coded + data, tx: n.rs@.tx, cfg: n.rs@.cfg, ends: n.rs@.ends, ..o.rs@ }), transactions: n.transactions, refused: n.refused, ..*o })
    &&& o.rst() is Some ==> n.rst() == Some(Transaction { response_entity_len: n.rst()->0.response_entity_len, ..o.rst()->0 })
    &&& o.rst() is None ==> n.rst() is None
}
#[verifier::external_body] pub fn vx_rq_unzip(c: &mut ConnectionParser, z: &mut Decompressor, data: &[u8]) -> (r: core::result::Result<(), ()>)
    ensures rq_unzipped(final(c), old(c), data@), r is Ok ==> final(c).refused == old(c).refused, r is Err ==> final(c).refused@ { unimplemented!() }
#[verifier::external_body] pub fn vx_rq_unzip_end(c: &mut ConnectionParser, z: &mut Decompressor)
    ensures rq_unzipped(final(c), old(c), seq![]), final(c).refused == old(c).refused { unimplemented!() }
#[verifier::external_body] pub fn vx_rs_unzip(c: &mut ConnectionParser, z: &mut Decompressor, data: &[u8]) -> (r: core::result::Result<(), ()>)
    ensures rs_unzipped(final(c), old(c), data@), r is Ok ==> final(c).refused == old(c).refused, r is Err ==> final(c).refused@ { unimplemented!() }
#[verifier::external_body] pub fn vx_rs_unzip_end(c: &mut ConnectionParser, z: &mut Decompressor)
    ensures rs_unzipped(final(c), old(c), seq![]), final(c).refused == old(c).refused { unimplemented!() }
pub open spec fn bytes_of(d: Option<&[u8]>) -> Seq<u8> { match d { Some(b) => b@, None => seq![] } }
pub open spec fn plain(e: HtpContentEncoding) -> bool { e == HtpContentEncoding::NONE }
pub open spec fn coded(e: HtpContentEncoding) -> bool { e == HtpContentEncoding::GZIP || e == HtpContentEncoding::DEFLATE || e == HtpContentEncoding::ZLIB || e == HtpContentEncoding::LZMA }
impl ConnectionParser {
    /// from o to self, `p` was taken as request body data (None: the end): counted, and handed on once
    pub open spec fn rq_took(&self, o: &ConnectionParser, p: Seq<u8>, end: bool) -> bool {
        let t = o.rqt()->0; let u = self.rqt()->0; let n = p.len() as int;
        &&& o.rqt() is Some && self.rqt() is Some
        &&& u == (Transaction { request_message_len: wadd(t.request_message_len, n), request_entity_len: u.request_entity_len, request_decompressor: u.request_decompressor, ..t })
        &&& plain(t.request_content_encoding_processing) ==> u.request_entity_len == wadd(t.request_entity_len, n)
                && self.rq@.tx =~= o.rq@.tx + somes(p) && self.rq@.cfg =~= o.rq@.cfg + somes(p) && self.rq@.coded == o.rq@.coded && self.rq@.raw == o.rq@.raw && self.rq@.ends == o.rq@.ends + (if end { 1nat } else { 0nat })
        &&& !plain(t.request_content_encoding_processing) ==> coded(t.request_content_encoding_processing) && self.rq@.coded =~= o.rq@.coded + p && self.rq@.raw == o.rq@.raw
        &&& !self.refused@ && self.refused == o.refused
    }
    pub open spec fn rs_took(&self, o: &ConnectionParser, p: Seq<u8>) -> bool {
        let t = o.rst()->0; let u = self.rst()->0; let n = p.len() as int;
        &&& o.rst() is Some && self.rst() is Some
        &&& u == (Transaction { response_message_len: wadd(t.response_message_len, n), response_entity_len: u.response_entity_len, response_decompressor: u.response_decompressor, ..t })
        &&& plain(t.response_content_encoding_processing) ==> u.response_entity_len == wadd(t.response_entity_len, n)
                && self.rs@.tx =~= o.rs@.tx + somes(p) && self.rs@.cfg =~= o.rs@.cfg + somes(p) && self.rs@.coded == o.rs@.coded && self.rs@.raw == o.rs@.raw && self.rs@.ends == o.rs@.ends
        &&& !plain(t.response_content_encoding_processing) ==> coded(t.response_content_encoding_processing) && self.rs@.coded =~= o.rs@.coded + p && self.rs@.raw == o.rs@.raw
        &&& !self.refused@ && self.refused == o.refused
    }
    pub open spec fn rq_only(&self, o: &ConnectionParser) -> bool { *self == (ConnectionParser { rq: self.rq, transactions: self.transactions, refused: self.refused, ..*o }) }
    pub open spec fn rs_only(&self, o: &ConnectionParser) -> bool { *self == (ConnectionParser { rs: self.rs, transactions: self.transactions, refused: self.refused, ..*o }) }
}
/*@ config
pre: ParserData :: from ( data ) =>> ParserData::from_opt(data)
pre: ParserData :: from ( bytes_to_consume ) =>> ParserData::from_gap(bytes_to_consume)
pre: ParserData :: from ( bytes_to_consume as usize ) =>> ParserData::from_gap(bytes_to_consume as usize)
pre: decompressor . time_spent ( ) > self . cfg . compression_options . get_time_limit ( ) as u64 =>> vx_slow(&decompressor)
@*/
pub assume_specification<T> [core::option::Option::<T>::replace] (_0: &mut Option<T>, _1: T) -> (r: Option<T>) ensures *final(_0) == Some(_1), r == *old(_0);
#[verifier::external_body] pub fn vx_slow(z: &Decompressor) -> bool { unimplemented!() }
/*@ fn request.rs::ConnectionParser::request_body_data
pre: decompressor . decompress ( data ) =>> vx_rq_unzip(self, &mut decompressor, data)
pre: decompressor . finish ( ) =>> vx_rq_unzip_end(self, &mut decompressor)
pre: req . request_entity_len += __ANY ; =>> req.request_entity_len = req.request_entity_len.wrapping_add(__ANY);
pre: Data :: new ( req , & data ) =>> Data::new(&data)
ret: r
spec:
    requires !old(self).refused@,
    ensures
        final(self).rq_only(old(self)),
        r is Ok ==> final(self).rq_took(old(self), bytes_of(data), data is None),
        r is Err ==> final(self).refused@ || r == Err::<(), _>(HtpStatus::ERROR),
@*/
/*@ fn response.rs::ConnectionParser::response_body_data
pre: decompressor . decompress ( data ) =>> vx_rs_unzip(self, &mut decompressor, data)
pre: decompressor . finish ( ) =>> vx_rs_unzip_end(self, &mut decompressor)
pre: Data :: new ( resp , & data ) =>> Data::new(&data)
ret: r
spec:
    requires !old(self).refused@,
    ensures
        final(self).rs_only(old(self)),
        r is Ok ==> final(self).rs_took(old(self), bytes_of(data)),
        r is Err ==> final(self).refused@ || r == Err::<(), _>(HtpStatus::ERROR),
@*/
