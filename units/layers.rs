// verus: --smt-option smt.case_split=0
#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug htp_log
@*/
//@include base.inc
//@include bstr.inc
//@include split.inc
/*@ item decompressors.rs::HtpContentEncoding
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item lib.rs::HtpStatus
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
pub type Result<T> = core::result::Result<T, HtpStatus>;
/*@ item transaction.rs::Header
@*/
// the header table: the first header of that name, up to case and NULs (contract proved in unit names)
#[verifier::external_body] pub struct Headers { _0: u8 }
impl Headers {
    pub uninterp spec fn first(&self, name: Seq<u8>) -> Option<Header>;
    // get_nocase_nozero(..).map(|val| val.value.clone())
    #[verifier::external_body] pub fn vx_value(&self, key: &[u8]) -> (r: Option<Bstr>)
        ensures r is Some == self.first(key@) is Some, r is Some ==> r->0@ == self.first(key@)->0.value@ { unimplemented!() }
}
// values: contracts proved in unit names
pub uninterp spec fn same_nocase_nozero(v: Seq<u8>, n: Seq<u8>) -> bool;
pub uninterp spec fn holds_nocase(v: Seq<u8>, n: Seq<u8>) -> bool;
// a.cmp_nocase_nozero(b) == Ordering::Equal, a.cmp_slice(b) == Ordering::Equal
#[verifier::external_body] pub fn vx_same(a: &Bstr, b: &[u8]) -> (r: bool) ensures r == same_nocase_nozero(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_is(a: &Bstr, b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
impl Bstr {
    #[verifier::external_body] pub fn index_of_nocase(&self, n: &[u8]) -> (r: Option<usize>) ensures r is Some == holds_nocase(self@, n@) { unimplemented!() }
}
// the options' getters (contracts proved in unit cfg)
#[verifier::external_body] pub struct Options { _0: u8 }
impl Options {
    pub uninterp spec fn layers(&self) -> Option<u32>;
    pub uninterp spec fn lzma(&self) -> Option<u32>;
    #[verifier::external_body] pub fn get_layer_limit(&self) -> (r: Option<u32>) ensures r == self.layers() { unimplemented!() }
    #[verifier::external_body] pub fn get_lzma_layers(&self) -> (r: Option<u32>) ensures r == self.lzma() { unimplemented!() }
    #[verifier::external_body] pub fn vx_copy(&self) -> (r: Options) ensures r == *self { unimplemented!() }
}
/// a chain of decoders; layers(): the first one gets the body, each hands its output to the next, the last one to the callbacks
#[verifier::external_body] pub struct Decompressor { _0: u8 }
pub open spec fn coded(e: HtpContentEncoding) -> bool { e == HtpContentEncoding::GZIP || e == HtpContentEncoding::DEFLATE || e == HtpContentEncoding::ZLIB || e == HtpContentEncoding::LZMA }
impl Decompressor {
    pub uninterp spec fn layers(&self) -> Seq<HtpContentEncoding>;
    #[verifier::external_body] pub fn prepend(self, e: HtpContentEncoding, o: Options) -> (r: Result<Decompressor>)
        ensures coded(e) ==> r is Ok && r->Ok_0.layers() == seq![e] + self.layers() { unimplemented!() }
}
// Decompressor::new_with_callback(encoding, the callback of this direction, options)
#[verifier::external_body] pub fn vx_first_layer(e: HtpContentEncoding) -> (r: Result<Decompressor>) ensures coded(e) ==> r is Ok && r->Ok_0.layers() == seq![e] { unimplemented!() }
pub assume_specification<T> [core::option::Option::<T>::replace] (_0: &mut Option<T>, _1: T) -> (r: Option<T>) ensures *final(_0) == Some(_1), r == *old(_0);
/*@ item transaction.rs::Transaction
fields: request_headers, response_headers, request_content_encoding, response_content_encoding, request_content_encoding_processing, response_content_encoding_processing, request_decompressor, response_decompressor
@*/
/*@ item config.rs::Config
fields: compression_options, request_decompression_enabled, response_decompression_enabled
@*/
/*@ item connection_parser.rs::ConnectionParser
fields: cfg, transactions
subst: cfg : Rc < Config > =>> cfg: Config
subst: cfg : & 'static Config =>> cfg: Config
@*/
#[verifier::external_body] pub struct Transactions { _0: u8 }
impl Transactions { pub uninterp spec fn rq(&self) -> Option<Transaction>; pub uninterp spec fn rs(&self) -> Option<Transaction>; }
impl ConnectionParser {
    pub open spec fn rqt(&self) -> Option<Transaction> { self.transactions.rq() }
    pub open spec fn rst(&self) -> Option<Transaction> { self.transactions.rs() }
    #[verifier::external_body] pub fn request_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rqt() == Some(*t) && final(self).rqt() == Some(*final(t)), None => old(self).rqt() is None && final(self).rqt() is None } { unimplemented!() }
    #[verifier::external_body] pub fn response_mut(&mut self) -> (r: Option<&mut Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rst() == Some(*t) && final(self).rst() == Some(*final(t)), None => old(self).rst() is None && final(self).rst() is None } { unimplemented!() }
    #[verifier::external_body] pub fn request(&mut self) -> (r: Option<&Transaction>)
        ensures *final(self) == (ConnectionParser { transactions: final(self).transactions, ..*old(self) }),
            match r { Some(t) => old(self).rqt() == Some(*t) && final(self).rqt() == Some(*t), None => old(self).rqt() is None && final(self).rqt() is None } { unimplemented!() }
}
// ---- the rule --------------------------------------------------------------------------------
pub open spec fn n_ce() -> Seq<u8> { seq![99u8, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103] }
pub open spec fn n_gzip() -> Seq<u8> { seq![103u8, 122, 105, 112] }
pub open spec fn n_xgzip() -> Seq<u8> { seq![120u8, 45, 103, 122, 105, 112] }
pub open spec fn n_deflate() -> Seq<u8> { seq![100u8, 101, 102, 108, 97, 116, 101] }
pub open spec fn n_xdeflate() -> Seq<u8> { seq![120u8, 45, 100, 101, 102, 108, 97, 116, 101] }
pub open spec fn n_lzma() -> Seq<u8> { seq![108u8, 122, 109, 97] }
pub open spec fn n_inflate() -> Seq<u8> { seq![105u8, 110, 102, 108, 97, 116, 101] }
pub open spec fn n_none() -> Seq<u8> { seq![110u8, 111, 110, 101] }
proof fn lemma_names() ensures
    n_ce() =~= [99u8, 111u8, 110u8, 116u8, 101u8, 110u8, 116u8, 45u8, 101u8, 110u8, 99u8, 111u8, 100u8, 105u8, 110u8, 103u8]@,
    n_gzip() =~= [103u8, 122u8, 105u8, 112u8]@, n_xgzip() =~= [120u8, 45u8, 103u8, 122u8, 105u8, 112u8]@,
    n_deflate() =~= [100u8, 101u8, 102u8, 108u8, 97u8, 116u8, 101u8]@, n_xdeflate() =~= [120u8, 45u8, 100u8, 101u8, 102u8, 108u8, 97u8, 116u8, 101u8]@,
    n_lzma() =~= [108u8, 122u8, 109u8, 97u8]@, n_inflate() =~= [105u8, 110u8, 102u8, 108u8, 97u8, 116u8, 101u8]@, n_none() =~= [110u8, 111u8, 110u8, 101u8]@,
{}
/// a value that is one known coding
pub open spec fn single(v: Seq<u8>) -> Option<HtpContentEncoding> {
    if same_nocase_nozero(v, n_gzip()) || same_nocase_nozero(v, n_xgzip()) { Some(HtpContentEncoding::GZIP) }
    else if same_nocase_nozero(v, n_deflate()) || same_nocase_nozero(v, n_xdeflate()) { Some(HtpContentEncoding::DEFLATE) }
    else if same_nocase_nozero(v, n_lzma()) { Some(HtpContentEncoding::LZMA) }
    else if same_nocase_nozero(v, n_inflate()) || same_nocase_nozero(v, n_none()) { Some(HtpContentEncoding::NONE) }
    else { None }
}
/// a word of a list of codings
pub open spec fn word(v: Seq<u8>) -> HtpContentEncoding {
    if holds_nocase(v, n_gzip()) { HtpContentEncoding::GZIP } else if holds_nocase(v, n_deflate()) { HtpContentEncoding::DEFLATE } else if v == n_lzma() { HtpContentEncoding::LZMA } else { HtpContentEncoding::NONE }
}
pub open spec fn blank() -> spec_fn(u8) -> bool { |c: u8| c == 44 || c == 32 }
pub open spec fn over(n: int, limit: Option<u32>) -> bool { limit is Some && n > limit->0 }
/// The decoders for the words of a list, each put before those of the words before it; n words and z LZMA layers came
/// already. It ends at the first word beyond a limit: for LZMA in responses the limit is on the LZMA layers, in requests on
/// the position of the word.
pub open spec fn chain(w: Seq<Seq<u8>>, n: int, z: int, acc: Seq<HtpContentEncoding>, o: Options, rs: bool) -> Seq<HtpContentEncoding> decreases w.len() {
    if w.len() == 0 { acc } else {
        let t = w[0]; let rest = w.subrange(1, w.len() as int);
        let lz = word(t) == HtpContentEncoding::LZMA;
        if t.len() == 0 { chain(rest, n, z, acc, o, rs) }
        else if over(n + 1, o.layers()) { acc }
        else if lz && over(if rs { z + 1 } else { n + 1 }, o.lzma()) { acc }
        else { chain(rest, n + 1, if lz { z + 1 } else { z }, if word(t) == HtpContentEncoding::NONE { acc } else { seq![word(t)] + acc }, o, rs) }
    }
}
pub open spec fn of(d: Option<Decompressor>) -> Seq<HtpContentEncoding> { match d { Some(z) => z.layers(), None => seq![] } }
/// the decoders of a message with these headers
pub open spec fn decoders(h: Headers, on: bool, acc: Seq<HtpContentEncoding>, o: Options, rs: bool) -> Seq<HtpContentEncoding> {
    let ce = h.first(n_ce());
    if !on || ce is None { acc } else {
        match single(ce->0.value@) { Some(e) => if coded(e) { seq![e] + acc } else { acc }, None => chain(split_at(ce->0.value@, blank()), 0, 0, acc, o, rs) }
    }
}
pub open spec fn named(h: Headers) -> HtpContentEncoding { match h.first(n_ce()) { Some(v) => match single(v.value@) { Some(e) => e, None => HtpContentEncoding::NONE }, None => HtpContentEncoding::NONE } }
pub open spec fn lzmas(s: Seq<HtpContentEncoding>) -> int decreases s.len() { if s.len() == 0 { 0 } else { (if s[0] == HtpContentEncoding::LZMA { 1int } else { 0 }) + lzmas(s.subrange(1, s.len() as int)) } }
proof fn lemma_push(e: HtpContentEncoding, s: Seq<HtpContentEncoding>)
    ensures lzmas(seq![e] + s) == lzmas(s) + (if e == HtpContentEncoding::LZMA { 1int } else { 0 }), (seq![e] + s).len() == s.len() + 1
{ assert((seq![e] + s).subrange(1, s.len() as int + 1) =~= s); }
proof fn lemma_chain(w: Seq<Seq<u8>>, n: int, z: int, acc: Seq<HtpContentEncoding>, o: Options, rs: bool)
    requires acc.len() <= n, lzmas(acc) <= z, z <= n,
    ensures ({ let r = chain(w, n, z, acc, o, rs);
        &&& r.len() <= acc.len() || !over(r.len() as int, o.layers())
        &&& lzmas(r) <= lzmas(acc) || !over(lzmas(r), o.lzma()) }),
    decreases w.len(),
{
    if w.len() > 0 {
        let t = w[0]; let rest = w.subrange(1, w.len() as int);
        let lz = word(t) == HtpContentEncoding::LZMA;
        if t.len() == 0 { lemma_chain(rest, n, z, acc, o, rs); }
        else if over(n + 1, o.layers()) || (lz && over(if rs { z + 1 } else { n + 1 }, o.lzma())) {}
        else {
            lemma_push(word(t), acc);
            lemma_chain(rest, n + 1, if lz { z + 1 } else { z }, if word(t) == HtpContentEncoding::NONE { acc } else { seq![word(t)] + acc }, o, rs);
        }
    }
}
/// The property: no list of codings makes more decoders, or more LZMA decoders, than configured.
proof fn lemma_limits(h: Headers, on: bool, o: Options, rs: bool)
    ensures ({ let r = decoders(h, on, seq![], o, rs);
        &&& r.len() <= 1 || !over(r.len() as int, o.layers())
        &&& lzmas(r) <= 1 || !over(lzmas(r), o.lzma()) }),
{
    reveal_with_fuel(lzmas, 3);
    if h.first(n_ce()) is Some { lemma_chain(split_at(h.first(n_ce())->0.value@, blank()), 0, 0, seq![], o, rs); 
      if single(h.first(n_ce())->0.value@) is Some { lemma_push(single(h.first(n_ce())->0.value@)->0, seq![]); } }
}
proof fn lemma_count(s: Seq<u8>, p: spec_fn(u8) -> bool) ensures split_at(s, p).len() <= s.len() + 1 decreases s.len() {
    spl::lemma_first(s, p); let k = spl::first(s, p);
    if k < s.len() { lemma_count(s.subrange(k + 1, s.len() as int), p); }
}
/*@ config
pre: self . cfg . compression_options ; =>> self.cfg.compression_options.vx_copy();
pre: . get_nocase_nozero ( "content-encoding" ) . map ( __ANY ) =>> .vx_value("content-encoding")
pre: ce . cmp_nocase_nozero ( b"gzip" ) == Ordering :: Equal =>> vx_same(ce, b"gzip")
pre: ce . cmp_nocase_nozero ( b"x-gzip" ) == Ordering :: Equal =>> vx_same(ce, b"x-gzip")
pre: ce . cmp_nocase_nozero ( b"deflate" ) == Ordering :: Equal =>> vx_same(ce, b"deflate")
pre: ce . cmp_nocase_nozero ( b"x-deflate" ) == Ordering :: Equal =>> vx_same(ce, b"x-deflate")
pre: ce . cmp_nocase_nozero ( b"lzma" ) == Ordering :: Equal =>> vx_same(ce, b"lzma")
pre: ce . cmp_nocase_nozero ( b"inflate" ) == Ordering :: Equal =>> vx_same(ce, b"inflate")
pre: ce . cmp_nocase_nozero ( b"none" ) == Ordering :: Equal =>> vx_same(ce, b"none")
pre: encoding . cmp_slice ( b"gzip" ) == Ordering :: Equal =>> vx_is(&encoding, b"gzip")
pre: encoding . cmp_slice ( b"x-gzip" ) == Ordering :: Equal =>> vx_is(&encoding, b"x-gzip")
pre: encoding . cmp_slice ( b"deflate" ) == Ordering :: Equal =>> vx_is(&encoding, b"deflate")
pre: encoding . cmp_slice ( b"x-deflate" ) == Ordering :: Equal =>> vx_is(&encoding, b"x-deflate")
pre: encoding . cmp_slice ( b"lzma" ) == Ordering :: Equal =>> vx_is(&encoding, b"lzma")
pre: encoding . cmp_slice ( b"inflate" ) == Ordering :: Equal =>> vx_is(&encoding, b"inflate")
pre: encoding . cmp_slice ( b"none" ) == Ordering :: Equal =>> vx_is(&encoding, b"none")
pre: for encoding in ce . split ( __ANY ) { __ANYB } =>> let __v = vx_split(ce.as_slice(), __ANY); let mut __i: usize = 0; while __i < __v.len() { let encoding: &[u8] = __v[__i]; __i += 1; __ANYB }
@*/
/*@ fn request.rs::ConnectionParser::request_prepend_decompressor
pre: let connp_ptr : * mut ConnectionParser = self as * mut ConnectionParser ; =>>
pre: unsafe { Decompressor :: new_with_callback ( encoding , __ANY , compression_options , ) ? } =>> vx_first_layer(encoding)?
ret: r
spec:
    requires old(self).rqt() is Some, encoding != HtpContentEncoding::ERROR,
    ensures
        r is Ok, final(self).cfg == old(self).cfg, final(self).rqt() is Some, ({
            let t = old(self).rqt()->0; let u = final(self).rqt()->0;
            let on = encoding != HtpContentEncoding::NONE;
            &&& u == (Transaction { request_decompressor: u.request_decompressor, request_content_encoding_processing: if on && t.request_decompressor is None { encoding } else { t.request_content_encoding_processing }, ..t })
            &&& on ==> u.request_decompressor is Some && of(u.request_decompressor) =~= seq![encoding] + of(t.request_decompressor)
            &&& !on ==> u.request_decompressor == t.request_decompressor
        }),
@*/
/*@ fn response.rs::ConnectionParser::response_prepend_decompressor
pre: let connp_ptr = self as * mut Self ; =>>
pre: unsafe { Decompressor :: new_with_callback ( encoding , __ANY , compression_options , ) ? } =>> vx_first_layer(encoding)?
ret: r
spec:
    requires old(self).rst() is Some, encoding != HtpContentEncoding::ERROR,
    ensures
        r is Ok, final(self).cfg == old(self).cfg, final(self).rst() is Some, ({
            let t = old(self).rst()->0; let u = final(self).rst()->0;
            let on = encoding != HtpContentEncoding::NONE;
            &&& u == (Transaction { response_decompressor: u.response_decompressor, response_content_encoding_processing: if on && t.response_decompressor is None { encoding } else { t.response_content_encoding_processing }, ..t })
            &&& on ==> u.response_decompressor is Some && of(u.response_decompressor) =~= seq![encoding] + of(t.response_decompressor)
            &&& !on ==> u.response_decompressor == t.response_decompressor
        }),
@*/
/*@ fn request.rs::ConnectionParser::request_initialize_decompressors
closures: pure
ret: r
spec:
    requires
        // a header value is shorter than 4 GB
        old(self).rqt() is Some ==> (old(self).rqt()->0.request_headers.first(n_ce()) is Some ==> old(self).rqt()->0.request_headers.first(n_ce())->0.value@.len() < u32::MAX),
    ensures
        final(self).cfg == old(self).cfg,
        old(self).rqt() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rqt() is Some ==> r is Ok && final(self).rqt() is Some && ({
            let t = old(self).rqt()->0; let u = final(self).rqt()->0;
            let d = decoders(t.request_headers, old(self).cfg.request_decompression_enabled, of(t.request_decompressor), old(self).cfg.compression_options, false);
            &&& u == (Transaction { request_content_encoding: named(t.request_headers), request_content_encoding_processing: u.request_content_encoding_processing, request_decompressor: u.request_decompressor, ..t })
            &&& of(u.request_decompressor) =~= d
            &&& t.request_decompressor is None ==> u.request_content_encoding_processing == (if d.len() == 0 { HtpContentEncoding::NONE } else { d.last() }) && u.request_decompressor is Some == (d.len() > 0)
        }),
start: proof { lemma_names(); }
loop 0 before: let ghost __w = split_at(ce@, blank()); proof { lemma_count(ce@, blank()); assert(__w.subrange(0, __w.len() as int) =~= __w); } let ghost __t = self.rqt()->0;  let ghost __acc = of(__t.request_decompressor); let ghost __o = self.cfg.compression_options; let ghost mut __z: int = 0;
loop 0:
    invariant_except_break
        chain(__w, 0, 0, __acc, __o, false) == chain(__w.subrange(__i as int, __w.len() as int), layers as int, __z, of(self.rqt()->0.request_decompressor), __o, false),
        layers <= __i as int, 
    invariant
        views(__v@) == __w, __i <= __v@.len(), __w.len() <= u32::MAX, self.rqt() is Some, compression_options == __o,
        self.cfg == old(self).cfg,
        self.rqt()->0 == (Transaction { request_decompressor: self.rqt()->0.request_decompressor, request_content_encoding_processing: self.rqt()->0.request_content_encoding_processing, ..__t }),
        __t.request_decompressor is None ==> self.rqt()->0.request_content_encoding_processing == (if of(self.rqt()->0.request_decompressor).len() == 0 { HtpContentEncoding::NONE } else { of(self.rqt()->0.request_decompressor).last() }) && self.rqt()->0.request_decompressor is Some == (of(self.rqt()->0.request_decompressor).len() > 0),
    ensures
        of(self.rqt()->0.request_decompressor) == chain(__w, 0, 0, __acc, __o, false),
    decreases __v@.len() - __i,
loop 0 start: let ghost __word = word(__v@[__i as int]@); let ghost __d0 = of(self.rqt()->0.request_decompressor); proof { lemma_names(); let v = __w.subrange(__i as int, __w.len() as int); assert(__w[__i as int] == __v@[__i as int]@); assert(v[0] == __v@[__i as int]@); assert(v.subrange(1, v.len() as int) =~= __w.subrange(__i + 1, __w.len() as int)); }
loop 0 end: proof { if __word == HtpContentEncoding::LZMA { __z = __z + 1; } if __word != HtpContentEncoding::NONE && __d0.len() > 0 { assert((seq![__word] + __d0).last() == __d0.last()); } }
@*/
/*@ fn response.rs::ConnectionParser::response_initialize_decompressors
closures: pure
ret: r
spec:
    requires
        // a header value is shorter than 4 GB
        old(self).rst() is Some ==> (old(self).rst()->0.response_headers.first(n_ce()) is Some ==> old(self).rst()->0.response_headers.first(n_ce())->0.value@.len() < u32::MAX),
    ensures
        final(self).cfg == old(self).cfg,
        old(self).rst() is None ==> r == Err::<(), _>(HtpStatus::ERROR),
        old(self).rst() is Some ==> r is Ok && final(self).rst() is Some && ({
            let t = old(self).rst()->0; let u = final(self).rst()->0;
            let d = decoders(t.response_headers, old(self).cfg.response_decompression_enabled, of(t.response_decompressor), old(self).cfg.compression_options, true);
            &&& u == (Transaction { response_content_encoding: named(t.response_headers), response_content_encoding_processing: u.response_content_encoding_processing, response_decompressor: u.response_decompressor, ..t })
            &&& of(u.response_decompressor) =~= d
            &&& t.response_decompressor is None ==> u.response_content_encoding_processing == (if d.len() == 0 { HtpContentEncoding::NONE } else { d.last() }) && u.response_decompressor is Some == (d.len() > 0)
        }),
start: proof { lemma_names(); }
loop 0 before: let ghost __w = split_at(ce@, blank()); proof { lemma_count(ce@, blank()); assert(__w.subrange(0, __w.len() as int) =~= __w); } let ghost __t = self.rst()->0;  let ghost __acc = of(__t.response_decompressor); let ghost __o = self.cfg.compression_options; let ghost mut __z: int = 0;
loop 0:
    invariant_except_break
        chain(__w, 0, 0, __acc, __o, true) == chain(__w.subrange(__i as int, __w.len() as int), layers as int, __z, of(self.rst()->0.response_decompressor), __o, true),
        layers <= __i as int, lzma_layers == __z, __z <= layers,
    invariant
        views(__v@) == __w, __i <= __v@.len(), __w.len() <= u32::MAX, self.rst() is Some, compression_options == __o,
        self.cfg == old(self).cfg,
        self.rst()->0 == (Transaction { response_decompressor: self.rst()->0.response_decompressor, response_content_encoding_processing: self.rst()->0.response_content_encoding_processing, ..__t }),
        __t.response_decompressor is None ==> self.rst()->0.response_content_encoding_processing == (if of(self.rst()->0.response_decompressor).len() == 0 { HtpContentEncoding::NONE } else { of(self.rst()->0.response_decompressor).last() }) && self.rst()->0.response_decompressor is Some == (of(self.rst()->0.response_decompressor).len() > 0),
    ensures
        of(self.rst()->0.response_decompressor) == chain(__w, 0, 0, __acc, __o, true),
    decreases __v@.len() - __i,
loop 0 start: let ghost __word = word(__v@[__i as int]@); let ghost __d0 = of(self.rst()->0.response_decompressor); proof { lemma_names(); let v = __w.subrange(__i as int, __w.len() as int); assert(__w[__i as int] == __v@[__i as int]@); assert(v[0] == __v@[__i as int]@); assert(v.subrange(1, v.len() as int) =~= __w.subrange(__i + 1, __w.len() as int)); }
loop 0 end: proof { if __word == HtpContentEncoding::LZMA { __z = __z + 1; } if __word != HtpContentEncoding::NONE && __d0.len() > 0 { assert((seq![__word] + __d0).last() == __d0.last()); } }
@*/
} // verus!
fn main() {}
