#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug
@*/
/*@ item decompressors.rs::HtpContentEncoding
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/// std::io::Error, of which only the kind matters here
#[derive(PartialEq, Eq, Structural, Copy, Clone)]
pub enum Kind { WriteZero, Other }
pub struct IoErr { pub k: Kind }
impl IoErr { pub fn kind(&self) -> (r: Kind) ensures r == self.k { self.k } }
pub fn vx_ioerr(k: Kind) -> (r: IoErr) ensures r.k == k { IoErr { k } }
pub type IoResult<T> = core::result::Result<T, IoErr>;
#[verifier::external_body] #[derive(Copy, Clone)] pub struct Options { _0: u8 }
impl Options { pub uninterp spec fn lzma_off(&self) -> bool; }
/// the output buffer of a decoder: what it holds
#[verifier::external_body] pub struct Buffer { _0: u8 }
impl Buffer {
    pub uninterp spec fn held(&self) -> Seq<u8>;
    // &cursor.get_ref()[0..cursor.position() as usize]
    #[verifier::external_body] pub fn vx_filled(&self) -> (r: &[u8]) ensures r@ == self.held() { unimplemented!() }
    #[verifier::external_body] pub fn set_position(&mut self, n: u64) ensures n == 0 ==> final(self).held().len() == 0 { unimplemented!() }
}
/// a decoder (Box<dyn BufWriter>): what it has made, as far as it was taken out of its buffer (gone) and as far as it is still in there (held)
#[verifier::external_body] pub struct Coder { _0: u8 }
pub open spec fn grown(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a }
impl Coder {
    pub uninterp spec fn gone(&self) -> Seq<u8>;
    pub uninterp spec fn held(&self) -> Seq<u8>;
    pub open spec fn made(&self) -> Seq<u8> { self.gone() + self.held() }
    /// it made more, and all of that is in its buffer
    pub open spec fn more(&self, o: &Coder) -> bool { grown(o.held(), self.held()) && self.gone() == o.gone() }
    #[verifier::external_body] pub fn write(&mut self, d: &[u8]) -> (r: IoResult<usize>) ensures final(self).more(old(self)), r is Ok ==> r->Ok_0 <= d@.len() { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: IoResult<()>) ensures final(self).more(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self) -> (r: Option<&mut Buffer>)
        ensures match r { Some(b) => b.held() == old(self).held() && (final(b).held().len() == 0 ==> final(self).held().len() == 0 && final(self).gone() == old(self).gone() + old(self).held()),
            // only a decoder that has failed has no buffer, and then nothing in it
            None => *final(self) == *old(self) && old(self).held().len() == 0 } { unimplemented!() }
    // finish: all that is left
    #[verifier::external_body] pub fn finish(self) -> (r: IoResult<Buffer>) ensures r is Ok ==> grown(self.held(), r->Ok_0.held()) { unimplemented!() }
}
/// what b has been given since a is what was taken out of the decoder since
pub open spec fn handed(a: Seq<u8>, b: Seq<u8>, c: &Coder, d: &Coder) -> bool {
    grown(c.gone(), d.gone()) && b =~= a + d.gone().subrange(c.gone().len() as int, d.gone().len() as int)
}
pub uninterp spec fn finished(g: Seq<u8>) -> IoResult<()>;
/// the next in the chain (Box<dyn Decompress>): what it has been given
#[verifier::external_body] pub struct Next { _0: u8 }
impl Next {
    pub uninterp spec fn got(&self) -> Seq<u8>;
    pub uninterp spec fn through(&self) -> bool;
    #[verifier::external_body] pub fn write(&mut self, d: &[u8]) -> (r: IoResult<usize>)
        ensures match r { Ok(n) => n <= d@.len() && final(self).got() == old(self).got() + d@.subrange(0, n as int), Err(_) => true } { unimplemented!() }
    // std::io::Write::write_all
    #[verifier::external_body] pub fn write_all(&mut self, d: &[u8]) -> (r: IoResult<()>) ensures r is Ok ==> final(self).got() == old(self).got() + d@ { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: IoResult<()>) ensures final(self).got() == old(self).got() { unimplemented!() }
    // no more is to come: it answers for all it was given
    #[verifier::external_body] pub fn finish(&mut self) -> (r: IoResult<()>) ensures r == finished(old(self).got()) { unimplemented!() }
    #[verifier::external_body] pub fn set_passthrough(&mut self, p: bool) ensures final(self).got() == old(self).got(), final(self).through() == p { unimplemented!() }
}
pub assume_specification<T> [core::option::Option::<T>::replace] (_0: &mut Option<T>, _1: T) -> (r: Option<T>) ensures *final(_0) == Some(_1), r == *old(_0);
/*@ item decompressors.rs::InnerDecompressor
subst: Box < dyn BufWriter > =>> Coder
subst: Box < dyn Decompress > =>> Next
@*/
pub open spec fn coded(e: HtpContentEncoding) -> bool { e != HtpContentEncoding::NONE && e != HtpContentEncoding::ERROR }
/// what is tried when a decoder refuses
pub open spec fn other(e: HtpContentEncoding) -> HtpContentEncoding {
    match e { HtpContentEncoding::GZIP => HtpContentEncoding::DEFLATE, HtpContentEncoding::DEFLATE => HtpContentEncoding::ZLIB, HtpContentEncoding::ZLIB => HtpContentEncoding::GZIP, HtpContentEncoding::LZMA => HtpContentEncoding::DEFLATE, x => x }
}
pub open spec fn ends_with(a: Seq<u8>, b: Seq<u8>) -> bool { b.len() <= a.len() && a.subrange(a.len() - b.len(), a.len() as int) =~= b }
impl InnerDecompressor {
    pub closed spec fn ok(&self) -> bool { coded(self.encoding) && self.restarts <= 3 }
    // InnerDecompressor::writer: a new decoder; without LZMA, one that takes and makes nothing
    #[verifier::external_body] fn vx_new_writer(e: HtpContentEncoding, o: &Options) -> (r: IoResult<(Coder, bool)>)
        ensures coded(e) ==> r is Ok && r->Ok_0.0.made().len() == 0 && r->Ok_0.0.held().len() == 0 && r->Ok_0.1 == (e == HtpContentEncoding::LZMA && o.lzma_off()) { unimplemented!() }
}
broadcast proof fn handed_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, u: &Coder, v: &Coder, w: &Coder)
    requires #[trigger] handed(a, b, u, v), #[trigger] handed(b, c, v, w) ensures handed(a, c, u, w)
{
    let (g0, g1, g2) = (u.gone(), v.gone(), w.gone());
    assert(g2.subrange(0, g0.len() as int) =~= g2.subrange(0, g1.len() as int).subrange(0, g0.len() as int));
    assert(g2.subrange(g0.len() as int, g2.len() as int) =~= g2.subrange(0, g1.len() as int).subrange(g0.len() as int, g1.len() as int) + g2.subrange(g1.len() as int, g2.len() as int));
}
broadcast proof fn grown_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires #[trigger] grown(a, b), #[trigger] grown(b, c) ensures grown(a, c)
{ assert(c.subrange(0, a.len() as int) =~= c.subrange(0, b.len() as int).subrange(0, a.len() as int)); }
broadcast proof fn grown_more(o: &Coder, n: &Coder) requires #[trigger] n.more(o) ensures grown(o.made(), n.made())
{
    assert forall|i: int| 0 <= i < o.held().len() implies n.held()[i] == o.held()[i] by { assert(n.held().subrange(0, o.held().len() as int)[i] == n.held()[i]); }
    assert(n.made().subrange(0, o.made().len() as int) =~= o.made());
}
broadcast proof fn grown_gone(w: &Coder) ensures grown(w.gone(), #[trigger] w.made()) { assert(w.made().subrange(0, w.gone().len() as int) =~= w.gone()); }
proof fn lemma_rest(a: Seq<u8>, b: Seq<u8>, u: &Coder, w: &Coder) requires handed(a, b, u, w), grown(u.made(), w.gone()) ensures grown(u.held(), b.subrange(a.len() as int, b.len() as int))
{
    let x = b.subrange(a.len() as int, b.len() as int);
    assert forall|i: int| 0 <= i < u.held().len() implies x[i] == u.held()[i] by {
        let j = u.gone().len() + i;
        assert(w.gone().subrange(0, u.made().len() as int)[j] == u.made()[j]);
        assert(b[a.len() + i] == w.gone()[j]);
    }
    assert(x.subrange(0, u.held().len() as int) =~= u.held());
}
/*@ config
pre: Self :: writer ( __ANY ) =>> Self::vx_new_writer(__ANY)
pre: std :: io :: ErrorKind :: =>> Kind::
pre: std :: io :: Error :: new ( Kind :: WriteZero , __ANY ) =>> vx_ioerr(Kind::WriteZero)
pre: std :: io :: Error :: new ( Kind :: Other , __ANY ) =>> vx_ioerr(Kind::Other)
pre: & cursor . get_ref ( ) [ 0 .. cursor . position ( ) as usize ] =>> cursor.vx_filled()
pre: & output . get_ref ( ) [ .. output . position ( ) as usize ] =>> output.vx_filled()
presig: std :: io :: Result =>> IoResult
presig: Box < dyn BufWriter > =>> Coder
presig: Box < dyn Decompress > =>> Next
@*/
/*@ fn decompressors.rs::InnerDecompressor::new
ret: r
spec:
    ensures coded(encoding) ==> r is Ok && ({
        let d = r->Ok_0;
        d.ok() && d.inner == Some(inner) && d.encoding == encoding && d.writer is Some && d.writer->0.made().len() == 0 && d.restarts == 0 && d.passthrough == (encoding == HtpContentEncoding::LZMA && options.lzma_off())
    }),
@*/
/*@ fn decompressors.rs::Decompress::InnerDecompressor::set_passthrough
impl: impl InnerDecompressor
spec:
    ensures final(self).passthrough == passthrough, final(self).writer == old(self).writer, final(self).encoding == old(self).encoding, final(self).restarts == old(self).restarts, final(self).options == old(self).options,
        final(self).inner is Some == old(self).inner is Some, old(self).inner is Some ==> final(self).inner->0.got() == old(self).inner->0.got() && final(self).inner->0.through() == passthrough,
@*/
/*@ fn decompressors.rs::Decompress::InnerDecompressor::restart
impl: impl InnerDecompressor
ret: r
spec:
    requires coded(old(self).encoding), old(self).restarts <= 3,
    ensures
        // another decoder, up to three times
        r is Ok == (old(self).restarts < 3), final(self).inner == old(self).inner,
        r is Ok ==> final(self).ok() && final(self).restarts == old(self).restarts + 1 && final(self).encoding == other(old(self).encoding) && final(self).writer is Some && final(self).writer->0.made().len() == 0 && final(self).writer->0.held().len() == 0
            && final(self).passthrough == old(self).passthrough,
        r is Err ==> *final(self) == *old(self),
@*/
/*@ fn decompressors.rs::InnerDecompressor::try_passthrough
ret: r
spec:
    requires old(self).inner is Some,
    ensures
        final(self).inner is Some, final(self).writer == old(self).writer, final(self).encoding == old(self).encoding, final(self).restarts == old(self).restarts, final(self).passthrough == (r is Ok),
        r is Ok ==> r->Ok_0 <= data@.len() && final(self).inner->0.got() == old(self).inner->0.got() + data@.subrange(0, r->Ok_0 as int),
@*/
/*@ fn decompressors.rs::InnerDecompressor::flush_writer
attr: #[verifier::exec_allows_no_decreases_clause]
ret: r
spec:
    requires old(self).inner is Some, coded(old(self).encoding), old(self).restarts <= 3,
    ensures
        // all that was made is handed on, once and in order
        r is Ok ==> final(self).inner is Some && final(writer).held().len() == 0 && handed(old(self).inner->0.got(), final(self).inner->0.got(), old(writer), final(writer)) && grown(old(writer).made(), final(writer).gone()),
        // nothing more gets out after a failure
        r is Err ==> final(self).inner is None,
        coded(final(self).encoding), final(self).restarts <= 3, old(self).restarts <= final(self).restarts,
        old(self).writer is None ==> (final(self).writer is Some == (final(self).restarts > old(self).restarts)),
        final(self).passthrough == old(self).passthrough,
loop 0:
    invariant_except_break
        coded(self.encoding), self.restarts == old(self).restarts, self.restarts <= 3, self.writer == old(self).writer,
        grown(old(writer).made(), writer.made()), self.passthrough == old(self).passthrough,
    invariant
        old(self).inner is Some, self.inner is None, handed(old(self).inner->0.got(), inner.got(), old(writer), writer),
    ensures
        writer.held().len() == 0, coded(self.encoding), self.restarts <= 3, old(self).restarts <= self.restarts, grown(old(writer).made(), writer.gone()),
        self.passthrough == old(self).passthrough,
        old(self).writer is None ==> (self.writer is Some == (self.restarts > old(self).restarts)),
@*/
/*@ fn decompressors.rs::Write::InnerDecompressor::write
hide: broadcast use handed_trans, grown_trans, grown_more, grown_gone;
attr: #[verifier::exec_allows_no_decreases_clause]
impl: impl InnerDecompressor
ret: r
spec:
    requires old(self).ok(), old(self).inner is Some,
    ensures
        coded(final(self).encoding), final(self).restarts <= 3, old(self).restarts <= final(self).restarts, old(self).passthrough ==> final(self).passthrough,
        r is Ok ==> r->Ok_0 <= data@.len() && final(self).inner is Some,
        r is Ok ==> grown(old(self).inner->0.got(), final(self).inner->0.got()),
        // passed on as it is
        r is Ok && old(self).passthrough ==> final(self).inner->0.got() =~= old(self).inner->0.got() + data@.subrange(0, r->Ok_0 as int) && final(self).writer == old(self).writer,
        // no decoder accepts it: from here on it is passed on as it is
        r is Ok && !old(self).passthrough && final(self).passthrough ==> ends_with(final(self).inner->0.got(), data@.subrange(0, r->Ok_0 as int)),
        // only the decoder writes to what follows it, and what it made goes there once and in order
        r is Ok && !final(self).passthrough && final(self).restarts == old(self).restarts ==> old(self).writer is Some && final(self).writer is Some
            && handed(old(self).inner->0.got(), final(self).inner->0.got(), &old(self).writer->0, &final(self).writer->0) && grown(old(self).writer->0.made(), final(self).writer->0.made()),
        // it is decoded only as long as there is a decoder
        r is Ok && !final(self).passthrough ==> final(self).writer is Some,
@*/
/*@ fn decompressors.rs::Write::InnerDecompressor::flush
impl: impl InnerDecompressor
ret: r
spec:
    requires old(self).ok(), old(self).inner is Some,
    ensures
        coded(final(self).encoding), final(self).restarts <= 3, final(self).passthrough == old(self).passthrough,
        r is Ok ==> final(self).inner is Some && (final(self).writer is Some == old(self).writer is Some),
        r is Ok && old(self).writer is Some ==> final(self).writer->0.held().len() == 0 && handed(old(self).inner->0.got(), final(self).inner->0.got(), &old(self).writer->0, &final(self).writer->0)
            && grown(old(self).writer->0.made(), final(self).writer->0.gone()),
@*/
/*@ fn decompressors.rs::Decompress::InnerDecompressor::finish
impl: impl InnerDecompressor
ret: r
spec:
    requires old(self).ok(), old(self).inner is Some,
    ensures
        // what is still held is handed on before what follows is finished
        r is Ok && old(self).writer is Some ==> exists|x: Seq<u8>| grown(old(self).writer->0.held(), x) && r == finished(old(self).inner->0.got() + x),
        r is Ok ==> final(self).inner is None,
subst: self . flush_writer ( __ANY ) ? ; =>> self.flush_writer(__ANY)?; proof { lemma_rest(old(self).inner->0.got(), self.inner->0.got(), &old(self).writer->0, &writer); }
subst: if let Some ( mut inner ) = self . inner . take ( ) =>> let ghost g1 = self.inner->0.got(); if let Some(mut inner) = self.inner.take()
subst: inner . finish ( ) =>> {
        proof {
            let a = old(self).inner->0.got();
            let x = inner.got().subrange(a.len() as int, inner.got().len() as int);
            if old(self).writer is Some {
                grown_trans(old(self).writer->0.held(), g1.subrange(a.len() as int, g1.len() as int), x);
                assert(a + x =~= inner.got());
            }
        }
        inner.finish()
    }
@*/
} // verus!
fn main() {}
