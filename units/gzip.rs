#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
/*@ config
drop: htp_warn htp_error htp_info htp_debug
@*/
//@include base.inc
// ---- nom: results, and the leaf parsers (assumed contracts on the dependency); the combinators are written out by the extractor ----
enum Needed { Unknown, Size(usize) }
struct NomErrorS<I> { pub input: I }
enum NErr<E> { Incomplete(Needed), Error(E), Failure(E) }
use NErr::Incomplete;
type IResult<I, O, E = NomErrorS<I>> = core::result::Result<(I, O), NErr<E>>;
spec fn cut(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(k, s.len() as int) }
#[verifier::external_body] fn vxp_tag<'a, const N: usize>(i: &'a [u8], t: &[u8; N]) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures match r {
        Ok((rest, o)) => N <= i@.len() && i@.subrange(0, N as int) == t@ && rest@ == cut(i@, N as int),
        Err(e) => if e is Incomplete { i@.len() < N && i@ == t@.subrange(0, i@.len() as int) } else { exists|k: int| 0 <= k < N && k < i@.len() && #[trigger] i@[k] != t@[k] } } { unimplemented!() }
#[verifier::external_body] fn le_u8<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u8>)
    ensures match r { Ok((rest, o)) => i@.len() >= 1 && o == i@[0] && rest@ == cut(i@, 1), Err(e) => e is Incomplete && i@.len() < 1 } { unimplemented!() }
#[verifier::external_body] fn le_i32<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], i32>)
    ensures match r { Ok((rest, o)) => i@.len() >= 4 && rest@ == cut(i@, 4), Err(e) => e is Incomplete && i@.len() < 4 } { unimplemented!() }
#[verifier::external_body] fn vx_le_u16<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u16>)
    ensures match r { Ok((rest, o)) => i@.len() >= 2 && o == le(i@[0], i@[1]) && rest@ == cut(i@, 2), Err(e) => e is Incomplete && i@.len() < 2 } { unimplemented!() }
#[verifier::external_body] fn vxp_take_until<'a>(i: &'a [u8], t: &[u8; 1]) -> (r: IResult<&'a [u8], &'a [u8]>)
    requires t@[0] == 0
    ensures match r { Ok((rest, o)) => nul(i@, 0) < i@.len() && rest@ == cut(i@, nul(i@, 0)), Err(e) => e is Incomplete && nul(i@, 0) == i@.len() } { unimplemented!() }
spec fn le(a: u8, b: u8) -> u16 { (a + 256 * b) as u16 }
// u16::from_le_bytes
#[verifier::external_body] fn vx_from_le(a: u8, b: u8) -> (r: u16) ensures r == le(a, b) { unimplemented!() }
/// std::io::Error, of which only its presence matters here
struct IoErr;
fn vx_ioerr() -> (r: IoErr) { IoErr }
/// flate2's decoder; fed(): the bytes it has taken
#[verifier::external_body] struct Deflate { _0: u8 }
#[verifier::external_body] struct Sink { _0: u8 }
impl Deflate {
    #[verifier::external_body] fn new(b: Sink) -> (r: Deflate) ensures r.fed().len() == 0 { unimplemented!() }
    uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body] fn write(&mut self, d: &[u8]) -> (r: core::result::Result<usize, IoErr>)
        ensures match r { Ok(n) => n <= d@.len() && final(self).fed() == old(self).fed() + d@.subrange(0, n as int), Err(_) => true } { unimplemented!() }
}
/*@ item decompressors.rs::GzState
attr: #[derive(PartialEq, Eq, Structural, Copy, Clone)]
@*/
/*@ item decompressors.rs::GzipBufWriter
subst: flate2 :: write :: DeflateDecoder < Cursor < Box < [ u8 ] > > > =>> Deflate
@*/
// ---- the gzip header (RFC 1952) ----------------------------------------------------------------
/// index of the first NUL at or after a; the length if there is none
spec fn nul(s: Seq<u8>, a: int) -> int decreases s.len() - a { if a >= s.len() { s.len() as int } else if s[a] == 0 { a } else { nul(s, a + 1) } }
spec fn magic(s: Seq<u8>) -> bool { s.len() >= 3 && s[0] == 0x1f && s[1] == 0x8b && s[2] == 8 }
spec fn bit(s: Seq<u8>, b: u8) -> bool { s[3] & b != 0 }
/// the ends of the fields, as far as s tells
spec fn e1(s: Seq<u8>) -> int { if bit(s, 4) { 12 + le(s[10], s[11]) } else { 10 } }
spec fn e2(s: Seq<u8>) -> int { if bit(s, 8) { nul(s, e1(s)) + 1 } else { e1(s) } }
spec fn e3(s: Seq<u8>) -> int { if bit(s, 16) { nul(s, e2(s)) + 1 } else { e2(s) } }
spec fn e4(s: Seq<u8>) -> int { if bit(s, 2) { e3(s) + 2 } else { e3(s) } }
spec fn done1(s: Seq<u8>) -> bool { magic(s) && s.len() >= 10 && (bit(s, 4) ==> s.len() >= 12) && s.len() >= e1(s) }
spec fn done2(s: Seq<u8>) -> bool { done1(s) && s.len() >= e2(s) }
spec fn done3(s: Seq<u8>) -> bool { done2(s) && s.len() >= e3(s) }
/// s is exactly a gzip header
spec fn header(s: Seq<u8>) -> bool { done3(s) && s.len() == e4(s) }
/// where the writer is in the header after the bytes s of it
spec fn at(st: GzState, flags: u8, xlen: u16, s: Seq<u8>) -> bool {
    match st {
        GzState::Start => s.len() == 0 && xlen == 0,
        GzState::Xlen => magic(s) && s.len() == 10 && flags == s[3] && xlen == 0,
        GzState::Extra => magic(s) && s.len() >= 10 && flags == s[3] && if bit(s, 4) { s.len() >= 12 && s.len() + xlen == e1(s) } else { s.len() == 10 && xlen == 0 },
        GzState::Filename => done1(s) && flags == s[3] && nul(s, e1(s)) == s.len() && (!bit(s, 8) ==> s.len() == e1(s)),
        GzState::Comment => done2(s) && flags == s[3] && nul(s, e2(s)) == s.len() && (!bit(s, 16) ==> s.len() == e2(s)),
        GzState::Crc => done3(s) && flags == s[3] && s.len() == e3(s),
        GzState::AfterHeader => header(s),
    }
}
/// it waits for more bytes of the header
spec fn waits(st: GzState, xlen: u16, s: Seq<u8>) -> bool {
    match st { GzState::Start => true, GzState::Xlen => bit(s, 4), GzState::Extra => xlen > 0, GzState::Filename => bit(s, 8), GzState::Comment => bit(s, 16), GzState::Crc => bit(s, 2), GzState::AfterHeader => true }
}
/// s is a header, followed by f
spec fn decoding(s: Seq<u8>, f: Seq<u8>) -> bool { f.len() <= s.len() && header(s.subrange(0, s.len() - f.len())) && s.subrange(s.len() - f.len(), s.len() as int) =~= f }
impl GzipBufWriter {
    /// the state of the writer after the bytes s
    spec fn inv(&self, s: Seq<u8>) -> bool {
        let f = self.inner.fed();
        if self.state == GzState::AfterHeader {
            self.partial is None && decoding(s, f)
        } else {
            &&& f.len() == 0
            &&& match self.partial {
                Some(b) => s.len() > 0 && b == s.last() && ({
                    let g = s.drop_last();
                    &&& at(self.state, self.flags, self.xlen, g)
                    &&& self.state == GzState::Xlen && bit(g, 4) || self.state == GzState::Crc && bit(g, 2)
                }),
                None => if self.state == GzState::Start { self.buffer@ == s && s.len() < 10 && self.xlen == 0 } else { at(self.state, self.flags, self.xlen, s) && waits(self.state, self.xlen, s) },
            }
        }
    }
    /// The property: what the decoder has taken is what follows the header, all of it.
    proof fn lemma_after(&self, s: Seq<u8>)
        requires self.inv(s), self.state == GzState::AfterHeader,
        ensures exists|h: Seq<u8>| #[trigger] header(h) && s == h + self.inner.fed(),
    { let h = s.subrange(0, s.len() - self.inner.fed().len()); assert(header(h)); assert(s =~= h + self.inner.fed()); }
}
proof fn lemma_nul(s: Seq<u8>, a: int)
    requires 0 <= a,
    ensures a <= s.len() ==> a <= nul(s, a) <= s.len(), nul(s, a) < s.len() ==> s[nul(s, a)] == 0 && a <= nul(s, a), a >= s.len() ==> nul(s, a) == s.len(),
        forall|k: int| a <= k < nul(s, a) ==> #[trigger] s[k] != 0,
    decreases s.len() - a,
{ if a < s.len() && s[a] != 0 { lemma_nul(s, a + 1); } }
proof fn lemma_nul_is(s: Seq<u8>, a: int, n: int)
    requires 0 <= a <= n <= s.len(), forall|k: int| a <= k < n ==> #[trigger] s[k] != 0, n < s.len() ==> s[n] == 0,
    ensures nul(s, a) == n,
{ lemma_nul(s, a); let m = nul(s, a); if m < n { assert(s[m] != 0); } else if n < m { assert(s[n] != 0); } }
/// a field that ended, ended; one that goes on goes on behind s
proof fn lemma_nul_more(s: Seq<u8>, a: int, t: Seq<u8>)
    requires 0 <= a <= s.len(),
    ensures nul(s, a) < s.len() ==> nul(s + t, a) == nul(s, a), nul(s, a) == s.len() ==> nul(s + t, a) == s.len() + nul(t, 0),
{
    let u = s + t;
    lemma_nul(s, a); lemma_nul(t, 0);
    if nul(s, a) < s.len() {
        assert forall|k: int| a <= k < nul(s, a) implies #[trigger] u[k] != 0 by { assert(u[k] == s[k]); }
        lemma_nul_is(u, a, nul(s, a));
    } else {
        let n = s.len() + nul(t, 0);
        assert forall|k: int| a <= k < n implies #[trigger] u[k] != 0 by { if k < s.len() { assert(u[k] == s[k]); } else { assert(u[k] == t[k - s.len()]); } }
        if n < u.len() { assert(u[n] == t[n - s.len()]); }
        lemma_nul_is(u, a, n);
    }
}
proof fn lemma_more1(s: Seq<u8>, t: Seq<u8>) requires done1(s) ensures done1(s + t), e1(s + t) == e1(s) {
    let u = s + t;
    assert(u[0] == s[0] && u[1] == s[1] && u[2] == s[2] && u[3] == s[3]);
    if bit(s, 4) { assert(u[10] == s[10] && u[11] == s[11]); }
}
proof fn lemma_more2(s: Seq<u8>, t: Seq<u8>) requires done2(s) ensures done2(s + t), e2(s + t) == e2(s) {
    lemma_more1(s, t); lemma_nul(s, e1(s)); lemma_nul_more(s, e1(s), t);
}
proof fn lemma_more3(s: Seq<u8>, t: Seq<u8>) requires done3(s) ensures done3(s + t), e3(s + t) == e3(s) {
    lemma_more2(s, t); lemma_nul(s, e1(s)); lemma_nul(s, e2(s)); lemma_nul_more(s, e2(s), t);
}
/// the two bytes of the checksum
proof fn lemma_crc(flags: u8, xlen: u16, s: Seq<u8>, a: u8, b: u8)
    requires at(GzState::Crc, flags, xlen, s), bit(s, 2),
    ensures header(s.push(a).push(b)), s.push(a).push(b) == s + seq![a, b],
{ assert(s.push(a).push(b) =~= s + seq![a, b]); lemma_more3(s, seq![a, b]); assert((s + seq![a, b])[3] == s[3]); }
proof fn lemma_xlen(flags: u8, xlen: u16, s: Seq<u8>, a: u8, b: u8)
    requires at(GzState::Xlen, flags, xlen, s), bit(s, 4),
    ensures at(GzState::Extra, flags, le(a, b), s.push(a).push(b)), s.push(a).push(b) == s + seq![a, b],
{ assert(s.push(a).push(b) =~= s + seq![a, b]); let u = s.push(a).push(b); assert(u[10] == a && u[11] == b && u[3] == s[3] && u[0] == s[0] && u[1] == s[1] && u[2] == s[2]); }
/// how the bytes before and those of this call lie together
proof fn lemma_whole(s: Seq<u8>, d: Seq<u8>)
    ensures ({
        let tot = s + d;
        &&& forall|n: int| 0 <= n <= d.len() ==> #[trigger] (s + d.subrange(0, n)) == tot.subrange(0, s.len() + n)
        &&& tot.subrange(0, tot.len() as int) == tot && cut(tot, 0) == tot && tot.subrange(0, 0) == Seq::<u8>::empty()
        &&& tot.subrange(0, s.len() as int) == s && cut(tot, s.len() as int) == d
        &&& d.len() > 0 ==> tot.subrange(0, s.len() as int + 1) == s.push(d[0]) && s.push(d[0]).drop_last() == s && cut(tot, s.len() as int + 1) == d.subrange(1, d.len() as int)
        &&& forall|f: u8| at(GzState::Start, f, 0, #[trigger] nothing(f))
        &&& s.len() == 0 ==> tot == d
    }),
{
    let tot = s + d;
    assert forall|n: int| 0 <= n <= d.len() implies #[trigger] (s + d.subrange(0, n)) == tot.subrange(0, s.len() + n) by { assert(s + d.subrange(0, n) =~= tot.subrange(0, s.len() + n)); }
    assert(tot.subrange(0, tot.len() as int) =~= tot && cut(tot, 0) =~= tot && tot.subrange(0, 0) =~= Seq::<u8>::empty());
    assert(tot.subrange(0, s.len() as int) =~= s && cut(tot, s.len() as int) =~= d);
    if d.len() > 0 { assert(tot.subrange(0, s.len() as int + 1) =~= s.push(d[0])); assert(s.push(d[0]).drop_last() =~= s); assert(cut(tot, s.len() as int + 1) =~= d.subrange(1, d.len() as int)); }
    if s.len() == 0 { assert(tot =~= d); }
}
spec fn nothing(f: u8) -> Seq<u8> { Seq::<u8>::empty() }
spec fn rank(st: GzState) -> int { match st { GzState::Start => 6, GzState::Xlen => 5, GzState::Extra => 4, GzState::Filename => 3, GzState::Comment => 2, GzState::Crc => 1, GzState::AfterHeader => 0 } }
/// one step through the header, from h on over the bytes t
proof fn lemma_step(st: GzState, flags: u8, xlen: u16, h: Seq<u8>, t: Seq<u8>)
    requires at(st, flags, xlen, h),
    ensures
        st != GzState::Start && st != GzState::AfterHeader ==> flags == h[3], st == GzState::Start ==> xlen == 0,
        st == GzState::Start && magic(t) && t.len() >= 10 ==> at(GzState::Xlen, t[3], xlen, h + t.subrange(0, 10)),
        st == GzState::Xlen ==> (if bit(h, 4) { t.len() >= 2 ==> at(GzState::Extra, flags, le(t[0], t[1]), h + t.subrange(0, 2)) } else { at(GzState::Extra, flags, xlen, h) }),
        st == GzState::Extra ==> (if t.len() < xlen { at(GzState::Extra, flags, (xlen - t.len()) as u16, h + t) } else { at(GzState::Filename, flags, xlen, h + t.subrange(0, xlen as int)) }),
        st == GzState::Filename ==> (if bit(h, 8) { if nul(t, 0) < t.len() { at(GzState::Comment, flags, xlen, h + t.subrange(0, nul(t, 0) + 1)) } else { at(GzState::Filename, flags, xlen, h + t) && bit(h + t, 8) } } else { at(GzState::Comment, flags, xlen, h) }),
        st == GzState::Comment ==> (if bit(h, 16) { if nul(t, 0) < t.len() { at(GzState::Crc, flags, xlen, h + t.subrange(0, nul(t, 0) + 1)) } else { at(GzState::Comment, flags, xlen, h + t) && bit(h + t, 16) } } else { at(GzState::Crc, flags, xlen, h) }),
        st == GzState::Crc ==> (if bit(h, 2) { t.len() >= 2 ==> header(h + t.subrange(0, 2)) } else { header(h) }),
        0 <= nul(t, 0) <= t.len(), nul(t, 0) < t.len() ==> t[nul(t, 0)] == 0,
{
    lemma_nul(t, 0);
    if st == GzState::Start && magic(t) && t.len() >= 10 { assert(h + t.subrange(0, 10) =~= t.subrange(0, 10)); let u = t.subrange(0, 10); assert(u[0] == t[0] && u[1] == t[1] && u[2] == t[2] && u[3] == t[3]); }
    if st == GzState::Xlen { if bit(h, 4) && t.len() >= 2 { lemma_xlen(flags, xlen, h, t[0], t[1]); assert(t.subrange(0, 2) =~= seq![t[0], t[1]]); } }
    if st == GzState::Extra {
        let x = if t.len() < xlen { t } else { t.subrange(0, xlen as int) };
        let u = h + x;
        assert(u[0] == h[0] && u[1] == h[1] && u[2] == h[2] && u[3] == h[3]);
        if bit(h, 4) { assert(u[10] == h[10] && u[11] == h[11]); assert(e1(u) == e1(h)); } else { assert(u =~= h); }
        if t.len() >= xlen { lemma_nul(u, e1(u)); }
    }
    if st == GzState::Filename {
        let k = nul(t, 0);
        let x = if k < t.len() { t.subrange(0, k + 1) } else { t };
        let u = h + x;
        lemma_more1(h, x); assert(u[3] == h[3]);
        lemma_nul_more(h, e1(h), x);
        if k < t.len() {
            assert forall|j: int| 0 <= j < k implies #[trigger] x[j] != 0 by { assert(x[j] == t[j]); }
            assert(x[k] == t[k]);
            lemma_nul_is(x, 0, k);
            if bit(h, 8) { assert(e2(u) == u.len()); lemma_nul(u, e2(u)); }
        }
        if !bit(h, 8) { lemma_nul(h, e2(h)); }
    }
    if st == GzState::Comment {
        let k = nul(t, 0);
        let x = if k < t.len() { t.subrange(0, k + 1) } else { t };
        let u = h + x;
        lemma_more2(h, x); assert(u[3] == h[3]);
        lemma_nul(h, e1(h));
        lemma_nul_more(h, e2(h), x);
        if k < t.len() {
            assert forall|j: int| 0 <= j < k implies #[trigger] x[j] != 0 by { assert(x[j] == t[j]); }
            assert(x[k] == t[k]);
            lemma_nul_is(x, 0, k);
        }
    }
    if st == GzState::Crc { if bit(h, 2) && t.len() >= 2 { lemma_crc(flags, xlen, h, t[0], t[1]); assert(t.subrange(0, 2) =~= seq![t[0], t[1]]); } }
}
/// the same, for the bytes tot of which the first pos are behind
proof fn lemma_go(st: GzState, flags: u8, xlen: u16, tot: Seq<u8>, pos: int)
    requires 0 <= pos <= tot.len(), at(st, flags, xlen, tot.subrange(0, pos)),
    ensures ({
        let t = cut(tot, pos); let k = nul(t, 0); let h = tot.subrange(0, pos);
        &&& st != GzState::Start && st != GzState::AfterHeader ==> flags == h[3]
        &&& st == GzState::Start ==> xlen == 0
        &&& st == GzState::Start && magic(t) && t.len() >= 10 ==> at(GzState::Xlen, t[3], xlen, tot.subrange(0, pos + 10)) && cut(t, 10) == cut(tot, pos + 10)
        &&& st == GzState::Xlen ==> (if bit(h, 4) { t.len() >= 2 ==> at(GzState::Extra, flags, le(t[0], t[1]), tot.subrange(0, pos + 2)) && cut(t, 2) == cut(tot, pos + 2) } else { at(GzState::Extra, flags, xlen, h) })
        &&& st == GzState::Extra ==> (if t.len() < xlen { at(GzState::Extra, flags, (xlen - t.len()) as u16, tot) } else { at(GzState::Filename, flags, xlen, tot.subrange(0, pos + xlen)) && cut(t, xlen as int) == cut(tot, pos + xlen) })
        &&& st == GzState::Filename ==> (if bit(h, 8) { if k < t.len() { at(GzState::Comment, flags, xlen, tot.subrange(0, pos + k + 1)) } else { at(GzState::Filename, flags, xlen, tot) && bit(tot, 8) } } else { at(GzState::Comment, flags, xlen, h) })
        &&& st == GzState::Comment ==> (if bit(h, 16) { if k < t.len() { at(GzState::Crc, flags, xlen, tot.subrange(0, pos + k + 1)) } else { at(GzState::Comment, flags, xlen, tot) && bit(tot, 16) } } else { at(GzState::Crc, flags, xlen, h) })
        &&& st == GzState::Crc ==> (if bit(h, 2) { t.len() >= 2 ==> decoding(tot.subrange(0, pos + 2), Seq::empty()) } else { decoding(h, Seq::empty()) })
        &&& 0 <= k <= t.len()
        &&& k < t.len() ==> t[k] == 0 && cut(cut(t, k), 1) == cut(tot, pos + k + 1) && cut(t, k)[0] == 0
    }),
{
    hide(at); hide(nul); hide(header); hide(decoding); hide(magic); hide(bit);
    let t = cut(tot, pos); let k = nul(t, 0); let h = tot.subrange(0, pos);
    lemma_step(st, flags, xlen, h, t);
    assert(h + t =~= tot);
    if t.len() >= 10 { assert(h + t.subrange(0, 10) =~= tot.subrange(0, pos + 10) && cut(t, 10) =~= cut(tot, pos + 10)); }
    if t.len() >= 2 { assert(h + t.subrange(0, 2) =~= tot.subrange(0, pos + 2) && cut(t, 2) =~= cut(tot, pos + 2)); }
    if t.len() >= xlen { assert(h + t.subrange(0, xlen as int) =~= tot.subrange(0, pos + xlen) && cut(t, xlen as int) =~= cut(tot, pos + xlen)); }
    if k < t.len() { assert(h + t.subrange(0, k + 1) =~= tot.subrange(0, pos + k + 1)); assert(cut(cut(t, k), 1) =~= cut(tot, pos + k + 1)); }
    if st == GzState::Crc { if !bit(h, 2) { lemma_decoded(h); } else if t.len() >= 2 { lemma_decoded(tot.subrange(0, pos + 2)); } }
}
proof fn lemma_decoded(u: Seq<u8>) requires header(u) ensures decoding(u, Seq::<u8>::empty()) { assert(u.subrange(0, u.len() as int) =~= u); assert(u.subrange(u.len() as int, u.len() as int) =~= Seq::<u8>::empty()); }
proof fn lemma_decode(s: Seq<u8>, d: Seq<u8>, f: Seq<u8>)
    requires decoding(s, f),
    ensures forall|n: int| 0 <= n <= d.len() ==> decoding(s + d.subrange(0, n), #[trigger] (f + d.subrange(0, n))),
{
    assert forall|n: int| 0 <= n <= d.len() implies decoding(s + d.subrange(0, n), #[trigger] (f + d.subrange(0, n))) by {
        let u = s + d.subrange(0, n); let g = f + d.subrange(0, n);
        assert(u.subrange(0, u.len() - g.len()) =~= s.subrange(0, s.len() - f.len()));
        assert forall|k: int| 0 <= k < g.len() implies u[u.len() - g.len() + k] == g[k] by { if k < f.len() { assert(s.subrange(s.len() - f.len(), s.len() as int)[k] == f[k]); } }
        assert(u.subrange(u.len() - g.len(), u.len() as int) =~= g);
    }
}
/*@ fn decompressors.rs::GzipBufWriter::new
pre: flate2 :: write :: DeflateDecoder :: new ( buf ) =>> Deflate::new(buf)
presig: Cursor < Box < [ u8 ] > > =>> Sink
presig: fn new =>> pub(crate) fn new
ret: r
spec:
    ensures r.inv(Seq::<u8>::empty()), r.state == GzState::Start,
@*/
/*@ fn decompressors.rs::GzipBufWriter::parse_start
nom:
pre: use nom :: bytes :: streaming :: tag ; =>>
pre: use nom :: number :: streaming :: { le_i32 , le_u8 } ; =>>
pre: use nom :: sequence :: tuple ; =>>
sig: fn parse_start<'a>(data: &'a [u8]) -> (r: IResult<&'a [u8], u8>)
spec:
    ensures match r {
        Ok((rest, flags)) => magic(data@) && data@.len() >= 10 && flags == data@[3] && rest@ == cut(data@, 10),
        Err(Incomplete(_)) => data@.len() < 10,
        Err(_) => data@.len() > 0 && !magic(data@),
    },
@*/
/*@ fn decompressors.rs::Write::GzipBufWriter::write
impl: impl GzipBufWriter
attr: #[verifier::rlimit(80)]
nom:
pre: use nom :: bytes :: streaming :: { tag , take_until } ; =>>
pre: use nom :: number :: streaming :: le_u16 ; =>>
pre: b"\0" as & [ u8 ] =>> b"\0"
pre: use nom :: sequence :: tuple ; =>>
pre: nom :: Err :: =>> NErr::
pre: std :: io :: Error :: new ( __ANY ) =>> vx_ioerr()
pre: le_u16 :: < & [ u8 ] , nom :: error :: Error < & [ u8 ] >> ( parse ) =>> vx_le_u16(parse)
pre: u16 :: from_le_bytes ( [ first , * second ] ) =>> vx_from_le(first, *second)
pre: self . buffer . as_ref ( ) =>> self.buffer.as_slice()
subst: self . buffer . extend_from_slice ( data ) ; =>> self.buffer.extend_from_slice(data); proof { assert(self.buffer@ =~= old(self).buffer@ + data@); assert(self.buffer@ =~= tot); }
presig: data : & [ u8 ] =>> data: &[u8], Ghost(s): Ghost<Seq<u8>>
presig: std :: io :: Result < usize > =>> core::result::Result<usize, IoErr>
ret: r
spec:
    requires old(self).inv(s),
    ensures
        r is Ok ==> r->Ok_0 <= data@.len() && final(self).inv(s + data@.subrange(0, r->Ok_0 as int)),
        // it never stops short of the end of the header
        r is Ok && old(self).state != GzState::AfterHeader && data@.len() > 0 ==> r->Ok_0 > 0,
        r is Err && old(self).state != GzState::AfterHeader ==> !magic(s + data@) && old(self).state == GzState::Start,
hide: hide(at); hide(header); hide(nul); hide(e3); hide(decoding);
start: let ghost st0 = self.state; let ghost tot = s + data@;
    proof {
        assert(1u8 << 1 == 2 && 1u8 << 2 == 4 && 1u8 << 3 == 8 && 1u8 << 4 == 16) by (bit_vector);
        lemma_whole(s, data@); assert(nothing(self.flags) == Seq::<u8>::empty());
        if data@.len() > 0 && self.partial is Some {
            let g = s.drop_last();
            assert(s =~= g.push(s.last()));
            if st0 == GzState::Xlen { lemma_xlen(self.flags, self.xlen, g, s.last(), data@[0]); } else { lemma_crc(self.flags, self.xlen, g, s.last(), data@[0]); }
            if st0 == GzState::Crc { lemma_decoded(s.push(data@[0])); assert(self.inner.fed() =~= Seq::<u8>::empty()); }
        }
    }
loop 0:
    invariant
        FHCRC == 2, FEXTRA == 4, FNAME == 8, FCOMMENT == 16,
        old(self).inv(s), tot == s + data@, st0 == old(self).state,
        data@.len() == 0 && old(self).partial is Some ==> *self == *old(self) && parse@.len() == 0,
        data@.len() > 0 ==> self.partial is None, self.partial is Some ==> old(self).partial is Some,
        st0 == GzState::AfterHeader ==> *self == *old(self) && parse@ == data@,
        st0 != GzState::AfterHeader && self.partial is None ==> {
            let pos = tot.len() - parse@.len();
            &&& self.inner == old(self).inner && self.inner.fed().len() == 0
            &&& 0 <= pos <= tot.len() && parse@ == cut(tot, pos)
            &&& at(self.state, self.flags, self.xlen, tot.subrange(0, pos))
            &&& self.state == GzState::Start ==> pos == 0 && st0 == GzState::Start && s.len() < 10 && if direct { s.len() == 0 && self.buffer@.len() == 0 } else { self.buffer@ == tot }
            &&& self.state != GzState::Start ==> pos >= s.len() && (pos == s.len() ==> st0 == self.state && waits(self.state, self.xlen, tot.subrange(0, pos)))
            &&& self.state != GzState::AfterHeader
        },
    decreases rank(self.state),
loop 0 start: proof {
        lemma_whole(s, data@); assert(self.inner.fed().len() == 0 ==> self.inner.fed() =~= Seq::<u8>::empty());
        if st0 == GzState::AfterHeader { lemma_decode(s, data@, self.inner.fed()); }
        else if self.partial is Some { lemma_step(self.state, self.flags, self.xlen, s.drop_last(), parse@); }
        else { lemma_go(self.state, self.flags, self.xlen, tot, tot.len() - parse@.len()); }
    }
@*/
} // verus!
fn main() {}
