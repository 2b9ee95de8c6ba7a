#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include base.inc
//@include nom.inc
//@include nom2.inc
//@include bstr.inc
//@include flags.inc
//@include decoder.inc
//@include x2c.inc
//@include urldec.inc
//@include split.inc
/*@ item table.rs::Table
@*/
/*@ item urlencoded.rs::Parser
@*/
// ---------------------------------------------------------------------------------------
pub type Params = Seq<(Seq<u8>, Seq<u8>)>;
pub open spec fn tv(t: Table<Bstr>) -> Params { Seq::new(t.elements@.len(), |i: int| (t.elements@[i].0@, t.elements@[i].1@)) }
/*@ fn table.rs::Table::add
impl: impl Table<Bstr>
subst: item: T =>> item: Bstr
spec: ensures tv(*final(self)) == tv(*old(self)).push((key@, item@))
end: proof { assert(tv(*self) =~= tv(*old(self)).push((key@, item@))); }
@*/
/*@ fn table.rs::Table::size
impl: impl Table<Bstr>
ret: r
spec: ensures r == tv(*self).len()
@*/
pub open spec fn eq_sign() -> spec_fn(u8) -> bool { |c: u8| c == 61 }
pub open spec fn sep_is(sep: u8) -> spec_fn(u8) -> bool { |c: u8| c == sep }
pub open spec fn name_of(s: Seq<u8>) -> Seq<u8> { s.subrange(0, spl::first(s, eq_sign())) }
pub open spec fn value_of(s: Seq<u8>) -> Seq<u8> {
    let k = spl::first(s, eq_sign());
    if k < s.len() { s.subrange(k + 1, s.len() as int) } else { Seq::empty() }
}
/*@ fn urlencoded.rs::name_value
ret: r
closure 0: -> (b: bool) ensures b == (c == 61)
closure 1 args: __a0: (&[u8], &[u8], Option<char>)
closure 1: -> (b: &[u8]) ensures b@ == __a0.1@
start: proof { lemma_name(input@); }
spec: ensures input@.len() == 0 ==> r is Err, input@.len() > 0 ==> r is Ok && r->Ok_0.1@ == name_of(input@) && r->Ok_0.0@ == value_of(input@)
@*/
pub open spec fn eq_at(s: Seq<u8>, n: int) -> bool { 0 <= n <= s.len() && (forall|k: int| 0 <= k < n ==> (#[trigger] s[k]) != 61) && (n < s.len() ==> s[n] == 61) }
proof fn lemma_name1(s: Seq<u8>, n: int) requires eq_at(s, n) ensures spl::first(s, eq_sign()) == n { spl::lemma_first_at(s, eq_sign(), n); }
proof fn lemma_name(s: Seq<u8>)
    ensures forall|n: int| #![trigger s.subrange(0, n)] #![trigger eq_at(s, n)] eq_at(s, n) ==> spl::first(s, eq_sign()) == n
{
    assert forall|n: int| #![trigger s.subrange(0, n)] #![trigger eq_at(s, n)] eq_at(s, n) implies spl::first(s, eq_sign()) == n by { lemma_name1(s, n); }
}
/// the state of a parser
pub struct St { pub cfg: DecoderConfig, pub sep: u8, pub dec: bool, pub params: Params, pub flags: u64, pub status: HtpUnwanted, pub complete: bool, pub saw: bool, pub field: Seq<u8> }
pub open spec fn st(p: Parser) -> St { St { cfg: p.cfg, sep: p.argument_separator, dec: p.decode_url_encoding, params: tv(p.params), flags: p.flags, status: p.response_status_expected_number, complete: p.complete, saw: p.saw_data, field: p.field@ } }
/// one piece between separators
pub open spec fn piece(s: St, seg: Seq<u8>) -> St {
    if seg.len() == 0 { s }
    else if s.dec {
        let n = decoded(s.cfg, name_of(seg));
        let v = decoded(s.cfg, value_of(seg));
        St { params: s.params.push((n.0, v.0)), flags: (s.flags | n.1) | v.1, status: pick(pick(s.status, n.2), v.2), ..s }
    } else { St { params: s.params.push((name_of(seg), value_of(seg))), ..s } }
}
pub open spec fn pieces(s: St, segs: Seq<Seq<u8>>) -> St decreases segs.len() { if segs.len() == 0 { s } else { piece(pieces(s, segs.drop_last()), segs.last()) } }
/// where the last separator is, -1 without
pub open spec fn last_sep(s: Seq<u8>, sep: u8) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == sep { s.len() - 1 } else { last_sep(s.drop_last(), sep) } }
/// feeding data
pub open spec fn feed(s: St, data: Seq<u8>) -> St {
    let all = s.field + data;
    if all.len() == 0 { if s.complete && s.params.len() == 0 && s.saw { St { params: s.params.push((Seq::empty(), Seq::empty())), field: all, ..s } } else { St { field: all, ..s } } }
    else if s.complete { St { field: Seq::empty(), ..pieces(St { saw: true, field: all, ..s }, split_at(all, sep_is(s.sep))) } }
    else {
        let k = last_sep(all, s.sep);
        if k < 0 { St { saw: true, field: all, ..s } }
        else { St { field: all.subrange(k + 1, all.len() as int), ..pieces(St { saw: true, field: all, ..s }, split_at(all.subrange(0, k), sep_is(s.sep))) } }
    }
}
pub open spec fn finish(s: St) -> St { feed(St { complete: true, ..s }, Seq::empty()) }
#[verifier::external_body]
pub fn vx_rsplitn2<'a, F: Fn(&u8) -> bool>(s: &'a [u8], f: F, sep: u8) -> (r: Vec<&'a [u8]>)
    requires forall|c: &u8| f.requires((c,)), forall|c: &u8, b: bool| #[trigger] f.ensures((c,), b) ==> b == (*c == sep),
    ensures
        last_sep(s@, sep) < 0 ==> r@.len() == 1 && r@[0]@ == s@,
        last_sep(s@, sep) >= 0 ==> r@.len() == 2 && r@[1]@ == s@.subrange(0, last_sep(s@, sep)) && r@[0]@ == s@.subrange(last_sep(s@, sep) + 1, s@.len() as int),
{ unimplemented!() }
proof fn lemma_pieces_0(s: St) ensures pieces(s, Seq::empty()) == s {}
proof fn lemma_pieces_push(s: St, segs: Seq<Seq<u8>>, n: int)
    requires 0 <= n < segs.len(),
    ensures pieces(s, segs.subrange(0, n + 1)) == piece(pieces(s, segs.subrange(0, n)), segs[n]),
{
    let t = segs.subrange(0, n + 1);
    assert(t.drop_last() =~= segs.subrange(0, n));
    assert(t.last() == segs[n]);
}
proof fn lemma_last_sep(s: Seq<u8>, sep: u8)
    ensures -1 <= last_sep(s, sep) < s.len() || (s.len() == 0 && last_sep(s, sep) == -1), last_sep(s, sep) >= 0 ==> s[last_sep(s, sep)] == sep,
        forall|i: int| last_sep(s, sep) < i < s.len() ==> #[trigger] s[i] != sep,
    decreases s.len(),
{
    if s.len() > 0 && s.last() != sep {
        lemma_last_sep(s.drop_last(), sep);
        assert forall|i: int| last_sep(s, sep) < i < s.len() implies #[trigger] s[i] != sep by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } }
    }
}
/*@ fn urlencoded.rs::Parser::parse_partial
foreach: yes
pre: input.rsplitn(2, __ANY).collect() =>> vx_rsplitn2(input, __ANY, sep)
pre: input.split(__ANY) =>> vx_split(input, __ANY)
subst: name.add(consumed) =>> name.add(consumed.as_slice())
subst: value.add(consumed) =>> value.add(consumed.as_slice())
closures: pure
hide: hide(fold); hide(pieces); hide(last_sep); hide(split_at);
spec: ensures st(*final(self)) == feed(st(*old(self)), data@)
loop 0 iter: it
loop 0 before: let ghost __all = self.field@; let ghost __s0 = st(*self); let ghost __segs = split_at(input@, sep_is(sep)); proof { assert(__segs.subrange(0, 0) =~= Seq::empty()); lemma_pieces_0(__s0); assert(sep_is(sep) == sep_is(old(self).argument_separator)); }
loop 0: invariant views(it.seq()) == __segs, st(*self) == pieces(__s0, __segs.subrange(0, it.index@)), sep == __s0.sep, __s0 == (St { saw: true, field: __all, ..st(*old(self)) }),
loop 0 start: proof { lemma_pieces_push(__s0, __segs, it.index@); assert(views(it.seq())[it.index@] == segment@); lemma_pieces_same(__s0, __segs.subrange(0, it.index@)); }
loop 0 end: proof { assert(st(*self) == piece(pieces(__s0, __segs.subrange(0, it.index@)), segment@)); }
loop 0 after: proof { assert(__segs.subrange(0, __segs.len() as int) =~= __segs); }
@*/
proof fn lemma_pieces_same(s: St, segs: Seq<Seq<u8>>)
    ensures pieces(s, segs).cfg == s.cfg, pieces(s, segs).dec == s.dec, pieces(s, segs).sep == s.sep, pieces(s, segs).field == s.field, pieces(s, segs).saw == s.saw, pieces(s, segs).complete == s.complete,
    decreases segs.len(),
{ if segs.len() > 0 { lemma_pieces_same(s, segs.drop_last()); } }
/*@ fn urlencoded.rs::Parser::finalize
spec: ensures st(*final(self)) == finish(st(*old(self)))
@*/
/*@ fn urlencoded.rs::Parser::parse_complete
spec: ensures st(*final(self)) == finish(feed(st(*old(self)), data@))
@*/
// ---------------------------------------------------------------------------------------
// The property over these contracts: however the data is cut, the outcome is that of all of it.
proof fn lemma_pieces_cat(s: St, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    ensures pieces(s, a + b) == pieces(pieces(s, a), b)
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_pieces_cat(s, a, b.drop_last());
    }
}
proof fn lemma_split_cat(a: Seq<u8>, b: Seq<u8>, sep: u8)
    ensures split_at(a + seq![sep] + b, sep_is(sep)) == split_at(a, sep_is(sep)) + split_at(b, sep_is(sep))
    decreases a.len(),
{
    let p = sep_is(sep);
    let all = a + seq![sep] + b;
    spl::lemma_first(a, p);
    let k = spl::first(a, p);
    if k >= a.len() {
        assert(all.subrange(0, k) =~= a.subrange(0, k));
        spl::lemma_first_at(all, p, k);
        assert(all.subrange(0, k) =~= a);
        assert(all.subrange(k + 1, all.len() as int) =~= b);
        assert(split_at(a, p) =~= seq![a]);
    } else {
        assert(all.subrange(0, k) =~= a.subrange(0, k));
        spl::lemma_first_at(all, p, k);
        let t = a.subrange(k + 1, a.len() as int);
        assert(all.subrange(k + 1, all.len() as int) =~= t + seq![sep] + b);
        lemma_split_cat(t, b, sep);
        assert(split_at(all, p) =~= split_at(a, p) + split_at(b, p));
    }
}
proof fn lemma_split_none(a: Seq<u8>, sep: u8)
    requires last_sep(a, sep) < 0
    ensures split_at(a, sep_is(sep)) == seq![a]
{
    lemma_last_sep(a, sep);
    assert(a.subrange(0, a.len() as int) =~= a);
    spl::lemma_first_at(a, sep_is(sep), a.len() as int);
}
/// what must come out of `total` given the parser s0 it was fed to
pub open spec fn outcome(s0: St, total: Seq<u8>) -> (Params, u64, HtpUnwanted) {
    let r = pieces(s0, split_at(total, sep_is(s0.sep)));
    if r.params.len() == 0 && total.len() > 0 { (seq![(Seq::empty(), Seq::empty())], r.flags, r.status) } else { (r.params, r.flags, r.status) }
}
pub open spec fn fresh(s: St) -> bool { s.params.len() == 0 && !s.complete && !s.saw && s.field.len() == 0 }
/// after `total` has been fed to s0, leaving s
pub open spec fn mid(s0: St, s: St, total: Seq<u8>) -> bool {
    let k = last_sep(total, s0.sep);
    &&& s.cfg == s0.cfg && s.sep == s0.sep && s.dec == s0.dec && !s.complete
    &&& s.saw == (total.len() > 0)
    &&& k < 0 ==> s.field == total && core(s) == core(s0)
    &&& k >= 0 ==> s.field == total.subrange(k + 1, total.len() as int) && core(s) == core(pieces(s0, split_at(total.subrange(0, k), sep_is(s0.sep))))
}
pub open spec fn core(s: St) -> (Params, u64, HtpUnwanted) { (s.params, s.flags, s.status) }
// the bookkeeping fields do not influence what pieces produce
proof fn lemma_core(a: St, b: St, segs: Seq<Seq<u8>>)
    requires core(a) == core(b), a.cfg == b.cfg, a.dec == b.dec,
    ensures core(pieces(a, segs)) == core(pieces(b, segs)),
    decreases segs.len(),
{
    if segs.len() > 0 {
        lemma_core(a, b, segs.drop_last());
        lemma_pieces_same(a, segs.drop_last());
        lemma_pieces_same(b, segs.drop_last());
    }
}
proof fn lemma_last_at(s: Seq<u8>, sep: u8, k: int)
    requires -1 <= k < s.len(), k >= 0 ==> s[k] == sep, forall|i: int| k < i < s.len() ==> #[trigger] s[i] != sep,
    ensures last_sep(s, sep) == k
{ lemma_last_sep(s, sep); let l = last_sep(s, sep); if l > k { assert(s[l] != sep); } if l < k { assert(s[k] != sep); } }
proof fn lemma_feed(s0: St, s: St, total: Seq<u8>, d: Seq<u8>)
    requires mid(s0, s, total),
    ensures mid(s0, feed(s, d), total + d),
{
    hide(fold); hide(pieces); hide(last_sep); hide(split_at); hide(spl::first); hide(piece);
    let sep = s0.sep;
    let ls = last_sep(total, sep);
    let all = s.field + d;
    let k = last_sep(all, sep);
    let t2 = total + d;
    lemma_last_sep(total, sep);
    lemma_last_sep(all, sep);
    let off = ls + 1;
    assert(forall|i: int| 0 <= i < all.len() ==> #[trigger] all[i] == t2[off + i]);
    if all.len() == 0 { assert(d =~= Seq::<u8>::empty()); assert(t2 =~= total); assert(all =~= s.field); }
    else if k < 0 {
        assert forall|i: int| ls < i < t2.len() implies #[trigger] t2[i] != sep by { assert(all[i - off] == t2[i]); }
        lemma_last_at(t2, sep, ls);
        if ls < 0 { assert(all =~= t2); } else { assert(t2.subrange(ls + 1, t2.len() as int) =~= all); assert(t2.subrange(0, ls) =~= total.subrange(0, ls)); }
    } else {
        assert(t2[off + k] == all[k]);
        assert forall|i: int| off + k < i < t2.len() implies #[trigger] t2[i] != sep by { assert(all[i - off] == t2[i]); }
        lemma_last_at(t2, sep, off + k);
        let a = all.subrange(0, k);
        let r = pieces(St { saw: true, field: all, ..s }, split_at(a, sep_is(sep)));
        lemma_pieces_same(St { saw: true, field: all, ..s }, split_at(a, sep_is(sep)));
        assert(t2.subrange(off + k + 1, t2.len() as int) =~= all.subrange(k + 1, all.len() as int));
        if ls < 0 {
            assert(all =~= t2);
            lemma_core(St { saw: true, field: all, ..s }, s0, split_at(a, sep_is(sep)));
        } else {
            let h = total.subrange(0, ls);
            assert(t2.subrange(0, off + k) =~= h + seq![sep] + a);
            lemma_split_cat(h, a, sep);
            lemma_pieces_cat(s0, split_at(h, sep_is(sep)), split_at(a, sep_is(sep)));
            lemma_pieces_same(s0, split_at(h, sep_is(sep)));
            lemma_core(St { saw: true, field: all, ..s }, pieces(s0, split_at(h, sep_is(sep))), split_at(a, sep_is(sep)));
        }
    }
}
proof fn lemma_piece1(s: St, f: Seq<u8>) ensures pieces(s, seq![f]) == piece(s, f) { assert(seq![f].drop_last() =~= Seq::<Seq<u8>>::empty()); lemma_pieces_0(s); assert(pieces(s, seq![f].drop_last()) == s); assert(seq![f].last() == f); }
proof fn lemma_finish(s0: St, s: St, total: Seq<u8>)
    requires fresh(s0), mid(s0, s, total),
    ensures core(finish(s)) == outcome(s0, total),
{
    hide(fold); hide(pieces); hide(last_sep); hide(split_at); hide(spl::first);
    let sep = s0.sep;
    let ls = last_sep(total, sep);
    let f = s.field;
    lemma_last_sep(total, sep);
    assert(f + Seq::<u8>::empty() =~= f);
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] != sep by { assert(f[i] == total[ls + 1 + i]); }
    lemma_last_at(f, sep, -1);
    lemma_split_none(f, sep);
    let h = total.subrange(0, ls);
    let s1 = if ls < 0 { s0 } else { pieces(s0, split_at(h, sep_is(sep))) };
    if ls < 0 { lemma_piece1(s0, f); } else {
        assert(total =~= h + seq![sep] + f);
        lemma_split_cat(h, f, sep);
        lemma_pieces_cat(s0, split_at(h, sep_is(sep)), seq![f]);
        lemma_piece1(s1, f);
        lemma_pieces_same(s0, split_at(h, sep_is(sep)));
    }
    assert(core(pieces(s0, split_at(total, sep_is(sep)))) == core(piece(s1, f)));
    let c = St { complete: true, ..s };
    if f.len() > 0 {
        let c2 = St { saw: true, field: f, ..c };
        lemma_piece1(c2, f);
        lemma_pieces_same(c2, seq![f]);
        assert(core(piece(c2, f)) == core(piece(s1, f)));
    } else {
        assert(core(piece(s1, f)) == core(s));
        if s.params.len() == 0 { assert(s.params.push((Seq::empty(), Seq::empty())) =~= seq![(Seq::<u8>::empty(), Seq::<u8>::empty())]); }
    }
}
pub open spec fn fed(s0: St, chunks: Seq<Seq<u8>>) -> St decreases chunks.len() { if chunks.len() == 0 { s0 } else { feed(fed(s0, chunks.drop_last()), chunks.last()) } }
pub open spec fn cat(chunks: Seq<Seq<u8>>) -> Seq<u8> decreases chunks.len() { if chunks.len() == 0 { Seq::empty() } else { cat(chunks.drop_last()) + chunks.last() } }
proof fn lemma_fed(s0: St, chunks: Seq<Seq<u8>>)
    requires fresh(s0),
    ensures mid(s0, fed(s0, chunks), cat(chunks)),
    decreases chunks.len(),
{
    if chunks.len() == 0 { assert(s0.field =~= Seq::<u8>::empty()); } else { lemma_fed(s0, chunks.drop_last()); lemma_feed(s0, fed(s0, chunks.drop_last()), cat(chunks.drop_last()), chunks.last()); }
}
/// every cut of the same data gives the same parameters, findings and expected status: those of the whole
pub proof fn theorem_cuts(s0: St, chunks: Seq<Seq<u8>>)
    requires fresh(s0),
    ensures core(finish(fed(s0, chunks))) == outcome(s0, cat(chunks)), core(finish(feed(s0, cat(chunks)))) == outcome(s0, cat(chunks)),
{
    lemma_fed(s0, chunks);
    lemma_finish(s0, fed(s0, chunks), cat(chunks));
    lemma_fed(s0, Seq::empty());
    assert(cat(Seq::empty()) + cat(chunks) =~= cat(chunks));
    lemma_feed(s0, s0, Seq::empty(), cat(chunks));
    lemma_finish(s0, feed(s0, cat(chunks)), cat(chunks));
}
/*@ fn urlencoded.rs::Parser::new
ret: r
subst: Table::with_capacity(32) =>> Table::<Bstr>::with_capacity(32)
spec: ensures fresh(st(r)), r.cfg == cfg, r.argument_separator == 38, r.decode_url_encoding, r.flags == 0, r.response_status_expected_number == HtpUnwanted::IGNORE
@*/
/*@ fn table.rs::Table::with_capacity
impl: impl Table<Bstr>
ret: r
spec: ensures tv(r).len() == 0
@*/
}
fn main() {}
