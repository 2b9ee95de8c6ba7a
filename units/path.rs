#![allow(unused)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include base.inc
//@include bstr.inc
//@include split.inc
// ---------------------------------------------------------------------------------------
pub open spec fn slash() -> spec_fn(u8) -> bool { |c: u8| c == 47 }
pub open spec fn dot(s: Seq<u8>) -> bool { s.len() == 1 && s[0] == 46 }
pub open spec fn dotdot(s: Seq<u8>) -> bool { s.len() == 2 && s[0] == 46 && s[1] == 46 }
/// what one segment does to the segments kept so far
pub open spec fn keep(out: Seq<Seq<u8>>, seg: Seq<u8>) -> Seq<Seq<u8>> {
    if dot(seg) { out }
    else if dotdot(seg) { if out.len() == 0 || (out.len() == 1 && out[0].len() == 0) { out } else { out.drop_last() } }
    else { out.push(seg) }
}
pub open spec fn kept(segs: Seq<Seq<u8>>, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 0 { Seq::empty() } else { keep(kept(segs, n - 1), segs[n - 1]) }
}
pub open spec fn segments(s: Seq<u8>) -> Seq<Seq<u8>> { split_at(s, slash()) }
pub open spec fn normal(s: Seq<u8>) -> Seq<u8> { join(kept(segments(s), segments(s).len() as int), 47) }

proof fn lemma_kept(segs: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= segs.len(), forall|i: int| 0 <= i < segs.len() ==> spl::clean(#[trigger] segs[i], slash()),
    ensures
        forall|i: int| 0 <= i < kept(segs, n).len() ==> !dot(#[trigger] kept(segs, n)[i]) && !dotdot(kept(segs, n)[i]) && spl::clean(kept(segs, n)[i], slash()) && segs.contains(kept(segs, n)[i]),
        n >= 1 && segs[0].len() == 0 ==> kept(segs, n).len() >= 1 && kept(segs, n)[0].len() == 0,
    decreases n,
{
    if n > 0 {
        lemma_kept(segs, n - 1);
        let o = kept(segs, n - 1);
        assert(segs.contains(segs[n - 1]));
        assert forall|i: int| 0 <= i < kept(segs, n).len() implies !dot(#[trigger] kept(segs, n)[i]) && !dotdot(kept(segs, n)[i]) && spl::clean(kept(segs, n)[i], slash()) && segs.contains(kept(segs, n)[i]) by {
            if i < o.len() { assert(kept(segs, n)[i] == o[i]); }
        }
    }
}
/// segments without dots are all kept
proof fn lemma_kept_id(segs: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= segs.len(), forall|i: int| 0 <= i < segs.len() ==> !dot(#[trigger] segs[i]) && !dotdot(segs[i]),
    ensures kept(segs, n) == segs.subrange(0, n),
    decreases n,
{
    if n > 0 { lemma_kept_id(segs, n - 1); assert(segs.subrange(0, n) =~= segs.subrange(0, n - 1).push(segs[n - 1])); }
    else { assert(segs.subrange(0, 0) =~= Seq::<Seq<u8>>::empty()); }
}
/// The property, over the contract of the code: no dot segment survives, nothing is invented,
/// an absolute path stays rooted, and normalizing twice is normalizing once.
pub proof fn theorem_normal(s: Seq<u8>)
    ensures
        forall|i: int| 0 <= i < segments(normal(s)).len() ==> !dot(#[trigger] segments(normal(s))[i]) && !dotdot(segments(normal(s))[i]),
        forall|i: int| 0 <= i < segments(normal(s)).len() ==> (#[trigger] segments(normal(s))[i]).len() == 0 || segments(s).contains(segments(normal(s))[i]),
        s.len() > 0 && s[0] == 47 ==> normal(s).len() == 0 || normal(s)[0] == 47,
        normal(normal(s)) == normal(s),
{
    let v = segments(s);
    spl::lemma_split_clean(s, slash());
    lemma_kept(v, v.len() as int);
    let k = kept(v, v.len() as int);
    let n = normal(s);
    if k.len() == 0 {
        assert(n =~= Seq::<u8>::empty());
        spl::lemma_first(n, slash());
        assert(segments(n) =~= seq![n]);
        assert(kept(segments(n), 1) =~= seq![n]) by { reveal_with_fuel(kept, 2); }
        assert(join(seq![n], 47) == n);
    } else {
        spl::lemma_split_join(k, slash(), 47);
        assert(segments(n) == k);
        lemma_kept_id(k, k.len() as int);
        assert(k.subrange(0, k.len() as int) =~= k);
    }
    if s.len() > 0 && s[0] == 47 {
        assert(spl::first(s, slash()) == 0);
        assert(v[0] =~= s.subrange(0, 0));
        if k.len() == 1 { assert(n == k[0]); } else { assert(n[0] == 47); }
    }
}
/*@ fn uri.rs::normalize_uri_path_inplace
foreach: yes
pre: s.as_slice().split(__ANY) =>> vx_split(s.as_slice(), __ANY)
pre: out.join(__ANY) =>> vx_join(&out, __ANY)
subst: out[0] == empty_bytes() =>> bytes_eq(out[0], empty_bytes())
subst: as &[u8] =>> 
closures: pure
spec: ensures final(s)@ == normal(old(s)@)
loop 0 iter: it
loop 0 before: let ghost __segs = segments(s@);
loop 0: invariant views(it.seq()) == __segs, __segs == segments(s@), s@ == old(s)@, views(out@) == kept(__segs, it.index@),
loop 0 start: proof { assert(views(it.seq())[it.index@] == segment@); assert(views(out@).len() == out@.len()); if out@.len() > 0 { assert(views(out@)[0] == out@[0]@); } }
   let ghost __o = out@; let ghost __seg = segment@;
loop 0 end: proof { 
    assert(views(out@) =~= keep(views(__o), __seg));
  }
@*/
}
fn main() {}
