// ---- slices of slices: split and join (assumed contracts on core) ------------------------
pub mod spl {
    use vstd::prelude::*;
    pub open spec fn first(s: Seq<u8>, p: spec_fn(u8) -> bool) -> int decreases s.len() {
        if s.len() == 0 || p(s[0]) { 0 } else { 1 + first(s.subrange(1, s.len() as int), p) }
    }
    /// the pieces of s between the bytes that satisfy p; there is always at least one
    pub open spec fn split_at(s: Seq<u8>, p: spec_fn(u8) -> bool) -> Seq<Seq<u8>> decreases s.len() {
        let k = first(s, p);
        if k < 0 || k >= s.len() { seq![s] } else { seq![s.subrange(0, k)] + split_at(s.subrange(k + 1, s.len() as int), p) }
    }
    pub open spec fn join(v: Seq<Seq<u8>>, sep: u8) -> Seq<u8> decreases v.len() {
        if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { v[0] + seq![sep] + join(v.subrange(1, v.len() as int), sep) }
    }
    pub open spec fn views(v: Seq<&[u8]>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
    pub open spec fn clean(s: Seq<u8>, p: spec_fn(u8) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i]) }

    pub proof fn lemma_first(s: Seq<u8>, p: spec_fn(u8) -> bool)
        ensures 0 <= first(s, p) <= s.len(), clean(s.subrange(0, first(s, p)), p), first(s, p) < s.len() ==> p(s[first(s, p)]),
        decreases s.len(),
    {
        if s.len() == 0 || p(s[0]) { assert(s.subrange(0, 0) =~= Seq::<u8>::empty()); } else {
            let t = s.subrange(1, s.len() as int);
            lemma_first(t, p);
            let k = first(t, p);
            assert forall|i: int| 0 <= i < k + 1 implies !p(#[trigger] s.subrange(0, k + 1)[i]) by {
                if i > 0 { assert(t.subrange(0, k)[i - 1] == s[i]); }
            }
        }
    }
    pub proof fn lemma_first_at(s: Seq<u8>, p: spec_fn(u8) -> bool, k: int)
        requires 0 <= k <= s.len(), clean(s.subrange(0, k), p), k < s.len() ==> p(s[k]),
        ensures first(s, p) == k,
        decreases s.len(),
    {
        if k > 0 {
            assert(s.subrange(0, k)[0] == s[0]);
            let t = s.subrange(1, s.len() as int);
            assert forall|i: int| 0 <= i < k - 1 implies !p(#[trigger] t.subrange(0, k - 1)[i]) by { assert(s.subrange(0, k)[i + 1] == t.subrange(0, k - 1)[i]); }
            lemma_first_at(t, p, k - 1);
        }
    }
    pub proof fn lemma_split_clean(s: Seq<u8>, p: spec_fn(u8) -> bool)
        ensures split_at(s, p).len() > 0, forall|i: int| 0 <= i < split_at(s, p).len() ==> clean(#[trigger] split_at(s, p)[i], p),
        decreases s.len(),
    {
        lemma_first(s, p);
        let k = first(s, p);
        if k >= s.len() { assert(s.subrange(0, k) =~= s); } else { lemma_split_clean(s.subrange(k + 1, s.len() as int), p); }
    }
    /// splitting a join of separator-free pieces gives the pieces back
    pub proof fn lemma_split_join(v: Seq<Seq<u8>>, p: spec_fn(u8) -> bool, sep: u8)
        requires v.len() > 0, forall|c: u8| #[trigger] p(c) == (c == sep), forall|i: int| 0 <= i < v.len() ==> clean(#[trigger] v[i], p),
        ensures split_at(join(v, sep), p) == v,
        decreases v.len(),
    {
        let j = join(v, sep);
        if v.len() == 1 {
            assert(j.subrange(0, j.len() as int) =~= j);
            lemma_first_at(j, p, j.len() as int);
            assert(v =~= seq![j]);
        } else {
            let k = v[0].len() as int;
            let t = v.subrange(1, v.len() as int);
            assert(j.subrange(0, k) =~= v[0]);
            lemma_first_at(j, p, k);
            assert(j.subrange(k + 1, j.len() as int) =~= join(t, sep));
            lemma_split_join(t, p, sep);
            assert(v =~= seq![v[0]] + t);
        }
    }
    /// joining the pieces of a split gives the input back
    pub proof fn lemma_join_split(s: Seq<u8>, p: spec_fn(u8) -> bool, sep: u8)
        requires forall|c: u8| #[trigger] p(c) == (c == sep),
        ensures join(split_at(s, p), sep) == s,
        decreases s.len(),
    {
        lemma_first(s, p);
        let k = first(s, p);
        if k < s.len() {
            let t = s.subrange(k + 1, s.len() as int);
            lemma_join_split(t, p, sep);
            lemma_split_clean(t, p);
            let v = split_at(s, p);
            assert(v.subrange(1, v.len() as int) =~= split_at(t, p));
            assert(join(v, sep) =~= s);
        }
    }
}
pub use spl::{split_at, join, views};
#[verifier::external_body]
pub fn vx_split<'a, F: Fn(&u8) -> bool>(s: &'a [u8], f: F) -> (r: Vec<&'a [u8]>)
    requires forall|c: &u8| f.requires((c,)),
    ensures forall|p: spec_fn(u8) -> bool| (forall|c: &u8, b: bool| #[trigger] f.ensures((c,), b) ==> b == p(*c)) ==> views(r@) == #[trigger] split_at(s@, p),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_join(v: &Vec<&[u8]>, sep: &[u8]) -> (r: Vec<u8>)
    requires sep@.len() == 1,
    ensures r@ == join(views(v@), sep@[0]),
{ unimplemented!() }
