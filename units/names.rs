#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
use core::cmp::Ordering;
verus! {
//@include base.inc
pub open spec fn lower(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
pub assume_specification [u8::to_ascii_lowercase] (_0: &u8) -> (r: u8) ensures r == lower(*_0);
//@include bstr.inc
// ---------------------------------------------------------------------------------------
/// s without NULs, and in lower case
pub open spec fn folded(s: Seq<u8>, nul: bool) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { s }
    else if s[0] == 0 && !nul { folded(s.subrange(1, s.len() as int), nul) }
    else { seq![lower(s[0])] + folded(s.subrange(1, s.len() as int), nul) }
}
pub open spec fn lowered(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| lower(s[i])) }
pub open spec fn after(s: Seq<u8>, k: int) -> Seq<u8> { if 0 <= k <= s.len() { s.subrange(k, s.len() as int) } else { Seq::empty() } }
/// lexicographic order of byte strings
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
/// what an order of Equal means
pub proof fn lemma_lex(a: Seq<u8>, b: Seq<u8>) ensures (lex(a, b) == Ordering::Equal) == (a == b) decreases a.len() {
    if a.len() > 0 && b.len() > 0 {
        lemma_lex(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int));
        assert(a =~= seq![a[0]] + a.subrange(1, a.len() as int));
        assert(b =~= seq![b[0]] + b.subrange(1, b.len() as int));
    } else { assert(a.len() == 0 && b.len() == 0 ==> a =~= b); }
}
/// the next position at or after k that is not skipped
pub open spec fn nextpos(s: Seq<u8>, k: int, nul: bool) -> int decreases s.len() - k {
    if k < 0 || k >= s.len() { k } else if s[k] == 0 && !nul { nextpos(s, k + 1, nul) } else { k }
}
proof fn lemma_nextpos(s: Seq<u8>, k: int, nul: bool)
    requires 0 <= k <= s.len(),
    ensures k <= nextpos(s, k, nul) <= s.len(),
        nextpos(s, k, nul) < s.len() ==> (nul || s[nextpos(s, k, nul)] != 0),
        folded(after(s, k), nul) == folded(after(s, nextpos(s, k, nul)), nul),
        forall|j: int| k <= j < nextpos(s, k, nul) ==> #[trigger] s[j] == 0 && !nul,
    decreases s.len() - k,
{
    if k < s.len() && s[k] == 0 && !nul {
        lemma_nextpos(s, k + 1, nul);
        assert(after(s, k).subrange(1, after(s, k).len() as int) =~= after(s, k + 1));
    }
}
proof fn lemma_next(s: Seq<u8>, k: int, nul: bool)
    requires 0 <= k <= s.len(),
    ensures ({ let p = nextpos(s, k, nul); if p < s.len() { folded(after(s, k), nul) == seq![lower(s[p])] + folded(after(s, p + 1), nul) } else { folded(after(s, k), nul).len() == 0 } }),
{
    lemma_nextpos(s, k, nul);
    let p = nextpos(s, k, nul);
    if p < s.len() { assert(after(s, p).subrange(1, after(s, p).len() as int) =~= after(s, p + 1)); }
}
pub open spec fn okpos(s: Seq<u8>, idx: int, start: int) -> bool { 0 <= start <= s.len() + 1 && 0 <= idx <= s.len() && s.len() < usize::MAX && idx <= start }
/// A position in a string, producing its bytes from there in lower case.
pub trait ByteIter: Sized {
    spec fn src(&self) -> Seq<u8>;
    spec fn nul(&self) -> bool;
    spec fn idx(&self) -> int;
    spec fn start(&self) -> int;
    fn next(&mut self) -> (r: Option<u8>)
        requires okpos(old(self).src(), old(self).idx(), old(self).start()), old(self).start() <= old(self).src().len(),
        ensures okpos(final(self).src(), final(self).idx(), final(self).start()), final(self).src() == old(self).src(), final(self).nul() == old(self).nul(),
            ({ let p = nextpos(old(self).src(), old(self).start(), old(self).nul());
               if p < old(self).src().len() { r == Some(lower(old(self).src()[p])) && final(self).idx() == p && final(self).start() == p + 1 && p >= old(self).start() && (old(self).nul() || old(self).src()[p] != 0) } else { r is None } }),
            forall|j: int| old(self).start() <= j < (if r is Some { final(self).idx() } else { old(self).src().len() as int }) ==> #[trigger] old(self).src()[j] == 0 && !old(self).nul();
}
pub trait SubIterator: ByteIter {
    fn subiter(&self) -> (r: Self) requires okpos(self.src(), self.idx(), self.start()) ensures okpos(r.src(), r.idx(), r.start()), r.src() == self.src(), r.nul() == self.nul(), r.start() == self.idx();
    fn index(&self) -> (r: usize) requires okpos(self.src(), self.idx(), self.start()) ensures r == self.idx();
}
pub assume_specification [Ordering::eq] (_0: &Ordering, _1: &Ordering) -> (r: bool) ensures r == (*_0 == *_1);
/*@ item bstr.rs::LowercaseIterator
subst: T: AsRef<[u8]> =>> T
@*/
/*@ item bstr.rs::LowercaseNoZeroIterator
subst: T: AsRef<[u8]> =>> T
@*/
pub type S<'a> = &'a [u8];
impl<'a> ByteIter for LowercaseIterator<'a, S<'a>> {
    open spec fn src(&self) -> Seq<u8> { self.src@ }
    open spec fn nul(&self) -> bool { true }
    open spec fn idx(&self) -> int { self.idx as int }
    open spec fn start(&self) -> int { if self.first { self.idx as int } else { self.idx + 1 } }
/*@ fn bstr.rs::Iterator::LowercaseIterator::next
noimpl:
subst: Self::Item =>> u8
subst: .as_ref() =>> 
closure 0 args: c: &u8
closure 0: -> (b: u8) ensures b == lower(*c)
@*/
}
impl<'a> SubIterator for LowercaseIterator<'a, S<'a>> {
/*@ fn bstr.rs::SubIterator::LowercaseIterator::subiter
noimpl:
@*/
/*@ fn bstr.rs::SubIterator::LowercaseIterator::index
noimpl:
@*/
}
impl<'a> ByteIter for LowercaseNoZeroIterator<'a, S<'a>> {
    open spec fn src(&self) -> Seq<u8> { self.src@ }
    open spec fn nul(&self) -> bool { false }
    open spec fn idx(&self) -> int { self.idx as int }
    open spec fn start(&self) -> int { if self.first { self.idx as int } else { self.idx + 1 } }
/*@ fn bstr.rs::Iterator::LowercaseNoZeroIterator::next
noimpl:
subst: Self::Item =>> u8
subst: .as_ref() =>> 
subst: next != Some(0) =>> !(next == Some(0u8))
subst: break next =>> return next
closure 0 args: c: &u8
closure 0: -> (b: u8) ensures b == lower(*c)
loop 0: invariant self.start() >= old(self).start(), forall|j: int| old(self).start() <= j < self.start() ==> #[trigger] self.src()[j] == 0, okpos(self.src(), self.idx(), self.start()), self.start() <= self.src().len(), self.src() == old(self).src(), nextpos(self.src(), self.start(), false) == nextpos(old(self).src(), old(self).start(), false), decreases self.src().len() - self.start(),
loop 0 start: proof { lemma_nextpos(self.src(), self.start(), false); }
@*/
}
impl<'a> SubIterator for LowercaseNoZeroIterator<'a, S<'a>> {
/*@ fn bstr.rs::SubIterator::LowercaseNoZeroIterator::subiter
noimpl:
@*/
/*@ fn bstr.rs::SubIterator::LowercaseNoZeroIterator::index
noimpl:
@*/
}
/// needle occurs in s at k: s[k] is the first byte that counts, and the bytes from there on begin with needle
pub open spec fn hit(s: Seq<u8>, k: int, needle: Seq<u8>, nul: bool) -> bool {
    &&& 0 <= k < s.len() && (nul || s[k] != 0)
    &&& starts(folded(after(s, k), nul), needle)
}
pub open spec fn starts(s: Seq<u8>, t: Seq<u8>) -> bool { t.len() <= s.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] s[i] == t[i] }
/*@ fn bstr.rs::index_of
ret: r
sig: fn index_of<T: SubIterator>(haystack: &mut T, needle: &[u8]) -> (r: Option<usize>)
loop 0: invariant_except_break okpos(haystack.src(), haystack.idx(), haystack.start()), haystack.start() <= haystack.src().len(), haystack.src() == old(haystack).src(), haystack.nul() == old(haystack).nul(), needle@.len() > 0, *first == needle@[0],
      forall|j: int| 0 <= j < haystack.start() ==> !#[trigger] hit(haystack.src(), j, needle@, haystack.nul()),
   ensures forall|k: int| !#[trigger] hit(old(haystack).src(), k, needle@, old(haystack).nul()),
   decreases haystack.src().len() - haystack.start(),
loop 0 start: let ghost __r = folded(after(haystack.src(), haystack.idx()), haystack.nul()); proof { lemma_next(haystack.src(), haystack.idx(), haystack.nul()); lemma_nextpos(haystack.src(), haystack.idx(), haystack.nul()); assert(nextpos(haystack.src(), haystack.idx(), haystack.nul()) == haystack.idx()); assert(__r[0] == s); }
loop 1 iter: it
loop 1: invariant_except_break it.seq().len() == needle@.len(), forall|i: int| 0 <= i < needle@.len() ==> *#[trigger] it.seq()[i] == needle@[i],
      okpos(test.src(), test.idx(), test.start()), test.start() <= test.src().len(), test.src() == haystack.src(), test.nul() == haystack.nul(), folded(after(test.src(), test.start()), test.nul()) == after(__r, it.index@), it.index@ <= __r.len(), equal == (it.index@ > 0), needle@.len() > 0,
      forall|i: int| 0 <= i < it.index@ ==> #[trigger] __r[i] == needle@[i],
   ensures equal == starts(__r, needle@),
loop 1 start: let ghost __f = folded(after(test.src(), test.start()), test.nul()); proof { lemma_next(test.src(), test.start(), test.nul()); assert(after(__r, it.index@).len() > 0 ==> after(__r, it.index@)[0] == __r[it.index@]); }
loop 1 end: proof { let t = folded(after(test.src(), test.start()), test.nul()); assert(__f =~= seq![__f[0]] + t); assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == after(__r, it.index@ + 1)[j] by { assert(__f[j + 1] == t[j]); assert(__f[j + 1] == __r[it.index@ + j + 1]); } assert(folded(after(test.src(), test.start()), test.nul()) =~= after(__r, it.index@ + 1)); }
subst: needle.as_ref().first()? =>> needle.first()?
subst: needle.as_ref().as_bytes() =>> needle.iter()
spec: requires okpos(old(haystack).src(), old(haystack).idx(), old(haystack).start()), old(haystack).start() == 0,
    ensures ({ let s = old(haystack).src(); let nul = old(haystack).nul();
        match r { None => needle@.len() == 0 || forall|k: int| !#[trigger] hit(s, k, needle@, nul),
                  Some(k) => needle@.len() > 0 && hit(s, k as int, needle@, nul) && forall|j: int| 0 <= j < k ==> !#[trigger] hit(s, j, needle@, nul) } })
@*/
#[verifier::external_body]
pub fn vx_iter_cmp<A: ByteIter, B: ByteIter>(a: A, b: B) -> (r: Ordering)
    requires okpos(a.src(), a.idx(), a.start()), okpos(b.src(), b.idx(), b.start()), a.start() == 0, b.start() == 0,
    ensures r == lex(folded(after(a.src(), 0), a.nul()), folded(after(b.src(), 0), b.nul())),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_cmp(a: &[u8], b: &[u8]) -> (r: Ordering) ensures r == lex(a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_starts_with(a: &[u8], b: &[u8]) -> (r: bool) ensures r == starts(a@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_eq_ignore_ascii_case(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (lowered(a@) =~= lowered(b@)) { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_ascii_lowercase(a: &[u8]) -> (r: Vec<u8>) ensures r@ == lowered(a@) { unimplemented!() }
/// bstr's substring search (assumed contract)
#[verifier::external_body]
pub fn vx_find(a: &[u8], b: &[u8]) -> (r: Option<usize>)
    ensures match r { None => forall|k: int| 0 <= k <= a@.len() ==> !starts(#[trigger] after(a@, k), b@), Some(k) => k <= a@.len() && starts(after(a@, k as int), b@) && forall|j: int| 0 <= j < k ==> !starts(#[trigger] after(a@, j), b@) }
{ unimplemented!() }
/// bstr's trimming of characters at both ends (assumed contracts). `trim` removes Unicode white space, which
/// is left uninterpreted here.
pub open spec fn trimmed(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && ascii_ws(s[0]) { trimmed(s.subrange(1, s.len() as int)) } else if s.len() > 0 && ascii_ws(s.last()) { trimmed(s.drop_last()) } else { s }
}
#[verifier::external_body]
pub fn vx_trim_with<F: Fn(char) -> bool>(b: &Bstr, f: F) -> (r: &[u8])
    requires forall|c: char| f.requires((c,)), forall|c: char, b: bool| f.ensures((c,), b) ==> b == char_ws(c),
    ensures r@ == trimmed(b@)
{ unimplemented!() }
pub open spec fn char_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\x0c' || c == '\r' }
pub assume_specification [char::is_ascii_whitespace] (_0: &char) -> (r: bool) ensures r == char_ws(*_0);
pub uninterp spec fn utrim(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn vx_trim(b: &Bstr) -> (r: &[u8]) ensures r@ == utrim(b@) { unimplemented!() }
proof fn lemma_folded(s: Seq<u8>) ensures folded(s, true) == lowered(s), after(s, 0) == s decreases s.len() {
    assert(after(s, 0) =~= s);
    if s.len() > 0 { lemma_folded(s.subrange(1, s.len() as int)); assert(folded(s, true) =~= lowered(s)); } else { assert(s =~= lowered(s)); }
}
proof fn lemma_all(a: Seq<u8>, b: Seq<u8>)
    ensures folded(a, true) == lowered(a), folded(b, true) == lowered(b), after(a, 0) == a, after(b, 0) == b,
{ lemma_folded(a); lemma_folded(b); }
proof fn lemma_eq(a: Seq<u8>, b: Seq<u8>) ensures (lex(a, b) == Ordering::Equal) == (a == b) { lemma_lex(a, b); }
/*@ fn bstr.rs::LowercaseIterator::new
impl: impl<'a> LowercaseIterator<'a, S<'a>>
sig: fn new(src: &'a S<'a>) -> (r: LowercaseIterator<'a, S<'a>>)
ret: r
spec: ensures r.src() == src@, r.idx() == 0, r.start() == 0
@*/
/*@ fn bstr.rs::LowercaseNoZeroIterator::new
impl: impl<'a> LowercaseNoZeroIterator<'a, S<'a>>
sig: fn new(src: &'a S<'a>) -> (r: LowercaseNoZeroIterator<'a, S<'a>>)
ret: r
spec: ensures r.src() == src@, r.idx() == 0, r.start() == 0
@*/
/*@ fn bstr.rs::Bstr::cmp_slice
ret: r
sig: pub fn cmp_slice(&self, other: &[u8]) -> (r: Ordering)
subst: other.as_ref() =>> other
subst: self.as_slice().cmp(other) =>> vx_cmp(self.as_slice(), other)
spec: ensures r == lex(self@, other@)
@*/
/*@ fn bstr.rs::Bstr::eq_slice
ret: r
sig: pub fn eq_slice(&self, other: &[u8]) -> (r: bool)
subst: other.as_ref() =>> other
start: proof { lemma_eq(self@, other@); }
spec: ensures r == (self@ == other@)
@*/
/*@ fn bstr.rs::Bstr::cmp_nocase
ret: r
sig: pub fn cmp_nocase(&self, other: &[u8]) -> (r: Ordering)
subst: other.as_ref() =>> other
subst: left.cmp(right) =>> vx_iter_cmp(left, right)
start: proof { lemma_all(self@, other@); }
spec: ensures r == lex(lowered(self@), lowered(other@))
@*/
/*@ fn bstr.rs::Bstr::cmp_nocase_trimmed
ret: r
sig: pub fn cmp_nocase_trimmed(&self, other: &[u8]) -> (r: Ordering)
subst: other.as_ref() =>> other
subst: left.cmp(right) =>> vx_iter_cmp(left, right)
subst: self.trim_with(__ANY) =>> vx_trim_with(self, __ANY)
closure 0 args: c: char
closure 0: -> (b: bool) ensures b == char_ws(c)
start: proof { lemma_all(trimmed(self@), other@); }
spec: ensures r == lex(lowered(trimmed(self@)), lowered(other@))
@*/
/*@ fn bstr.rs::Bstr::eq_nocase
ret: r
sig: pub fn eq_nocase(&self, other: &[u8]) -> (r: bool)
subst: other.as_ref() =>> other
start: proof { lemma_eq(lowered(self@), lowered(other@)); }
spec: ensures r == (lowered(self@) == lowered(other@))
@*/
/*@ fn bstr.rs::Bstr::cmp_nocase_nozero
ret: r
sig: pub fn cmp_nocase_nozero(&self, other: &[u8]) -> (r: Ordering)
subst: other.as_ref() =>> other
subst: left.cmp(right) =>> vx_iter_cmp(left, right)
start: proof { lemma_all(self@, other@); }
spec: ensures r == lex(folded(self@, false), lowered(other@))
@*/
/*@ fn bstr.rs::Bstr::cmp_nocase_nozero_trimmed
ret: r
sig: pub fn cmp_nocase_nozero_trimmed(&self, other: &[u8]) -> (r: Ordering)
subst: other.as_ref() =>> other
subst: left.cmp(right) =>> vx_iter_cmp(left, right)
subst: self.trim() =>> vx_trim(self)
start: proof { lemma_all(utrim(self@), other@); }
spec: ensures r == lex(folded(utrim(self@), false), lowered(other@))
@*/
/*@ fn bstr.rs::Bstr::eq_nocase_nozero
ret: r
sig: pub fn eq_nocase_nozero(&self, other: &[u8]) -> (r: bool)
subst: other.as_ref() =>> other
start: proof { lemma_eq(folded(self@, false), lowered(other@)); }
spec: ensures r == (folded(self@, false) == lowered(other@))
@*/
/*@ fn bstr.rs::Bstr::starts_with
ret: r
sig: pub fn starts_with(&self, other: &[u8]) -> (r: bool)
subst: other.as_ref() =>> other
subst: self.as_slice().starts_with(other) =>> vx_starts_with(self.as_slice(), other)
spec: ensures r == starts(self@, other@)
@*/
/*@ fn bstr.rs::Bstr::starts_with_nocase
ret: r
sig: pub fn starts_with_nocase(&self, other: &[u8]) -> (r: bool)
subst: other.as_ref() =>> other
subst: std::cmp::min =>> vx_min
subst: self.as_slice()[..len].eq_ignore_ascii_case(&other[..len]) =>> vx_eq_ignore_ascii_case(&self.as_slice()[..len], &other[..len])
start: proof { lemma_starts(self@, other@); }
spec: ensures r == starts(lowered(self@), lowered(other@))
@*/
/*@ fn bstr.rs::Bstr::index_of
ret: r
sig: pub fn index_of(&self, other: &[u8]) -> (r: Option<usize>)
subst: other.as_ref() =>> other
subst: self.find(other) =>> vx_find(self.as_slice(), other)
spec: ensures match r { None => forall|k: int| 0 <= k <= self@.len() ==> !starts(#[trigger] after(self@, k), other@), Some(k) => starts(after(self@, k as int), other@) && forall|j: int| 0 <= j < k ==> !starts(#[trigger] after(self@, j), other@) }
@*/
/*@ fn bstr.rs::Bstr::index_of_nocase
ret: r
sig: pub fn index_of_nocase(&self, other: &[u8]) -> (r: Option<usize>)
subst: other.as_ref() =>> other
subst: other.to_ascii_lowercase() =>> vx_to_ascii_lowercase(other)
subst: haystack.index_of(&needle) =>> { let ghost __h = haystack; let __k = index_of(&mut haystack, needle.as_slice()); proof { assert(__h.src() == self@); assert(needle@ == lowered(other@)); assert(needle@.len() == other@.len()); if __k is Some { assert(hit(__h.src(), __k->0 as int, needle@, __h.nul())); } else { assert(needle@.len() == 0 || forall|k: int| !#[trigger] hit(__h.src(), k, needle@, __h.nul())); } } __k }
spec: ensures match r { None => other@.len() == 0 || forall|k: int| !#[trigger] hit(self@, k, lowered(other@), true), Some(k) => other@.len() > 0 && hit(self@, k as int, lowered(other@), true) && forall|j: int| 0 <= j < k ==> !#[trigger] hit(self@, j, lowered(other@), true) }
@*/
/*@ fn bstr.rs::Bstr::index_of_nocase_nozero
ret: r
sig: pub fn index_of_nocase_nozero(&self, other: &[u8]) -> (r: Option<usize>)
subst: other.as_ref() =>> other
subst: other.to_ascii_lowercase() =>> vx_to_ascii_lowercase(other)
subst: haystack.index_of(&needle) =>> { let ghost __h = haystack; let __k = index_of(&mut haystack, needle.as_slice()); proof { assert(__h.src() == self@); assert(needle@ == lowered(other@)); assert(needle@.len() == other@.len()); if __k is Some { assert(hit(__h.src(), __k->0 as int, needle@, __h.nul())); } else { assert(needle@.len() == 0 || forall|k: int| !#[trigger] hit(__h.src(), k, needle@, __h.nul())); } } __k }
spec: ensures match r { None => other@.len() == 0 || forall|k: int| !#[trigger] hit(self@, k, lowered(other@), false), Some(k) => other@.len() > 0 && hit(self@, k as int, lowered(other@), false) && forall|j: int| 0 <= j < k ==> !#[trigger] hit(self@, j, lowered(other@), false) }
@*/
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
proof fn lemma_starts(a: Seq<u8>, b: Seq<u8>)
    ensures a.len() >= b.len() ==> (lowered(a.subrange(0, b.len() as int)) =~= lowered(b.subrange(0, b.len() as int))) == starts(lowered(a), lowered(b))
{
    if a.len() >= b.len() {
        let x = lowered(a.subrange(0, b.len() as int)); let y = lowered(b.subrange(0, b.len() as int));
        assert forall|i: int| 0 <= i < b.len() implies x[i] == #[trigger] lowered(a)[i] && y[i] == lowered(b)[i] by {}
        if starts(lowered(a), lowered(b)) { assert forall|i: int| 0 <= i < b.len() implies x[i] == y[i] by { assert(lowered(a)[i] == lowered(b)[i]); } }
        if x =~= y { assert forall|i: int| 0 <= i < b.len() implies #[trigger] lowered(a)[i] == lowered(b)[i] by { assert(x[i] == y[i]); } }
    }
}
/*@ item table.rs::Table
@*/
/*@ item transaction.rs::Header
@*/
/*@ item transaction.rs::Headers
@*/
/// a stored name and the name asked for
pub open spec fn same_name(a: Seq<u8>, key: Seq<u8>) -> bool { lowered(trimmed(a)) == lowered(key) }
pub open spec fn same_name_nozero(a: Seq<u8>, key: Seq<u8>) -> bool { folded(utrim(a), false) == lowered(key) }
proof fn lemma_lex_all() ensures forall|a: Seq<u8>, b: Seq<u8>| (#[trigger] lex(a, b) == Ordering::Equal) == (a == b) {
    assert forall|a: Seq<u8>, b: Seq<u8>| (#[trigger] lex(a, b) == Ordering::Equal) == (a == b) by { lemma_lex(a, b); }
}
/// `slice.iter().find(f)` (assumed contract on core)
#[verifier::external_body]
pub fn vx_find_first<'a, T, F: Fn(&&'a T) -> bool>(v: &'a Vec<T>, f: F) -> (r: Option<&'a T>)
    requires forall|x: &&'a T| f.requires((x,)),
    ensures match r { None => forall|k: int| 0 <= k < v@.len() ==> f.ensures((&&#[trigger] v@[k],), false),
        Some(x) => exists|k: int| 0 <= k < v@.len() && *x == #[trigger] v@[k] && f.ensures((&&v@[k],), true) && forall|j: int| 0 <= j < k ==> f.ensures((&&#[trigger] v@[j],), false) }
{ unimplemented!() }
/*@ fn table.rs::Table::get_nocase
impl: impl<T> Table<T>
sig: pub fn get_nocase(&self, key: &[u8]) -> (r: Option<&(Bstr, T)>)
ret: r
pre: self.elements.iter().find(__ANY) =>> vx_find_first(&self.elements, __ANY)
subst: key.as_ref() =>> key
closure 0 args: x: &&(Bstr, T)
closure 0: -> (b: bool) ensures b == same_name((*x).0@, key@)
start: proof { lemma_lex_all(); }
spec: ensures match r { None => forall|k: int| 0 <= k < self.elements@.len() ==> !same_name((#[trigger] self.elements@[k]).0@, key@),
    Some(x) => exists|k: int| 0 <= k < self.elements@.len() && *x == #[trigger] self.elements@[k] && same_name(self.elements@[k].0@, key@) && forall|j: int| 0 <= j < k ==> !same_name((#[trigger] self.elements@[j]).0@, key@) }
@*/
/*@ fn transaction.rs::Headers::get_nocase
impl: impl Headers
sig: pub fn get_nocase(&self, key: &[u8]) -> (r: Option<&Header>)
ret: r
pre: self.elements.iter().find(__ANY) =>> vx_find_first(&self.elements, __ANY)
subst: key.as_ref() =>> key
closure 0 args: x: &&Header
closure 0: -> (b: bool) ensures b == same_name((*x).name@, key@)
start: proof { lemma_lex_all(); }
spec: ensures match r { None => forall|k: int| 0 <= k < self.elements@.len() ==> !same_name((#[trigger] self.elements@[k]).name@, key@),
    Some(x) => exists|k: int| 0 <= k < self.elements@.len() && *x == #[trigger] self.elements@[k] && same_name(self.elements@[k].name@, key@) && forall|j: int| 0 <= j < k ==> !same_name((#[trigger] self.elements@[j]).name@, key@) }
@*/
/*@ fn transaction.rs::Headers::get_nocase_nozero
impl: impl Headers
sig: pub fn get_nocase_nozero(&self, key: &[u8]) -> (r: Option<&Header>)
ret: r
pre: self.elements.iter().find(__ANY) =>> vx_find_first(&self.elements, __ANY)
subst: key.as_ref() =>> key
closure 0 args: x: &&Header
closure 0: -> (b: bool) ensures b == same_name_nozero((*x).name@, key@)
start: proof { lemma_lex_all(); }
spec: ensures match r { None => forall|k: int| 0 <= k < self.elements@.len() ==> !same_name_nozero((#[trigger] self.elements@[k]).name@, key@),
    Some(x) => exists|k: int| 0 <= k < self.elements@.len() && *x == #[trigger] self.elements@[k] && same_name_nozero(self.elements@[k].name@, key@) && forall|j: int| 0 <= j < k ==> !same_name_nozero((#[trigger] self.elements@[j]).name@, key@) }
@*/
}
fn main() {}
