#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include base.inc
//@include bstr.inc
/// reading through a pointer: it must not be NULL
#[verifier::external_body] pub fn vx_deref<'a, T>(p: Option<&'a T>) -> (r: &'a T) requires p is Some ensures r == p->0 { unimplemented!() }
/// malloc: that many bytes, or NULL
#[verifier::external_body] pub fn vx_malloc(n: usize) -> (r: Option<Vec<i8>>) ensures r is Some ==> r->0@.len() == n { unimplemented!() }
/// the memory as a slice of this length: no more than there is
#[verifier::external_body] pub fn vx_parts(m: Option<Vec<i8>>, n: usize) -> (r: Vec<i8>) requires m is Some, n <= m->0@.len() ensures r@.len() == n { unimplemented!() }
/// the byte as a C char
pub open spec fn ch(b: u8) -> i8 { b as i8 }
/// each NUL written as a backslash and a zero digit
pub open spec fn shown(s: Seq<u8>) -> Seq<i8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let p = shown(s.drop_last()); if s.last() == 0 { p.push(92i8).push(48i8) } else { p.push(ch(s.last())) } }
}
pub open spec fn nuls(s: Seq<u8>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { nuls(s.drop_last()) + if s.last() == 0 { 1nat } else { 0nat } } }
pub proof fn lemma_len(s: Seq<u8>) ensures shown(s).len() == s.len() + nuls(s), nuls(s) <= s.len() decreases s.len() { if s.len() > 0 { lemma_len(s.drop_last()); } }
pub proof fn lemma_more(s: Seq<u8>, n: int) requires 0 <= n <= s.len() ensures nuls(s.subrange(0, n)) <= nuls(s) decreases s.len() - n
{ if n < s.len() { lemma_more(s, n + 1); assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n)); } else { assert(s.subrange(0, n) =~= s); } }
pub proof fn lemma_step(s: Seq<u8>, n: int) requires 0 <= n < s.len() ensures s.subrange(0, n + 1).drop_last() == s.subrange(0, n), s.subrange(0, n + 1).last() == s[n]
{ assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n)); }
/*@ fn c_api/bstr.rs::bstr_util_strdup_to_c
ret: r
presig: * const Bstr =>> Option<&Bstr>
presig: * mut libc :: c_char =>> Option<Vec<i8>>
pre: b . is_null ( ) =>> b.is_none()
pre: std :: ptr :: null_mut ( ) =>> None
pre: std :: slice :: from_raw_parts ( bstr_ptr ( b ) , bstr_len ( b ) ) =>> vx_deref(b).as_slice()
pre: bstr_len ( b ) =>> vx_deref(b).len()
pre: libc :: malloc ( newlen ) as * mut i8 =>> vx_malloc(newlen)
pre: mem . is_null ( ) =>> mem.is_none()
pre: dst : & mut [ i8 ] = std :: slice :: from_raw_parts_mut ( mem , newlen ) =>> mut dst: Vec<i8> = vx_parts(mem, newlen)
pre: dst [ dst_idx ] = 0 ; mem =>> dst[dst_idx] = 0; Some(dst)
pre: for byte in src =>> for byte in src.iter()
pre: '\\' as i8 =>> 92i8
pre: '0' as i8 =>> 48i8
spec: requires b is Some ==> b->0@.len() < 0x3fff_ffff_ffff_ffff
  ensures b is None ==> r is None, r is Some ==> r->0@ == shown(b->0@).push(0i8)
loop 0 iter: it
loop 0: invariant it.seq().len() == src@.len(), forall|k: int| 0 <= k < src@.len() ==> *#[trigger] it.seq()[k] == src@[k], null_count == 1 + nuls(src@.subrange(0, it.index@)), src@.len() < 0x3fff_ffff_ffff_ffff
loop 0 start: proof { lemma_step(src@, it.index@); lemma_len(src@.subrange(0, it.index@)); }
loop 0 after: proof { assert(src@.subrange(0, src@.len() as int) =~= src@); lemma_len(src@); }
loop 1 iter: it
loop 1 before: proof { assert(dst@.subrange(0, 0) =~= shown(src@.subrange(0, 0))); }
loop 1: invariant it.seq().len() == src@.len(), forall|k: int| 0 <= k < src@.len() ==> *#[trigger] it.seq()[k] == src@[k], dst@.len() == src@.len() + nuls(src@) + 1, dst_idx == it.index@ + nuls(src@.subrange(0, it.index@)), dst_idx < dst@.len(), dst@.subrange(0, dst_idx as int) == shown(src@.subrange(0, it.index@))
loop 1 start: let ghost __d = dst@; let ghost __i = dst_idx; proof { lemma_step(src@, it.index@); lemma_more(src@, it.index@ + 1); lemma_len(src@.subrange(0, it.index@)); }
loop 1 end: proof { assert(dst@.subrange(0, dst_idx as int) =~= shown(src@.subrange(0, it.index@ + 1))); }
loop 1 after: proof { assert(src@.subrange(0, src@.len() as int) =~= src@); lemma_len(src@); }
@*/
}
fn main() {}
