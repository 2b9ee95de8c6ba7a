// ---- cutting a line in two (util.rs::split_on_predicate) ----
/// what is left of `slice.splitn(2, f)` / `slice.rsplitn(2, f)` (assumed contracts on core)
#[verifier::external_body] pub struct VxParts<'a> { _0: &'a [u8] }
impl<'a> VxParts<'a> {
    pub uninterp spec fn left(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures match r { Some(x) => old(self).left().len() > 0 && x@ == old(self).left()[0] && final(self).left() == old(self).left().subrange(1, old(self).left().len() as int),
            None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
}
/// f holds at k and (in the given direction) nowhere before it
pub open spec fn cut_at<F: Fn(&u8) -> bool>(f: F, s: Seq<u8>, reverse: bool, k: int) -> bool {
    &&& 0 <= k < s.len() && f.ensures((&s[k],), true)
    &&& forall|j: int| (if reverse { k < j < s.len() } else { 0 <= j < k }) ==> f.ensures((&#[trigger] s[j],), false)
}
pub open spec fn no_cut<F: Fn(&u8) -> bool>(f: F, s: Seq<u8>) -> bool { forall|j: int| 0 <= j < s.len() ==> f.ensures((&#[trigger] s[j],), false) }
#[verifier::external_body]
pub fn vx_splitn<'a, F: Fn(&u8) -> bool>(s: &'a [u8], n: usize, f: F) -> (r: VxParts<'a>)
    requires n == 2, forall|c: &u8| f.requires((c,)),
    ensures (no_cut(f, s@) && r.left() == seq![s@]) || exists|k: int| #[trigger] cut_at(f, s@, false, k) && r.left() == seq![s@.subrange(0, k), s@.subrange(k + 1, s@.len() as int)]
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_rsplitn<'a, F: Fn(&u8) -> bool>(s: &'a [u8], n: usize, f: F) -> (r: VxParts<'a>)
    requires n == 2, forall|c: &u8| f.requires((c,)),
    ensures (no_cut(f, s@) && r.left() == seq![s@]) || exists|k: int| #[trigger] cut_at(f, s@, true, k) && r.left() == seq![s@.subrange(k + 1, s@.len() as int), s@.subrange(0, k)]
{ unimplemented!() }
pub open spec fn trim_if(b: bool, s: Seq<u8>) -> Seq<u8> { if b { rstrip(lstrip(s)) } else { s } }
/*@ fn util.rs::split_on_predicate
presig: FnMut =>> Fn
ret: r
pre: input.rsplitn(__ANY) =>> vx_rsplitn(input, __ANY)
pre: input.splitn(__ANY) =>> vx_splitn(input, __ANY)
spec: requires forall|c: &u8| predicate.requires((c,)),
  ensures (no_cut(predicate, input@) && r.0@ == trim_if(do_trim, input@) && r.1@ == trim_if(do_trim, Seq::empty()))
    || exists|k: int| #[trigger] cut_at(predicate, input@, reverse, k) && r.0@ == trim_if(do_trim, input@.subrange(0, k)) && r.1@ == trim_if(do_trim, input@.subrange(k + 1, input@.len() as int))
@*/
