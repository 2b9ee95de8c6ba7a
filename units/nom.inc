// ---------------------------------------------------------------------------------------
// Assumed contracts for the parts of nom 7 that the extracted code calls (dependency, not
// verified here).  Each is `external_body`: trusted, listed in the evidence, and exercised
// against the real nom by the harness program `shims` (bounded).
// ---------------------------------------------------------------------------------------
pub enum Needed { Unknown, Size(usize) }
impl Needed {
    #[verifier::external_body]
    pub fn new(n: usize) -> Needed { Needed::Unknown }
}
pub struct NomErrorS<I> { pub input: I }
pub enum NErr<E> { Incomplete(Needed), Error(E), Failure(E) }
pub use NErr::Incomplete;
pub type NE<'a> = NErr<NomErrorS<&'a [u8]>>;
pub type IResult<I, O, E = NomErrorS<I>> = core::result::Result<(I, O), NErr<E>>;

pub open spec fn lower(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
pub open spec fn occurs_at(s: Seq<u8>, t: Seq<u8>, k: int) -> bool {
    0 <= k && k + t.len() <= s.len() && s.subrange(k, k + t.len()) == t
}
/// t is a prefix of s, byte by byte
pub open spec fn tag_match(t: Seq<u8>, s: Seq<u8>) -> bool {
    t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> #[trigger] s[k] == t[k]
}
pub open spec fn tag_mismatch(t: Seq<u8>, s: Seq<u8>) -> bool {
    exists|k: int| 0 <= k < t.len() && k < s.len() && #[trigger] s[k] != t[k]
}
pub open spec fn prefix_nocase(t: Seq<u8>, s: Seq<u8>) -> bool {
    t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> lower(#[trigger] s[k]) == lower(t[k])
}
/// result splits the input: (rest, taken)
pub open spec fn splits(i: &[u8], rest: &[u8], taken: &[u8]) -> bool {
    &&& taken@.len() <= i@.len()
    &&& taken@ == i@.subrange(0, taken@.len() as int)
    &&& forall|k: int| 0 <= k < taken@.len() ==> #[trigger] i@[k] == taken@[k]
    &&& rest@ == i@.subrange(taken@.len() as int, i@.len() as int)
}
pub open spec fn cond_true<F: Fn(u8) -> bool>(f: F, c: u8) -> bool { f.ensures((c,), true) }
pub open spec fn cond_false<F: Fn(u8) -> bool>(f: F, c: u8) -> bool { f.ensures((c,), false) }

#[verifier::external_body]
pub fn take_while<'a, F: Fn(u8) -> bool>(cond: F) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    requires forall|c: u8| cond.requires((c,)),
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> {
            &&& r is Ok
            &&& splits(i, r->Ok_0.0, r->Ok_0.1)
            &&& forall|k: int| 0 <= k < r->Ok_0.1@.len() ==> cond_true(cond, #[trigger] r->Ok_0.1@[k])
            &&& r->Ok_0.0@.len() > 0 ==> cond_false(cond, r->Ok_0.0@[0])
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}

#[verifier::external_body]
pub fn take_while1<'a, F: Fn(u8) -> bool>(cond: F) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    requires forall|c: u8| cond.requires((c,)),
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> match r {
            Ok((rest, taken)) => {
                &&& splits(i, rest, taken)
                &&& taken@.len() > 0
                &&& forall|k: int| 0 <= k < taken@.len() ==> cond_true(cond, #[trigger] taken@[k])
                &&& rest@.len() > 0 ==> cond_false(cond, rest@[0])
            },
            Err(e) => e is Error && (i@.len() == 0 || cond_false(cond, i@[0])),
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}

#[verifier::external_body]
pub fn take_till<'a, F: Fn(u8) -> bool>(cond: F) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    requires forall|c: u8| cond.requires((c,)),
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> {
            &&& r is Ok
            &&& splits(i, r->Ok_0.0, r->Ok_0.1)
            &&& forall|k: int| 0 <= k < r->Ok_0.1@.len() ==> cond_false(cond, #[trigger] r->Ok_0.1@[k])
            &&& r->Ok_0.0@.len() > 0 ==> cond_true(cond, r->Ok_0.0@[0])
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}

#[verifier::external_body]
pub fn streaming_take_till<'a, F: Fn(u8) -> bool>(cond: F) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    requires forall|c: u8| cond.requires((c,)),
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> match r {
            Ok((rest, taken)) => {
                &&& splits(i, rest, taken)
                &&& rest@.len() > 0
                &&& forall|k: int| 0 <= k < taken@.len() ==> cond_false(cond, #[trigger] taken@[k])
                &&& cond_true(cond, rest@[0])
            },
            Err(e) => e is Incomplete && forall|k: int| 0 <= k < i@.len() ==> cond_false(cond, #[trigger] i@[k]),
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}

#[verifier::external_body]
pub fn tag<'a>(t: &'a [u8]) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> match r {
            Ok((rest, taken)) => splits(i, rest, taken) && taken@ == t@ && tag_match(t@, i@),
            Err(e) => e is Error && !tag_match(t@, i@),
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}

#[verifier::external_body]
pub fn tag_no_case<'a>(t: &'a [u8]) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> match r {
            Ok((rest, taken)) => splits(i, rest, taken) && taken@.len() == t@.len() && prefix_nocase(t@, i@),
            Err(e) => e is Error && !prefix_nocase(t@, i@),
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}

#[verifier::external_body]
pub fn streaming_tag<'a>(t: &'a [u8]) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> match r {
            Ok((rest, taken)) => splits(i, rest, taken) && taken@ == t@ && tag_match(t@, i@),
            Err(e) => {
                &&& e is Error || e is Incomplete
                &&& e is Incomplete ==> i@.len() < t@.len() && forall|k: int| 0 <= k < i@.len() ==> #[trigger] i@[k] == t@[k]
                &&& e is Error ==> tag_mismatch(t@, i@)
            },
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}

/// complete::is_not: longest non-empty prefix containing none of the bytes of `arr`
#[verifier::external_body]
pub fn is_not<'a>(arr: &'a [u8]) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> match r {
            Ok((rest, taken)) => {
                &&& splits(i, rest, taken)
                &&& taken@.len() > 0
                &&& forall|k: int| 0 <= k < taken@.len() ==> !arr@.contains(#[trigger] taken@[k])
                &&& rest@.len() > 0 ==> arr@.contains(rest@[0])
            },
            Err(e) => e is Error && (i@.len() == 0 || arr@.contains(i@[0])),
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}

/// complete::take_until: everything before the first occurrence of `t`
#[verifier::external_body]
pub fn take_until<'a>(t: &'a [u8]) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> match r {
            Ok((rest, taken)) => {
                &&& splits(i, rest, taken)
                &&& occurs_at(i@, t@, taken@.len() as int)
                &&& forall|k: int| 0 <= k < taken@.len() ==> !#[trigger] occurs_at(i@, t@, k)
                &&& t@.len() == 1 ==> rest@.len() > 0 && rest@[0] == t@[0] && forall|k: int| 0 <= k < taken@.len() ==> #[trigger] i@[k] != t@[0]
            },
            Err(e) => e is Error && (forall|k: int| !#[trigger] occurs_at(i@, t@, k)) && (t@.len() == 1 ==> forall|k: int| 0 <= k < i@.len() ==> #[trigger] i@[k] != t@[0]),
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}

pub open spec fn is_digit(c: u8) -> bool { 48 <= c <= 57 }
#[verifier::external_body]
pub fn digit1<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], &'a [u8]>)
    ensures match r {
        Ok((rest, taken)) => {
            &&& splits(i, rest, taken)
            &&& taken@.len() > 0
            &&& forall|k: int| 0 <= k < taken@.len() ==> is_digit(#[trigger] taken@[k])
            &&& rest@.len() > 0 ==> !is_digit(rest@[0])
        },
        Err(e) => e is Error && (i@.len() == 0 || !is_digit(i@[0])),
    },
{ unimplemented!() }

pub open spec fn nom_sp(c: u8) -> bool { c == 32 || c == 9 }
#[verifier::external_body]
pub fn nom_is_space(c: u8) -> (r: bool) ensures r == nom_sp(c) { unimplemented!() }

// combinators -----------------------------------------------------------------------------
pub open spec fn map_ens<'a, A, B, P: Fn(&'a [u8]) -> IResult<&'a [u8], A>, G: Fn(A) -> B>(pp: P, g: G, i: &'a [u8], r: IResult<&'a [u8], B>) -> bool {
    exists|ra: IResult<&'a [u8], A>| #[trigger] pp.ensures((i,), ra) && match ra {
        Err(e) => r == Err::<(&'a [u8], B), NE<'a>>(e),
        Ok((j, a)) => r is Ok && r->Ok_0.0 == j && g.ensures((a,), r->Ok_0.1),
    }
}
#[verifier::external_body]
pub fn map<'a, A, B, P: Fn(&'a [u8]) -> IResult<&'a [u8], A>, G: Fn(A) -> B>(pp: P, g: G) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], B>)
    requires forall|a: A| g.requires((a,)),
    ensures
        forall|i: &'a [u8]| pp.requires((i,)) ==> #[trigger] p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], B>| #[trigger] p.ensures((i,), r) ==> map_ens(pp, g, i, r),
{
    move |i: &'a [u8]| -> IResult<&'a [u8], B> { unimplemented!() }
}

pub open spec fn opt_ens<'a, A, P: Fn(&'a [u8]) -> IResult<&'a [u8], A>>(pp: P, i: &'a [u8], r: IResult<&'a [u8], Option<A>>) -> bool {
    exists|ra: IResult<&'a [u8], A>| #[trigger] pp.ensures((i,), ra) && match ra {
        Ok((j, a)) => r == Ok::<(&'a [u8], Option<A>), NE<'a>>((j, Some(a))),
        Err(NErr::Error(_)) => r == Ok::<(&'a [u8], Option<A>), NE<'a>>((i, None)),
        Err(e) => r == Err::<(&'a [u8], Option<A>), NE<'a>>(e),
    }
}
#[verifier::external_body]
pub fn opt<'a, A, P: Fn(&'a [u8]) -> IResult<&'a [u8], A>>(pp: P) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], Option<A>>)
    ensures
        forall|i: &'a [u8]| pp.requires((i,)) ==> #[trigger] p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], Option<A>>| #[trigger] p.ensures((i,), r) ==> opt_ens(pp, i, r),
{
    move |i: &'a [u8]| -> IResult<&'a [u8], Option<A>> { unimplemented!() }
}

pub open spec fn not_ens<'a, A, P: Fn(&'a [u8]) -> IResult<&'a [u8], A>>(pp: P, i: &'a [u8], r: IResult<&'a [u8], ()>) -> bool {
    exists|ra: IResult<&'a [u8], A>| #[trigger] pp.ensures((i,), ra) && match ra {
        Ok((j, a)) => r is Err && r->Err_0 is Error,
        Err(NErr::Error(_)) => r == Ok::<(&'a [u8], ()), NE<'a>>((i, ())),
        Err(e) => r == Err::<(&'a [u8], ()), NE<'a>>(e),
    }
}
#[verifier::external_body]
pub fn not<'a, A, P: Fn(&'a [u8]) -> IResult<&'a [u8], A>>(pp: P) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], ()>)
    ensures
        forall|i: &'a [u8]| pp.requires((i,)) ==> #[trigger] p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], ()>| #[trigger] p.ensures((i,), r) ==> not_ens(pp, i, r),
{
    move |i: &'a [u8]| -> IResult<&'a [u8], ()> { unimplemented!() }
}

pub open spec fn peek_ens<'a, A, P: Fn(&'a [u8]) -> IResult<&'a [u8], A>>(pp: P, i: &'a [u8], r: IResult<&'a [u8], A>) -> bool {
    exists|ra: IResult<&'a [u8], A>| #[trigger] pp.ensures((i,), ra) && match ra {
        Ok((j, a)) => r == Ok::<(&'a [u8], A), NE<'a>>((i, a)),
        Err(e) => r == Err::<(&'a [u8], A), NE<'a>>(e),
    }
}
#[verifier::external_body]
pub fn peek<'a, A, P: Fn(&'a [u8]) -> IResult<&'a [u8], A>>(pp: P) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], A>)
    ensures
        forall|i: &'a [u8]| pp.requires((i,)) ==> #[trigger] p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], A>| #[trigger] p.ensures((i,), r) ==> peek_ens(pp, i, r),
{
    move |i: &'a [u8]| -> IResult<&'a [u8], A> { unimplemented!() }
}

/// tuple((p0, p1, ...)) and alt((p0, p1, ...))
pub trait NomTuple<'a, O>: Sized {
    spec fn treq(self) -> bool;
    spec fn tens(self, i: &'a [u8], r: IResult<&'a [u8], O>) -> bool;
}
pub trait NomAlt<'a, O>: Sized {
    spec fn areq(self) -> bool;
    spec fn aens(self, i: &'a [u8], r: IResult<&'a [u8], O>) -> bool;
}
pub open spec fn total<'a, A, P: Fn(&'a [u8]) -> IResult<&'a [u8], A>>(p: P) -> bool {
    forall|j: &'a [u8]| #[trigger] p.requires((j,))
}
#[verifier::external_body]
pub fn tuple<'a, O, T: NomTuple<'a, O>>(t: T) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], O>)
    ensures
        t.treq() ==> forall|i: &'a [u8]| #[trigger] p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], O>| #[trigger] p.ensures((i,), r) ==> t.tens(i, r),
{
    move |i: &'a [u8]| -> IResult<&'a [u8], O> { unimplemented!() }
}
#[verifier::external_body]
pub fn alt<'a, O, T: NomAlt<'a, O>>(t: T) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], O>)
    ensures
        t.areq() ==> forall|i: &'a [u8]| #[trigger] p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], O>| #[trigger] p.ensures((i,), r) ==> t.aens(i, r),
{
    move |i: &'a [u8]| -> IResult<&'a [u8], O> { unimplemented!() }
}
impl<'a, A, B, FA: Fn(&'a [u8]) -> IResult<&'a [u8], A>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], B>> NomTuple<'a, (A, B)> for (FA, FB) {
    open spec fn treq(self) -> bool { total(self.0) && total(self.1) }
    open spec fn tens(self, i: &'a [u8], r: IResult<&'a [u8], (A, B)>) -> bool {
        exists|ra: IResult<&'a [u8], A>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(e) => r == Err::<(&'a [u8], (A, B)), NE<'a>>(e), Ok((j0, v0)) => exists|rb: IResult<&'a [u8], B>| #[trigger] self.1.ensures((j0,), rb) && match rb { Err(e) => r == Err::<(&'a [u8], (A, B)), NE<'a>>(e), Ok((j1, v1)) => r == Ok::<(&'a [u8], (A, B)), NE<'a>>((j1, (v0, v1))) } }
    }
}
impl<'a, A, B, C, FA: Fn(&'a [u8]) -> IResult<&'a [u8], A>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], B>, FC: Fn(&'a [u8]) -> IResult<&'a [u8], C>> NomTuple<'a, (A, B, C)> for (FA, FB, FC) {
    open spec fn treq(self) -> bool { total(self.0) && total(self.1) && total(self.2) }
    open spec fn tens(self, i: &'a [u8], r: IResult<&'a [u8], (A, B, C)>) -> bool {
        exists|ra: IResult<&'a [u8], A>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(e) => r == Err::<(&'a [u8], (A, B, C)), NE<'a>>(e), Ok((j0, v0)) => exists|rb: IResult<&'a [u8], B>| #[trigger] self.1.ensures((j0,), rb) && match rb { Err(e) => r == Err::<(&'a [u8], (A, B, C)), NE<'a>>(e), Ok((j1, v1)) => exists|rc: IResult<&'a [u8], C>| #[trigger] self.2.ensures((j1,), rc) && match rc { Err(e) => r == Err::<(&'a [u8], (A, B, C)), NE<'a>>(e), Ok((j2, v2)) => r == Ok::<(&'a [u8], (A, B, C)), NE<'a>>((j2, (v0, v1, v2))) } } }
    }
}
impl<'a, A, B, C, D, FA: Fn(&'a [u8]) -> IResult<&'a [u8], A>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], B>, FC: Fn(&'a [u8]) -> IResult<&'a [u8], C>, FD: Fn(&'a [u8]) -> IResult<&'a [u8], D>> NomTuple<'a, (A, B, C, D)> for (FA, FB, FC, FD) {
    open spec fn treq(self) -> bool { total(self.0) && total(self.1) && total(self.2) && total(self.3) }
    open spec fn tens(self, i: &'a [u8], r: IResult<&'a [u8], (A, B, C, D)>) -> bool {
        exists|ra: IResult<&'a [u8], A>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(e) => r == Err::<(&'a [u8], (A, B, C, D)), NE<'a>>(e), Ok((j0, v0)) => exists|rb: IResult<&'a [u8], B>| #[trigger] self.1.ensures((j0,), rb) && match rb { Err(e) => r == Err::<(&'a [u8], (A, B, C, D)), NE<'a>>(e), Ok((j1, v1)) => exists|rc: IResult<&'a [u8], C>| #[trigger] self.2.ensures((j1,), rc) && match rc { Err(e) => r == Err::<(&'a [u8], (A, B, C, D)), NE<'a>>(e), Ok((j2, v2)) => exists|rd: IResult<&'a [u8], D>| #[trigger] self.3.ensures((j2,), rd) && match rd { Err(e) => r == Err::<(&'a [u8], (A, B, C, D)), NE<'a>>(e), Ok((j3, v3)) => r == Ok::<(&'a [u8], (A, B, C, D)), NE<'a>>((j3, (v0, v1, v2, v3))) } } } }
    }
}
impl<'a, A, B, C, D, E, FA: Fn(&'a [u8]) -> IResult<&'a [u8], A>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], B>, FC: Fn(&'a [u8]) -> IResult<&'a [u8], C>, FD: Fn(&'a [u8]) -> IResult<&'a [u8], D>, FE: Fn(&'a [u8]) -> IResult<&'a [u8], E>> NomTuple<'a, (A, B, C, D, E)> for (FA, FB, FC, FD, FE) {
    open spec fn treq(self) -> bool { total(self.0) && total(self.1) && total(self.2) && total(self.3) && total(self.4) }
    open spec fn tens(self, i: &'a [u8], r: IResult<&'a [u8], (A, B, C, D, E)>) -> bool {
        exists|ra: IResult<&'a [u8], A>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E)), NE<'a>>(e), Ok((j0, v0)) => exists|rb: IResult<&'a [u8], B>| #[trigger] self.1.ensures((j0,), rb) && match rb { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E)), NE<'a>>(e), Ok((j1, v1)) => exists|rc: IResult<&'a [u8], C>| #[trigger] self.2.ensures((j1,), rc) && match rc { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E)), NE<'a>>(e), Ok((j2, v2)) => exists|rd: IResult<&'a [u8], D>| #[trigger] self.3.ensures((j2,), rd) && match rd { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E)), NE<'a>>(e), Ok((j3, v3)) => exists|re: IResult<&'a [u8], E>| #[trigger] self.4.ensures((j3,), re) && match re { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E)), NE<'a>>(e), Ok((j4, v4)) => r == Ok::<(&'a [u8], (A, B, C, D, E)), NE<'a>>((j4, (v0, v1, v2, v3, v4))) } } } } }
    }
}
impl<'a, A, B, C, D, E, F, FA: Fn(&'a [u8]) -> IResult<&'a [u8], A>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], B>, FC: Fn(&'a [u8]) -> IResult<&'a [u8], C>, FD: Fn(&'a [u8]) -> IResult<&'a [u8], D>, FE: Fn(&'a [u8]) -> IResult<&'a [u8], E>, FF: Fn(&'a [u8]) -> IResult<&'a [u8], F>> NomTuple<'a, (A, B, C, D, E, F)> for (FA, FB, FC, FD, FE, FF) {
    open spec fn treq(self) -> bool { total(self.0) && total(self.1) && total(self.2) && total(self.3) && total(self.4) && total(self.5) }
    open spec fn tens(self, i: &'a [u8], r: IResult<&'a [u8], (A, B, C, D, E, F)>) -> bool {
        exists|ra: IResult<&'a [u8], A>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F)), NE<'a>>(e), Ok((j0, v0)) => exists|rb: IResult<&'a [u8], B>| #[trigger] self.1.ensures((j0,), rb) && match rb { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F)), NE<'a>>(e), Ok((j1, v1)) => exists|rc: IResult<&'a [u8], C>| #[trigger] self.2.ensures((j1,), rc) && match rc { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F)), NE<'a>>(e), Ok((j2, v2)) => exists|rd: IResult<&'a [u8], D>| #[trigger] self.3.ensures((j2,), rd) && match rd { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F)), NE<'a>>(e), Ok((j3, v3)) => exists|re: IResult<&'a [u8], E>| #[trigger] self.4.ensures((j3,), re) && match re { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F)), NE<'a>>(e), Ok((j4, v4)) => exists|rf: IResult<&'a [u8], F>| #[trigger] self.5.ensures((j4,), rf) && match rf { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F)), NE<'a>>(e), Ok((j5, v5)) => r == Ok::<(&'a [u8], (A, B, C, D, E, F)), NE<'a>>((j5, (v0, v1, v2, v3, v4, v5))) } } } } } }
    }
}
impl<'a, A, B, C, D, E, F, G, FA: Fn(&'a [u8]) -> IResult<&'a [u8], A>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], B>, FC: Fn(&'a [u8]) -> IResult<&'a [u8], C>, FD: Fn(&'a [u8]) -> IResult<&'a [u8], D>, FE: Fn(&'a [u8]) -> IResult<&'a [u8], E>, FF: Fn(&'a [u8]) -> IResult<&'a [u8], F>, FG: Fn(&'a [u8]) -> IResult<&'a [u8], G>> NomTuple<'a, (A, B, C, D, E, F, G)> for (FA, FB, FC, FD, FE, FF, FG) {
    open spec fn treq(self) -> bool { total(self.0) && total(self.1) && total(self.2) && total(self.3) && total(self.4) && total(self.5) && total(self.6) }
    open spec fn tens(self, i: &'a [u8], r: IResult<&'a [u8], (A, B, C, D, E, F, G)>) -> bool {
        exists|ra: IResult<&'a [u8], A>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F, G)), NE<'a>>(e), Ok((j0, v0)) => exists|rb: IResult<&'a [u8], B>| #[trigger] self.1.ensures((j0,), rb) && match rb { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F, G)), NE<'a>>(e), Ok((j1, v1)) => exists|rc: IResult<&'a [u8], C>| #[trigger] self.2.ensures((j1,), rc) && match rc { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F, G)), NE<'a>>(e), Ok((j2, v2)) => exists|rd: IResult<&'a [u8], D>| #[trigger] self.3.ensures((j2,), rd) && match rd { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F, G)), NE<'a>>(e), Ok((j3, v3)) => exists|re: IResult<&'a [u8], E>| #[trigger] self.4.ensures((j3,), re) && match re { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F, G)), NE<'a>>(e), Ok((j4, v4)) => exists|rf: IResult<&'a [u8], F>| #[trigger] self.5.ensures((j4,), rf) && match rf { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F, G)), NE<'a>>(e), Ok((j5, v5)) => exists|rg: IResult<&'a [u8], G>| #[trigger] self.6.ensures((j5,), rg) && match rg { Err(e) => r == Err::<(&'a [u8], (A, B, C, D, E, F, G)), NE<'a>>(e), Ok((j6, v6)) => r == Ok::<(&'a [u8], (A, B, C, D, E, F, G)), NE<'a>>((j6, (v0, v1, v2, v3, v4, v5, v6))) } } } } } } }
    }
}
impl<'a, O, FA: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], O>> NomAlt<'a, O> for (FA, FB) {
    open spec fn areq(self) -> bool { total(self.0) && total(self.1) }
    open spec fn aens(self, i: &'a [u8], r: IResult<&'a [u8], O>) -> bool {
        exists|ra: IResult<&'a [u8], O>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(NErr::Error(_)) => exists|rb: IResult<&'a [u8], O>| #[trigger] self.1.ensures((i,), rb) && match rb { Err(NErr::Error(_)) => r is Err && r->Err_0 is Error, _ => r == rb }, _ => r == ra }
    }
}
impl<'a, O, FA: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FC: Fn(&'a [u8]) -> IResult<&'a [u8], O>> NomAlt<'a, O> for (FA, FB, FC) {
    open spec fn areq(self) -> bool { total(self.0) && total(self.1) && total(self.2) }
    open spec fn aens(self, i: &'a [u8], r: IResult<&'a [u8], O>) -> bool {
        exists|ra: IResult<&'a [u8], O>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(NErr::Error(_)) => exists|rb: IResult<&'a [u8], O>| #[trigger] self.1.ensures((i,), rb) && match rb { Err(NErr::Error(_)) => exists|rc: IResult<&'a [u8], O>| #[trigger] self.2.ensures((i,), rc) && match rc { Err(NErr::Error(_)) => r is Err && r->Err_0 is Error, _ => r == rc }, _ => r == rb }, _ => r == ra }
    }
}
impl<'a, O, FA: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FC: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FD: Fn(&'a [u8]) -> IResult<&'a [u8], O>> NomAlt<'a, O> for (FA, FB, FC, FD) {
    open spec fn areq(self) -> bool { total(self.0) && total(self.1) && total(self.2) && total(self.3) }
    open spec fn aens(self, i: &'a [u8], r: IResult<&'a [u8], O>) -> bool {
        exists|ra: IResult<&'a [u8], O>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(NErr::Error(_)) => exists|rb: IResult<&'a [u8], O>| #[trigger] self.1.ensures((i,), rb) && match rb { Err(NErr::Error(_)) => exists|rc: IResult<&'a [u8], O>| #[trigger] self.2.ensures((i,), rc) && match rc { Err(NErr::Error(_)) => exists|rd: IResult<&'a [u8], O>| #[trigger] self.3.ensures((i,), rd) && match rd { Err(NErr::Error(_)) => r is Err && r->Err_0 is Error, _ => r == rd }, _ => r == rc }, _ => r == rb }, _ => r == ra }
    }
}
