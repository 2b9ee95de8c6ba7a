// further parts of nom 7 (assumed contracts)
#[verifier::external_body]
pub fn char<'a>(c: char) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], char>)
    // (with another character nom 7.1 steps over its UTF-8 length, and panics)
    requires (c as u32) < 128,
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], char>| #[trigger] p.ensures((i,), r) ==> match r {
            Ok((rest, x)) => i@.len() > 0 && i@[0] as u32 == c as u32 && x == c && rest@ == i@.subrange(1, i@.len() as int),
            Err(e) => e is Error && (i@.len() == 0 || i@[0] as u32 != c as u32),
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], char> { unimplemented!() }
}
#[verifier::external_body]
pub fn take<'a>(n: usize) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> match r {
            Ok((rest, taken)) => splits(i, rest, taken) && taken@.len() == n,
            Err(e) => e is Error && i@.len() < n,
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}
/// take_while_m_n(n, n, f): exactly n bytes that satisfy f
#[verifier::external_body]
pub fn take_while_m_n<'a, F: Fn(u8) -> bool>(m: usize, n: usize, cond: F) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], &'a [u8]>)
    requires forall|c: u8| cond.requires((c,)), m == n,
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], &'a [u8]>| #[trigger] p.ensures((i,), r) ==> match r {
            Ok((rest, taken)) => splits(i, rest, taken) && taken@.len() == n && forall|k: int| 0 <= k < n ==> cond_true(cond, #[trigger] taken@[k]),
            Err(e) => e is Error && (i@.len() < n || exists|k: int| 0 <= k < n && k < i@.len() && cond_false(cond, #[trigger] i@[k])),
        },
{
    move |i: &'a [u8]| -> IResult<&'a [u8], &'a [u8]> { unimplemented!() }
}
#[verifier::external_body]
pub fn be_u8<'a>(i: &'a [u8]) -> (r: IResult<&'a [u8], u8>)
    ensures match r {
        Ok((rest, x)) => i@.len() > 0 && x == i@[0] && rest@ == i@.subrange(1, i@.len() as int),
        Err(e) => e is Error && i@.len() == 0,
    },
{ unimplemented!() }
/// fold_many0: apply the parser until it fails; a step that consumes nothing is an error
pub open spec fn fold_rel<'a, O, R, P: Fn(&'a [u8]) -> IResult<&'a [u8], O>, G: Fn(R, O) -> R>(p: P, g: G, i: &'a [u8], acc: R, r: IResult<&'a [u8], R>, n: nat) -> bool decreases n {
    n > 0 && exists|ra: IResult<&'a [u8], O>| #[trigger] p.ensures((i,), ra) && match ra {
        Err(NErr::Error(_)) => r == Ok::<(&'a [u8], R), NE<'a>>((i, acc)),
        Err(e) => r == Err::<(&'a [u8], R), NE<'a>>(e),
        Ok((j, o)) => if j@.len() == i@.len() { r is Err && r->Err_0 is Error } else {
            exists|acc2: R| #[trigger] g.ensures((acc, o), acc2) && fold_rel(p, g, j, acc2, r, (n - 1) as nat) },
    }
}
pub open spec fn fold_ens<'a, O, R, P: Fn(&'a [u8]) -> IResult<&'a [u8], O>, H: Fn() -> R, G: Fn(R, O) -> R>(p: P, h: H, g: G, i: &'a [u8], r: IResult<&'a [u8], R>) -> bool {
    exists|acc0: R, n: nat| #[trigger] h.ensures((), acc0) && #[trigger] fold_rel(p, g, i, acc0, r, n)
}
#[verifier::external_body]
pub fn fold_many0<'a, O, R, P: Fn(&'a [u8]) -> IResult<&'a [u8], O>, H: Fn() -> R, G: Fn(R, O) -> R>(pp: P, h: H, g: G) -> (p: impl Fn(&'a [u8]) -> IResult<&'a [u8], R>)
    requires total(pp), h.requires(()), forall|a: R, o: O| #[trigger] g.requires((a, o)),
    ensures
        forall|i: &'a [u8]| p.requires((i,)),
        forall|i: &'a [u8], r: IResult<&'a [u8], R>| #[trigger] p.ensures((i,), r) ==> fold_ens(pp, h, g, i, r),
{
    move |i: &'a [u8]| -> IResult<&'a [u8], R> { unimplemented!() }
}
impl<'a, O, FA: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FC: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FD: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FE: Fn(&'a [u8]) -> IResult<&'a [u8], O>> NomAlt<'a, O> for (FA, FB, FC, FD, FE) {
    open spec fn areq(self) -> bool { total(self.0) && total(self.1) && total(self.2) && total(self.3) && total(self.4) }
    open spec fn aens(self, i: &'a [u8], r: IResult<&'a [u8], O>) -> bool {
        exists|ra: IResult<&'a [u8], O>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(NErr::Error(_)) => exists|rb: IResult<&'a [u8], O>| #[trigger] self.1.ensures((i,), rb) && match rb { Err(NErr::Error(_)) => exists|rc: IResult<&'a [u8], O>| #[trigger] self.2.ensures((i,), rc) && match rc { Err(NErr::Error(_)) => exists|rd: IResult<&'a [u8], O>| #[trigger] self.3.ensures((i,), rd) && match rd { Err(NErr::Error(_)) => exists|re: IResult<&'a [u8], O>| #[trigger] self.4.ensures((i,), re) && match re { Err(NErr::Error(_)) => r is Err && r->Err_0 is Error, _ => r == re }, _ => r == rd }, _ => r == rc }, _ => r == rb }, _ => r == ra }
    }
}
impl<'a, O, FA: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FB: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FC: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FD: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FE: Fn(&'a [u8]) -> IResult<&'a [u8], O>, FF: Fn(&'a [u8]) -> IResult<&'a [u8], O>> NomAlt<'a, O> for (FA, FB, FC, FD, FE, FF) {
    open spec fn areq(self) -> bool { total(self.0) && total(self.1) && total(self.2) && total(self.3) && total(self.4) && total(self.5) }
    open spec fn aens(self, i: &'a [u8], r: IResult<&'a [u8], O>) -> bool {
        exists|ra: IResult<&'a [u8], O>| #[trigger] self.0.ensures((i,), ra) && match ra { Err(NErr::Error(_)) => exists|rb: IResult<&'a [u8], O>| #[trigger] self.1.ensures((i,), rb) && match rb { Err(NErr::Error(_)) => exists|rc: IResult<&'a [u8], O>| #[trigger] self.2.ensures((i,), rc) && match rc { Err(NErr::Error(_)) => exists|rd: IResult<&'a [u8], O>| #[trigger] self.3.ensures((i,), rd) && match rd { Err(NErr::Error(_)) => exists|re: IResult<&'a [u8], O>| #[trigger] self.4.ensures((i,), re) && match re { Err(NErr::Error(_)) => exists|rf: IResult<&'a [u8], O>| #[trigger] self.5.ensures((i,), rf) && match rf { Err(NErr::Error(_)) => r is Err && r->Err_0 is Error, _ => r == rf }, _ => r == re }, _ => r == rd }, _ => r == rc }, _ => r == rb }, _ => r == ra }
    }
}
pub assume_specification [u8::to_ascii_lowercase] (_0: &u8) -> (r: u8) ensures r == lower(*_0);
/// identity on parsers: fixes the type of a closure's parameter
pub fn vx_par<'a, O, F: Fn(&'a [u8]) -> IResult<&'a [u8], O>>(f: F) -> (r: F) ensures r == f { f }
