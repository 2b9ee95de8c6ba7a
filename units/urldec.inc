// ---- URL decoding of parameters and URI parts -------------------------------------------
// One decoded item: byte, expected status, findings, and whether the byte is output.
pub type Item = (u8, HtpUnwanted, u64, bool);
pub open spec fn from(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(k, s.len() as int) }
pub open spec fn pick(first: HtpUnwanted, then: HtpUnwanted) -> HtpUnwanted { if then != HtpUnwanted::IGNORE { then } else { first } }
pub open spec fn is_u(s: Seq<u8>) -> bool { s.len() > 0 && (s[0] == 117 || s[0] == 85) }
pub open spec fn hexes(s: Seq<u8>, a: int, n: int) -> bool { s.len() >= a + n && forall|k: int| a <= k < a + n ==> hexd(#[trigger] s[k]) }
pub open spec fn key(c1: u8, c2: u8) -> u32 { (c1 * 256 + c2) as u32 }
pub open spec fn u_byte(cfg: DecoderConfig, s: Seq<u8>) -> u8 {
    let c1 = x2(s[0], s[1]); let c2 = x2(s[2], s[3]);
    if c1 == 0 { c2 } else { fit(cfg.bestfit_map, key(c1, c2)) }
}
pub open spec fn u_flags(s: Seq<u8>) -> u64 {
    let c1 = x2(s[0], s[1]); let c2 = x2(s[2], s[3]);
    if c1 == 0 { HtpFlags::URLEN_OVERLONG_U } else if c1 == 0xff && c2 <= 0xef { HtpFlags::URLEN_HALF_FULL_RANGE } else { 0 }
}
pub open spec fn keep_percent(cfg: DecoderConfig) -> bool { cfg.url_encoding_invalid_handling != HtpUrlEncodingHandling::REMOVE_PERCENT }
pub open spec fn valid_u(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if !is_u(s) { None }
    else if !cfg.u_encoding_decode { Some((s, (37, HtpUnwanted::IGNORE, 0, true))) }
    else if !hexes(s, 1, 4) { None }
    else { Some((from(s, 5), (u_byte(cfg, s.subrange(1, 5)), cfg.u_encoding_unwanted, u_flags(s.subrange(1, 5)), true))) }
}
pub open spec fn invalid_u(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if !is_u(s) { None }
    else if !cfg.u_encoding_decode { Some((s, (37, HtpUnwanted::IGNORE, 0, true))) }
    else if s.len() < 5 { None }
    else {
        let st = pick(cfg.u_encoding_unwanted, cfg.url_encoding_invalid_unwanted);
        if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::PROCESS_INVALID {
            Some((from(s, 5), (u_byte(cfg, s.subrange(1, 5)), st, HtpFlags::URLEN_INVALID_ENCODING | u_flags(s.subrange(1, 5)), true)))
        } else { Some((s, (37, st, HtpFlags::URLEN_INVALID_ENCODING, keep_percent(cfg)))) }
    }
}
pub open spec fn valid_hex(s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if is_u(s) || !hexes(s, 0, 2) { None } else { Some((from(s, 2), (x2(s[0], s[1]), HtpUnwanted::IGNORE, 0, true))) }
}
pub open spec fn invalid_hex(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if is_u(s) { None }
    else if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::PROCESS_INVALID {
        if s.len() < 2 { None } else { Some((from(s, 2), (x2(s[0], s[1]), cfg.url_encoding_invalid_unwanted, HtpFlags::URLEN_INVALID_ENCODING, true))) }
    } else { Some((s, (37, cfg.url_encoding_invalid_unwanted, HtpFlags::URLEN_INVALID_ENCODING, keep_percent(cfg)))) }
}
pub open spec fn short(cfg: DecoderConfig, s: Seq<u8>) -> (Seq<u8>, Item) { (s, (37, cfg.url_encoding_invalid_unwanted, HtpFlags::URLEN_INVALID_ENCODING, keep_percent(cfg))) }
pub open spec fn escape(cfg: DecoderConfig, s: Seq<u8>) -> (Seq<u8>, Item) {
    if is_u(s) {
        if valid_u(cfg, s) is Some { valid_u(cfg, s)->0 } else if invalid_u(cfg, s) is Some { invalid_u(cfg, s)->0 } else { short(cfg, s) }
    } else {
        if valid_hex(s) is Some { valid_hex(s)->0 } else if invalid_hex(cfg, s) is Some { invalid_hex(cfg, s)->0 } else { short(cfg, s) }
    }
}
/// an escape, with NUL handling
pub open spec fn percent(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if s.len() > 0 && s[0] == 37 {
        let (rest, it) = escape(cfg, from(s, 1));
        if it.0 == 0 {
            let st = pick(it.1, cfg.nul_encoded_unwanted);
            let f = it.2 | HtpFlags::URLEN_ENCODED_NUL;
            Some(if cfg.nul_encoded_terminates { (Seq::empty(), (0, st, f, false)) } else { (rest, (0, st, f, it.3)) })
        } else { Some((rest, it)) }
    } else { None }
}
pub open spec fn plus(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if s.len() > 0 && s[0] == 43 { Some((from(s, 1), (if cfg.plusspace_decode { 32 } else { 43 }, HtpUnwanted::IGNORE, 0, true))) } else { None }
}
pub open spec fn raw(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if s.len() == 0 { None }
    else if s[0] == 0 { Some((if cfg.nul_raw_terminates { Seq::empty() } else { from(s, 1) }, (0, cfg.nul_raw_unwanted, HtpFlags::URLEN_RAW_NUL, !cfg.nul_raw_terminates))) }
    else { Some((from(s, 1), (s[0], HtpUnwanted::IGNORE, 0, true))) }
}
pub open spec fn item(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if percent(cfg, s) is Some { percent(cfg, s) } else if plus(cfg, s) is Some { plus(cfg, s) } else { raw(cfg, s) }
}
pub type Acc = (Seq<u8>, u64, HtpUnwanted);
pub open spec fn put(a: Acc, it: Item) -> Acc { (if it.3 { a.0.push(it.0) } else { a.0 }, a.1 | it.2, pick(a.2, it.1)) }
pub open spec fn fold(cfg: DecoderConfig, s: Seq<u8>, a: Acc) -> Acc decreases s.len() {
    match item(cfg, s) {
        None => a,
        Some((rest, it)) => if rest.len() >= s.len() { a } else { fold(cfg, rest, put(a, it)) },
    }
}
/// bytes, findings and expected status of a decoded string
pub open spec fn decoded(cfg: DecoderConfig, s: Seq<u8>) -> Acc { fold(cfg, s, (Seq::empty(), 0, HtpUnwanted::IGNORE)) }
pub open spec fn is(r: IResult<&[u8], Item>, want: Option<(Seq<u8>, Item)>) -> bool {
    match want { None => r is Err && r->Err_0 is Error, Some((rest, it)) => r is Ok && r->Ok_0.0@ == rest && r->Ok_0.1 == it }
}
/*@ fn urlencoded.rs::decode_u_encoding_params
ret: r
subst: bestfit_key!(c1, c2) =>> ((((c1 as i32) << 8 as i32) + c2 as i32) as u32)
start: proof { assert(forall|a: u8| #[trigger] ((a as i32) << 8i32) == a * 256) by(bit_vector); assert(forall|x: u64| #[trigger] (0u64 | x) == x) by(bit_vector); }
spec: ensures i@.len() >= 4 ==> r is Ok && r->Ok_0.1 == (u_byte(*cfg, i@), u_flags(i@)), i@.len() < 4 ==> r is Err && r->Err_0 is Error
@*/
/*@ fn urlencoded.rs::decode_valid_u_encoding
ret: p
closures: pure
subst: return Ok((input, (byte, cfg.u_encoding_unwanted, flags, true))); =>> proof { assert(hex@ =~= __in.subrange(1, 5)); assert(input@ =~= from(__in, 5)); } return Ok((input, (byte, cfg.u_encoding_unwanted, flags, true)));
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, valid_u(*cfg, input@))
closure 0 start: let ghost __in = input@;
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, valid_u(*cfg, i@))
@*/
/*@ fn urlencoded.rs::decode_invalid_u_encoding
ret: p
closures: pure
subst: code = if =>> proof { assert(invalid_hex@ =~= __in.subrange(1, 5)); assert(left@ =~= from(__in, 5)); } code = if
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, invalid_u(*cfg, __a0@))
closure 0 start: let ghost __in = input@; proof { assert(forall|x: u64| #[trigger] (0u64 | x) == x) by(bit_vector); }
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, invalid_u(*cfg, i@))
@*/
/*@ fn urlencoded.rs::decode_valid_hex
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, valid_hex(input@))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, valid_hex(i@))
@*/
/*@ fn urlencoded.rs::decode_invalid_hex
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, invalid_hex(*cfg, __a0@))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, invalid_hex(*cfg, i@))
@*/
/*@ fn urlencoded.rs::decode_percent
ret: p
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, percent(*cfg, i@))
closure 1 wrap: vx_par
closure 1: -> (r: IResult<&[u8], Item>) ensures is(r, Some(short(*cfg, input@)))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, percent(*cfg, i@))
@*/
/*@ fn urlencoded.rs::decode_plus
ret: p
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, plus(*cfg, input@))
closure 1 args: byte: char
closure 1: -> (b: u8) ensures cfg.plusspace_decode ==> b == 32, !cfg.plusspace_decode && (byte as u32) < 256 ==> b == byte as u32
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, plus(*cfg, i@))
@*/
/*@ fn urlencoded.rs::unencoded_byte
ret: p
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, raw(*cfg, input@))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, raw(*cfg, i@))
@*/
pub type VAcc = (Vec<u8>, u64, HtpUnwanted);
pub open spec fn vacc(a: VAcc) -> Acc { (a.0@, a.1, a.2) }
pub open spec fn fold_is(r: IResult<&[u8], VAcc>, want: Acc) -> bool { r is Ok && vacc(r->Ok_0.1) == want }
proof fn lemma_item(cfg: DecoderConfig, s: Seq<u8>) ensures s.len() == 0 ==> item(cfg, s) is None, s.len() > 0 ==> item(cfg, s) is Some && (item(cfg, s)->0).0.len() < s.len() {}
proof fn lemma_fold<'a, P: Fn(&'a [u8]) -> IResult<&'a [u8], Item>, G: Fn(VAcc, Item) -> VAcc>(p: P, g: G, cfg: DecoderConfig, i: &'a [u8], acc: VAcc, r: IResult<&'a [u8], VAcc>, n: nat)
    requires
        fold_rel(p, g, i, acc, r, n),
        forall|j: &'a [u8], ra: IResult<&'a [u8], Item>| #[trigger] p.ensures((j,), ra) ==> is(ra, item(cfg, j@)),
        forall|a: VAcc, it: Item, b: VAcc| #[trigger] g.ensures((a, it), b) ==> vacc(b) == put(vacc(a), it),
    ensures fold_is(r, fold(cfg, i@, vacc(acc))),
    decreases n,
{
    lemma_item(cfg, i@);
    let ra = choose|ra: IResult<&'a [u8], Item>| #[trigger] p.ensures((i,), ra) && match ra {
        Err(NErr::Error(_)) => r == Ok::<(&'a [u8], VAcc), NE<'a>>((i, acc)),
        Err(e) => r == Err::<(&'a [u8], VAcc), NE<'a>>(e),
        Ok((j, o)) => if j@.len() == i@.len() { r is Err && r->Err_0 is Error } else {
            exists|acc2: VAcc| #[trigger] g.ensures((acc, o), acc2) && fold_rel(p, g, j, acc2, r, (n - 1) as nat) },
    };
    assert(is(ra, item(cfg, i@)));
    if ra is Ok {
        let j = ra->Ok_0.0; let o = ra->Ok_0.1;
        let acc2 = choose|acc2: VAcc| #[trigger] g.ensures((acc, o), acc2) && fold_rel(p, g, j, acc2, r, (n - 1) as nat);
        lemma_fold(p, g, cfg, j, acc2, r, (n - 1) as nat);
    }
}
/*@ fn urlencoded.rs::decode_uri
ret: r
pre: fold_many0(__ANY1, __ANY2, __ANY3,)(input) =>> { let __p = __ANY1; let __h = __ANY2; let __g = __ANY3; vx_fold_many0(__p, __h, __g, input, cfg) }
closure 0: -> (b: VAcc) ensures b.0@ == Seq::<u8>::empty(), b.1 == 0, b.2 == HtpUnwanted::IGNORE
closure 1 args: __a0: VAcc, __a1: Item
closure 1: -> (b: VAcc) ensures vacc(b) == put(vacc(__a0), __a1)
spec: ensures fold_is(r, decoded(*cfg, input@))
@*/
/// fold_many0 with the loop invariant of this decoder (proved from fold_many0's contract)
pub fn vx_fold_many0<'a, P: Fn(&'a [u8]) -> IResult<&'a [u8], Item>, H: Fn() -> VAcc, G: Fn(VAcc, Item) -> VAcc>(p: P, h: H, g: G, i: &'a [u8], cfg: &DecoderConfig) -> (r: IResult<&'a [u8], VAcc>)
    requires total(p), h.requires(()), forall|a: VAcc, o: Item| #[trigger] g.requires((a, o)),
        forall|j: &'a [u8], ra: IResult<&'a [u8], Item>| #[trigger] p.ensures((j,), ra) ==> is(ra, item(*cfg, j@)),
        forall|a: VAcc, it: Item, b: VAcc| #[trigger] g.ensures((a, it), b) ==> vacc(b) == put(vacc(a), it),
        forall|b: VAcc| #[trigger] h.ensures((), b) ==> b.0@ == Seq::<u8>::empty() && b.1 == 0 && b.2 == HtpUnwanted::IGNORE,
    ensures fold_is(r, decoded(*cfg, i@))
{
    let ghost gp = p; let ghost gh = h; let ghost gg = g;
    let r = fold_many0(p, h, g)(i);
    proof {
        let (acc0, n) = choose|acc0: VAcc, n: nat| #[trigger] gh.ensures((), acc0) && #[trigger] fold_rel(gp, gg, i, acc0, r, n);
        lemma_fold(gp, gg, *cfg, i, acc0, r, n);
        assert(vacc(acc0) == (Seq::<u8>::empty(), 0u64, HtpUnwanted::IGNORE));
    }
    r
}
