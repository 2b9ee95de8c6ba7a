#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include base.inc
//@include nom.inc
//@include nom2.inc
//@include bstr.inc
//@include flags.inc
//@include decoder.inc
//@include x2c.inc
// ---------------------------------------------------------------------------------------
// One decoded item of a path: byte, expected status, findings, and whether the byte is output.
pub type Item = (u8, HtpUnwanted, u64, bool);
pub open spec fn from(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(k, s.len() as int) }
pub open spec fn pick(first: HtpUnwanted, then: HtpUnwanted) -> HtpUnwanted { if then != HtpUnwanted::IGNORE { then } else { first } }
/// byte as stored: backslash conversion, then lower case
pub open spec fn stored(cfg: DecoderConfig, b: u8) -> u8 {
    let c = if b == 92 && cfg.backslash_convert_slashes { 47u8 } else { b };
    if cfg.convert_lowercase { lower(c) } else { c }
}
pub open spec fn ctl(cfg: DecoderConfig, b: u8) -> HtpUnwanted { if b < 0x20 { cfg.control_chars_unwanted } else { HtpUnwanted::IGNORE } }
pub open spec fn is_u(s: Seq<u8>) -> bool { s.len() > 0 && (s[0] == 117 || s[0] == 85) }
pub open spec fn hexes(s: Seq<u8>, a: int, n: int) -> bool { s.len() >= a + n && forall|k: int| a <= k < a + n ==> hexd(#[trigger] s[k]) }
/// the best-fit key of a %u escape
pub open spec fn key(c1: u8, c2: u8) -> u32 { (c1 * 256 + c2) as u32 }
/// what the four characters after %u stand for: byte, findings, reaction
pub open spec fn u_byte(cfg: DecoderConfig, s: Seq<u8>) -> u8 {
    let c1 = x2(s[0], s[1]); let c2 = x2(s[2], s[3]);
    if c1 == 0 { c2 } else { fit(cfg.bestfit_map, key(c1, c2)) }
}
pub open spec fn is_sep(cfg: DecoderConfig, b: u8) -> bool { b == 47 || (cfg.backslash_convert_slashes && b == 92) }
pub open spec fn u_flags(cfg: DecoderConfig, s: Seq<u8>) -> u64 {
    let c1 = x2(s[0], s[1]);
    let f = if c1 == 0 { HtpFlags::PATH_OVERLONG_U } else if c1 == 0xff { HtpFlags::PATH_HALF_FULL_RANGE } else { 0 };
    if is_sep(cfg, u_byte(cfg, s)) { f | HtpFlags::PATH_ENCODED_SEPARATOR } else { f }
}
pub open spec fn u_status(cfg: DecoderConfig, s: Seq<u8>) -> HtpUnwanted { if x2(s[0], s[1]) == 0 { HtpUnwanted::IGNORE } else { cfg.u_encoding_unwanted } }

/// s follows a '%' and starts with u: a valid %uXXXX, or %u taken literally when not decoding it
pub open spec fn valid_u(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if !is_u(s) { None }
    else if !cfg.u_encoding_decode { Some((s, (stored(cfg, 37), ctl(cfg, 37), 0, true))) }
    else if !hexes(s, 1, 4) { None }
    else {
        let h = s.subrange(1, 5);
        let b = u_byte(cfg, h);
        let st = pick(cfg.u_encoding_unwanted, u_status(cfg, h));
        let f = u_flags(cfg, h);
        if b == 0 {
            let f = f | HtpFlags::PATH_ENCODED_NUL;
            let st = pick(st, cfg.nul_encoded_unwanted);
            if cfg.nul_encoded_terminates { Some((Seq::empty(), (b, st, f, false))) }
            else { Some((from(s, 5), (stored(cfg, b), pick(st, ctl(cfg, b)), f, true))) }
        } else { Some((from(s, 5), (stored(cfg, b), pick(st, ctl(cfg, b)), f, true))) }
    }
}
/// %u followed by four bytes that are not all hexadecimal
pub open spec fn invalid_u(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if !is_u(s) { None }
    else if !cfg.u_encoding_decode { Some((s, (stored(cfg, 37), ctl(cfg, 37), 0, true))) }
    else if s.len() < 5 { None }
    else if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::REMOVE_PERCENT { Some((s, (37, cfg.url_encoding_invalid_unwanted, HtpFlags::PATH_INVALID_ENCODING, false))) }
    else if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::PROCESS_INVALID {
        let h = s.subrange(1, 5);
        let b = u_byte(cfg, h);
        Some((from(s, 5), (stored(cfg, b), pick(pick(cfg.url_encoding_invalid_unwanted, u_status(cfg, h)), ctl(cfg, b)), HtpFlags::PATH_INVALID_ENCODING | u_flags(cfg, h), true)))
    } else { Some((s, (stored(cfg, 37), pick(cfg.url_encoding_invalid_unwanted, ctl(cfg, 37)), HtpFlags::PATH_INVALID_ENCODING, true))) }
}
/// too short to be an escape
pub open spec fn short(cfg: DecoderConfig, s: Seq<u8>) -> (Seq<u8>, Item) {
    (s, (37, cfg.url_encoding_invalid_unwanted, HtpFlags::PATH_INVALID_ENCODING, cfg.url_encoding_invalid_handling != HtpUrlEncodingHandling::REMOVE_PERCENT))
}
pub open spec fn valid_hex(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if is_u(s) || !hexes(s, 0, 2) { None } else {
        let b = x2(s[0], s[1]);
        if b == 0 {
            if cfg.nul_encoded_terminates { Some((Seq::empty(), (b, cfg.nul_encoded_unwanted, HtpFlags::PATH_ENCODED_NUL, false))) }
            else { Some((from(s, 2), (stored(cfg, b), pick(cfg.nul_encoded_unwanted, ctl(cfg, b)), HtpFlags::PATH_ENCODED_NUL, true))) }
        } else if is_sep(cfg, b) {
            if cfg.path_separators_decode { Some((from(s, 2), (stored(cfg, b), cfg.path_separators_encoded_unwanted, HtpFlags::PATH_ENCODED_SEPARATOR, true))) }
            else { Some((s, (stored(cfg, 37), cfg.path_separators_encoded_unwanted, HtpFlags::PATH_ENCODED_SEPARATOR, true))) }
        } else { Some((from(s, 2), (stored(cfg, b), ctl(cfg, b), 0, true))) }
    }
}
pub open spec fn invalid_hex(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if is_u(s) || s.len() < 2 { None }
    else if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::REMOVE_PERCENT { Some((s, (37, cfg.url_encoding_invalid_unwanted, HtpFlags::PATH_INVALID_ENCODING, false))) }
    else if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::PROCESS_INVALID {
        let b = x2(s[0], s[1]);
        Some((from(s, 2), (stored(cfg, b), pick(cfg.url_encoding_invalid_unwanted, ctl(cfg, b)), HtpFlags::PATH_INVALID_ENCODING, true)))
    } else { Some((s, (stored(cfg, 37), cfg.url_encoding_invalid_unwanted, HtpFlags::PATH_INVALID_ENCODING, true))) }
}
pub open spec fn escape(cfg: DecoderConfig, s: Seq<u8>) -> (Seq<u8>, Item) {
    if is_u(s) {
        if valid_u(cfg, s) is Some { valid_u(cfg, s)->0 } else if invalid_u(cfg, s) is Some { invalid_u(cfg, s)->0 } else { short(cfg, s) }
    } else {
        if valid_hex(cfg, s) is Some { valid_hex(cfg, s)->0 } else if invalid_hex(cfg, s) is Some { invalid_hex(cfg, s)->0 } else { short(cfg, s) }
    }
}
pub open spec fn percent(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if s.len() > 0 && s[0] == 37 { Some(escape(cfg, from(s, 1))) } else { None }
}
pub open spec fn raw(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> {
    if s.len() == 0 { None }
    else if s[0] == 0 && cfg.nul_raw_terminates { Some((Seq::empty(), (0, cfg.nul_raw_unwanted, 0, false))) }
    else { Some((from(s, 1), (stored(cfg, s[0]), pick(if s[0] == 0 { cfg.nul_raw_unwanted } else { HtpUnwanted::IGNORE }, ctl(cfg, s[0])), 0, true))) }
}
pub open spec fn item(cfg: DecoderConfig, s: Seq<u8>) -> Option<(Seq<u8>, Item)> { if percent(cfg, s) is Some { percent(cfg, s) } else { raw(cfg, s) } }
/// what is accumulated: bytes, findings, expected status
pub type Acc = (Seq<u8>, u64, HtpUnwanted);
pub open spec fn put(cfg: DecoderConfig, a: Acc, it: Item) -> Acc {
    let squeeze = it.0 == 47 && cfg.path_separators_compress && a.0.len() > 0 && a.0.last() == 47;
    (if it.3 && !squeeze { a.0.push(it.0) } else { a.0 }, a.1 | it.2, pick(a.2, it.1))
}
pub open spec fn fold(cfg: DecoderConfig, s: Seq<u8>, a: Acc) -> Acc decreases s.len() {
    match item(cfg, s) {
        None => a,
        Some((rest, it)) => if rest.len() >= s.len() { a } else { fold(cfg, rest, put(cfg, a, it)) },
    }
}
pub open spec fn decoded(cfg: DecoderConfig, s: Seq<u8>) -> Acc { fold(cfg, s, (Seq::empty(), 0, HtpUnwanted::IGNORE)) }
pub open spec fn is(r: IResult<&[u8], Item>, want: Option<(Seq<u8>, Item)>) -> bool {
    match want { None => r is Err && r->Err_0 is Error, Some((rest, it)) => r is Ok && r->Ok_0.0@ == rest && r->Ok_0.1 == it }
}
pub proof fn lemma_or0(x: u64) ensures 0u64 | x == x, x | 0u64 == x { assert(0u64 | x == x) by(bit_vector); assert(x | 0u64 == x) by(bit_vector); }
// ------------------------------------------------------------------------- the code
/*@ fn urlencoded.rs::path_decode_u_encoding
ret: r
subst: bestfit_key!(c1, c2) =>> ((((c1 as i32) << 8 as i32) + c2 as i32) as u32)
start: proof { assert(forall|a: u8| #[trigger] ((a as i32) << 8i32) == a * 256) by(bit_vector); assert(forall|x: u64| #[trigger] (0u64 | x) == x) by(bit_vector); }
spec: ensures i@.len() >= 4 ==> r is Ok && r->Ok_0.1 == (u_byte(*cfg, i@), u_flags(*cfg, i@), u_status(*cfg, i@)), i@.len() < 4 ==> r is Err && r->Err_0 is Error
@*/
/*@ fn urlencoded.rs::path_decode_control
ret: r
spec: ensures r == (stored(*cfg, byte), ctl(*cfg, byte))
@*/
/*@ fn urlencoded.rs::path_decode_valid_u_encoding
ret: p
subst: expected_status_code = cfg.u_encoding_unwanted; =>> expected_status_code = cfg.u_encoding_unwanted; proof { assert(hex@ =~= remaining_input@.subrange(1, 5)); assert(left@ =~= from(remaining_input@, 5)); }
closures: pure
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, valid_u(*cfg, remaining_input@))
closure 0 start: proof { assert(forall|x: u64| #[trigger] (0u64 | x) == x) by(bit_vector); }
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, valid_u(*cfg, i@))
@*/
/*@ fn urlencoded.rs::path_decode_invalid_u_encoding
ret: p
subst: flags = HtpFlags::PATH_INVALID_ENCODING; =>> flags = HtpFlags::PATH_INVALID_ENCODING; proof { assert(hex@ =~= remaining_input@.subrange(1, 5)); assert(left@ =~= from(remaining_input@, 5)); }
closures: pure
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, invalid_u(*cfg, remaining_input@))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, invalid_u(*cfg, i@))
@*/
/*@ fn urlencoded.rs::path_decode_valid_hex
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, valid_hex(*cfg, remaining_input@))
closure 0 start: proof { assert(forall|x: u64| #[trigger] (0u64 | x) == x) by(bit_vector); }
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, valid_hex(*cfg, i@))
@*/
/*@ fn urlencoded.rs::path_decode_invalid_hex
ret: p
closures: pure
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, invalid_hex(*cfg, remaining_input@))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, invalid_hex(*cfg, i@))
@*/
/*@ fn urlencoded.rs::path_decode_percent
ret: p
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, percent(*cfg, i@))
closure 1 wrap: vx_par
closure 1: -> (r: IResult<&[u8], Item>) ensures is(r, if is_u(remaining_input@) { Some(short(*cfg, remaining_input@)) } else { None })
closure 2 wrap: vx_par
closure 2: -> (r: IResult<&[u8], Item>) ensures is(r, Some(short(*cfg, remaining_input@)))
closure 3 args: __a0: (char, Item)
closure 3: -> (b: Item) ensures b == __a0.1
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, percent(*cfg, i@))
@*/
/*@ fn urlencoded.rs::path_parse_other
ret: p
closure 0: -> (r: IResult<&[u8], Item>) ensures is(r, raw(*cfg, i@))
spec: ensures forall|i: &[u8]| #[trigger] p.requires((i,)), forall|i: &[u8], r: IResult<&[u8], Item>| #[trigger] p.ensures((i,), r) ==> is(r, raw(*cfg, i@))
@*/
pub type VAcc = (Vec<u8>, u64, HtpUnwanted);
pub open spec fn vacc(a: VAcc) -> Acc { (a.0@, a.1, a.2) }
pub open spec fn fold_is(r: IResult<&[u8], VAcc>, want: Acc) -> bool { r is Ok && vacc(r->Ok_0.1) == want }
proof fn lemma_item(cfg: DecoderConfig, s: Seq<u8>) ensures s.len() == 0 ==> item(cfg, s) is None, s.len() > 0 ==> item(cfg, s) is Some && (item(cfg, s)->0).0.len() < s.len() {}
proof fn lemma_fold<'a, P: Fn(&'a [u8]) -> IResult<&'a [u8], Item>, G: Fn(VAcc, Item) -> VAcc>(p: P, g: G, cfg: DecoderConfig, i: &'a [u8], acc: VAcc, r: IResult<&'a [u8], VAcc>, n: nat)
    requires
        fold_rel(p, g, i, acc, r, n),
        forall|j: &'a [u8], ra: IResult<&'a [u8], Item>| #[trigger] p.ensures((j,), ra) ==> is(ra, item(cfg, j@)),
        forall|a: VAcc, it: Item, b: VAcc| #[trigger] g.ensures((a, it), b) ==> vacc(b) == put(cfg, vacc(a), it),
    ensures fold_is(r, fold(cfg, i@, vacc(acc))),
    decreases n,
{
    lemma_item(cfg, i@);
    let ra = choose|ra: IResult<&'a [u8], Item>| #[trigger] p.ensures((i,), ra) && match ra {
        Err(NErr::Error(_)) => r == Ok::<(&'a [u8], VAcc), NE<'a>>((i, acc)),
        Err(e) => r == Err::<(&'a [u8], VAcc), NE<'a>>(e),
        Ok((j, o)) => if j@.len() == i@.len() { r is Err && r->Err_0 is Error } else {
            exists|acc2: VAcc| #[trigger] g.ensures((acc, o), acc2) && fold_rel(p, g, j, acc2, r, (n - 1) as nat) },
    };
    assert(is(ra, item(cfg, i@)));
    if ra is Ok {
        let j = ra->Ok_0.0; let o = ra->Ok_0.1;
        let acc2 = choose|acc2: VAcc| #[trigger] g.ensures((acc, o), acc2) && fold_rel(p, g, j, acc2, r, (n - 1) as nat);
        lemma_fold(p, g, cfg, j, acc2, r, (n - 1) as nat);
    }
}
/*@ fn urlencoded.rs::path_decode_uri
ret: r
pre: fold_many0(__ANY1, __ANY2, __ANY3,)(input) =>> { let __p = __ANY1; let __h = __ANY2; let __g = __ANY3; vx_fold_many0(__p, __h, __g, input, cfg) }
closure 0: -> (b: VAcc) ensures b.0@ == Seq::<u8>::empty(), b.1 == 0, b.2 == HtpUnwanted::IGNORE
closure 1 args: __a0: VAcc, __a1: Item
closure 1: -> (b: VAcc) ensures vacc(b) == put(*cfg, vacc(__a0), __a1)
spec: ensures fold_is(r, decoded(*cfg, input@))
@*/
/// fold_many0 with the loop invariant of this decoder (proved from fold_many0's contract)
pub fn vx_fold_many0<'a, P: Fn(&'a [u8]) -> IResult<&'a [u8], Item>, H: Fn() -> VAcc, G: Fn(VAcc, Item) -> VAcc>(p: P, h: H, g: G, i: &'a [u8], cfg: &DecoderConfig) -> (r: IResult<&'a [u8], VAcc>)
    requires total(p), h.requires(()), forall|a: VAcc, o: Item| #[trigger] g.requires((a, o)),
        forall|j: &'a [u8], ra: IResult<&'a [u8], Item>| #[trigger] p.ensures((j,), ra) ==> is(ra, item(*cfg, j@)),
        forall|a: VAcc, it: Item, b: VAcc| #[trigger] g.ensures((a, it), b) ==> vacc(b) == put(*cfg, vacc(a), it),
        forall|b: VAcc| #[trigger] h.ensures((), b) ==> b.0@ == Seq::<u8>::empty() && b.1 == 0 && b.2 == HtpUnwanted::IGNORE,
    ensures fold_is(r, decoded(*cfg, i@))
{
    let ghost gp = p; let ghost gh = h; let ghost gg = g;
    let r = fold_many0(p, h, g)(i);
    proof {
        let (acc0, n) = choose|acc0: VAcc, n: nat| #[trigger] gh.ensures((), acc0) && #[trigger] fold_rel(gp, gg, i, acc0, r, n);
        lemma_fold(gp, gg, *cfg, i, acc0, r, n);
        assert(vacc(acc0) == (Seq::<u8>::empty(), 0u64, HtpUnwanted::IGNORE));
    }
    r
}
/*@ fn urlencoded.rs::path_decode_uri_inplace
spec: ensures final(path)@ == decoded(*decoder_cfg, old(path)@).0, *final(flag) == *old(flag) | decoded(*decoder_cfg, old(path)@).1,
   *final(status) == pick(*old(status), decoded(*decoder_cfg, old(path)@).2)
@*/
}
fn main() {}
