#![allow(unused, non_camel_case_types, non_upper_case_globals)]
use vstd::prelude::*;
use vstd::slice::*;
verus! {
//@include bstr.inc
// ---------------------------------------------------------------------------------------
// What the decoder must do, written from the definition of UTF-8 (not from its tables):
// which bytes may start a character, which may continue it, and the value they encode.
// Overlong forms are accepted; surrogates and values above U+10FFFF are not.
pub const ACCEPT: u32 = 0;
pub const REJECT: u32 = 1;
pub open spec fn is_cont(b: u8) -> bool { 0x80 <= b <= 0xbf }
/// state after the first byte of a character: how much is missing, and what may come next
pub open spec fn lead(b: u8) -> u32 {
    if b < 0x80 { 0 } else if b < 0xc0 { 1 } else if b < 0xe0 { 2 } else if b == 0xed { 5 } else if b < 0xf0 { 3 } else if b < 0xf4 { 7 } else if b == 0xf4 { 8 } else { 1 }
}
pub open spec fn pending(st: u32) -> bool { st == 2 || st == 3 || st == 5 || st == 7 || st == 8 }
/// number of bytes still missing in a pending state
pub open spec fn missing(st: u32) -> int { if st == 2 { 1 } else if st == 3 || st == 5 { 2 } else { 3 } }
pub open spec fn follow(st: u32, b: u8) -> u32 {
    if st == 2 { if is_cont(b) { 0 } else { 1 } }
    else if st == 3 { if is_cont(b) { 2 } else { 1 } }
    else if st == 5 { if 0x80 <= b <= 0x9f { 2 } else { 1 } }
    else if st == 7 { if is_cont(b) { 3 } else { 1 } }
    else if st == 8 { if 0x80 <= b <= 0x8f { 3 } else { 1 } }
    else { 1 }
}
pub open spec fn next(st: u32, b: u8) -> u32 { if st == 0 { lead(b) } else { follow(st, b) } }
/// payload bits of a first byte
pub open spec fn lead_bits(b: u8) -> u32 {
    if b < 0x80 { b as u32 } else if b < 0xc0 { 0 } else if b < 0xe0 { (b - 0xc0) as u32 } else if b < 0xf0 { (b - 0xe0) as u32 } else { (b - 0xf0) as u32 }
}
pub open spec fn value(st: u32, cp: u32, b: u8) -> u32 { if st == 0 { lead_bits(b) } else { (cp * 64 + (b % 64)) as u32 } }

pub ghost struct Out { pub bytes: Seq<u8>, pub flags: u64, pub seen: bool }
pub ghost struct D { pub st: u32, pub seq: int, pub cp: u32, pub o: Out }
pub open spec fn reps(n: int, r: u8) -> Seq<u8> { Seq::new(n as nat, |i: int| r) }
pub uninterp spec fn table(m: VMap, cp: u32) -> Option<u8>;
/// single byte for a code point: itself below 256, else the best-fit table, else the replacement byte
pub open spec fn best(m: UnicodeBestfitMap, cp: u32) -> u8 {
    if cp < 0x100 { cp as u8 } else { match table(m.map, cp) { Some(b) => b, None => m.replacement_byte } }
}
pub open spec fn overlong(n: int, cp: u32) -> bool { (n == 2 && cp < 0x80) || (n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000) }
/// a complete character of n bytes with value cp
pub open spec fn emit(o: Out, n: int, cp: u32, m: UnicodeBestfitMap) -> Out {
    if n == 1 { Out { bytes: o.bytes.push(cp as u8), ..o } }
    else {
        let f = if overlong(n, cp) { o.flags | HtpFlags::PATH_UTF8_OVERLONG } else { o.flags };
        let g = if 0xff00 <= cp <= 0xffef { f | HtpFlags::PATH_HALF_FULL_RANGE } else { f };
        Out { bytes: o.bytes.push(best(m, cp)), flags: g, seen: true }
    }
}
pub open spec fn bad(o: Out, m: UnicodeBestfitMap) -> Out {
    Out { bytes: o.bytes.push(m.replacement_byte), flags: o.flags | HtpFlags::PATH_UTF8_INVALID, ..o }
}
/// One byte. A byte that cannot continue the current character ends it (replacement) and starts the next one.
pub open spec fn step(d: D, b: u8, last: bool, m: UnicodeBestfitMap) -> D decreases d.seq {
    let ns = next(d.st, b);
    let cp = value(d.st, d.cp, b);
    if ns == 0 { D { st: 0, seq: 0, cp: 0, o: emit(d.o, d.seq + 1, cp, m) } }
    else if ns == 1 {
        let e = D { st: 0, seq: 0, cp: 0, o: bad(d.o, m) };
        if d.seq <= 0 { e } else { step(e, b, last, m) }
    } else {
        // unfinished at the end of the input: one replacement per byte after the first
        D { st: ns, seq: d.seq + 1, cp, o: if last { Out { bytes: d.o.bytes + reps(d.seq, m.replacement_byte), ..d.o } } else { d.o } }
    }
}
pub open spec fn run(s: Seq<u8>, n: int, m: UnicodeBestfitMap) -> D decreases n {
    if n <= 0 { D { st: 0, seq: 0, cp: 0, o: Out { bytes: Seq::empty(), flags: 0, seen: false } } }
    else { step(run(s, n - 1, m), s[n - 1], n == s.len(), m) }
}
pub open spec fn flags_of(s: Seq<u8>, m: UnicodeBestfitMap) -> u64 {
    let d = run(s, s.len() as int, m);
    if d.o.seen && d.o.flags & HtpFlags::PATH_UTF8_INVALID == 0 { d.o.flags | HtpFlags::PATH_UTF8_VALID } else { d.o.flags }
}
pub open spec fn decoded(s: Seq<u8>, m: UnicodeBestfitMap) -> Seq<u8> { run(s, s.len() as int, m).o.bytes }

// ------------------------------------------------------------------------- the tables
/*@ item utf8_decoder.rs::utf8d
@*/
/*@ item utf8_decoder.rs::utf8d_allow_overlong
@*/
pub open spec fn class_ok(b: int) -> bool {
    let t = utf8d_allow_overlong@[b] as u32;
    let s = utf8d@[256 + t] as u32;
    t < 12 && s == lead(b as u8)
}
pub open spec fn trans_ok(st: int, b: int) -> bool {
    let t = utf8d_allow_overlong@[b] as int;
    t < 12 && utf8d@[256 + st * 16 + t] as u32 == follow(st as u32, b as u8)
}
pub open spec fn type_of(b: int) -> int {
    if b < 0x80 { 0 } else if b < 0x90 { 1 } else if b < 0xa0 { 9 } else if b < 0xc0 { 7 } else if b < 0xe0 { 2 } else if b == 0xed { 4 } else if b < 0xf0 { 3 } else if b < 0xf4 { 6 } else if b == 0xf4 { 5 } else { 8 }
}
spec fn all_class(b: int) -> bool decreases 256 - b { if 0 <= b < 256 { utf8d_allow_overlong@[b] as int == type_of(b) && all_class(b + 1) } else { true } }
proof fn ind_class(a: int, b: int) requires 0 <= a <= b < 256, all_class(a) ensures utf8d_allow_overlong@[b] as int == type_of(b) decreases b - a { if a < b { ind_class(a + 1, b); } }
proof fn lemma_class(b: int) requires 0 <= b < 256 ensures utf8d_allow_overlong@[b] as int == type_of(b)
{ assert(all_class(0)) by(compute); ind_class(0, b); }
/// next state by (state, class of byte)
pub open spec fn tr(st: int, t: int) -> int {
    if st == 0 { if t == 0 { 0 } else if t == 2 { 2 } else if t == 3 { 3 } else if t == 4 { 5 } else if t == 5 { 8 } else if t == 6 { 7 } else { 1 } }
    else if st == 2 { if t == 1 || t == 7 || t == 9 { 0 } else { 1 } }
    else if st == 3 { if t == 1 || t == 7 || t == 9 { 2 } else { 1 } }
    else if st == 5 { if t == 1 || t == 9 { 2 } else { 1 } }
    else if st == 7 { if t == 1 || t == 7 || t == 9 { 3 } else { 1 } }
    else if st == 8 { if t == 1 { 3 } else { 1 } }
    else { 1 }
}
pub open spec fn live(st: int) -> bool { st == 0 || st == 2 || st == 3 || st == 5 || st == 7 || st == 8 }
pub open spec fn used(t: int) -> bool { 0 <= t <= 9 }
spec fn all_tr(k: int) -> bool decreases 144 - k { if 0 <= k < 144 { (live(k / 16) && used(k % 16) ==> utf8d@[256 + k] as int == tr(k / 16, k % 16)) && all_tr(k + 1) } else { true } }
proof fn ind_tr(a: int, k: int) requires 0 <= a <= k < 144, all_tr(a) ensures live(k / 16) && used(k % 16) ==> utf8d@[256 + k] as int == tr(k / 16, k % 16) decreases k - a { if a < k { ind_tr(a + 1, k); } }
proof fn lemma_tr(st: int, t: int) requires live(st), used(t) ensures utf8d@[256 + st * 16 + t] as int == tr(st, t)
{ assert(all_tr(0)) by(compute); ind_tr(0, st * 16 + t); }
proof fn lemma_next(st: u32, b: u8) requires live(st as int) ensures next(st, b) as int == tr(st as int, type_of(b as int)), used(type_of(b as int)) {}

// ------------------------------------------------------------------------- the code
pub assume_specification<'a, T: std::marker::Copy> [std::option::Option::<&'a T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures match o { Some(x) => r == Some(*x), None => r is None };
#[derive(Clone, Copy)]
pub struct VMap { pub id: u64 }
impl VMap {
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &u32) -> (r: Option<&'a u8>)
        ensures match table(*self, *k) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
    { unimplemented!() }
}
/*@ item unicode_bestfit_map.rs::UnicodeBestfitMap
attr: #[derive(Clone, Copy)]
subst: &'static HashMap<u32, u8> =>> VMap
@*/
/*@ fn unicode_bestfit_map.rs::UnicodeBestfitMap::get
ret: r
spec: ensures r == (match table(self.map, unicode) { Some(b) => b, None => self.replacement_byte })
@*/
/*@ item utf8_decoder.rs::Utf8Decoder
@*/
/*@ item config.rs::HtpUnwanted
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item config.rs::DecoderConfig
fields: utf8_invalid_unwanted utf8_convert_bestfit bestfit_map
@*/
//@include flags.inc
impl Utf8Decoder {
    pub open spec fn d(&self) -> D {
        D { st: self.state, seq: self.seq as int, cp: if self.state == 0 { 0 } else { self.codepoint }, o: Out { bytes: self.decoded_bytes@, flags: self.flags, seen: self.seen_valid } }
    }
    /// between two bytes: the state says how many bytes of the character were read, and their value is small enough
    pub open spec fn inv(&self) -> bool {
        &&& live(self.state as int)
        &&& (self.state == 0 <==> self.seq == 0)
        &&& self.state != 0 ==> self.seq + missing(self.state) <= 4 && self.codepoint < (if self.seq == 1 { 32u32 } else if self.seq == 2 { 2048u32 } else { 131072u32 })
    }
}
/*@ fn utf8_decoder.rs::Utf8Decoder::new
ret: r
spec: ensures r.bestfit_map == bestfit_map
@*/
/*@ fn utf8_decoder.rs::Utf8Decoder::decode_byte_allow_overlong
start: proof { 
    lemma_class(byte as int); lemma_tr(self.state as int, type_of(byte as int)); lemma_next(self.state, byte as u8);
    let b = byte as u8; let c = self.codepoint;
    assert(byte < 256 ==> byte & 0x3f == byte % 64) by(bit_vector);
    assert(c < 131072 ==> ((byte & 0x3f) | (c << 6)) == (byte & 0x3f) + c * 64) by(bit_vector);
    assert(byte < 0x80 ==> (0xffu32 >> 0u32) & byte == byte) by(bit_vector);
    assert(0xc0 <= byte < 0xe0 ==> (0xffu32 >> 2u32) & byte == byte - 0xc0) by(bit_vector);
    assert(0xe0 <= byte < 0xf0 ==> (0xffu32 >> 3u32) & byte == byte - 0xe0) by(bit_vector);
    assert(byte == 0xed ==> (0xffu32 >> 4u32) & byte == 13) by(bit_vector);
    assert(byte == 0xf4 ==> (0xffu32 >> 5u32) & byte == 4) by(bit_vector);
    assert(0xf0 <= byte < 0xf4 ==> (0xffu32 >> 6u32) & byte == byte - 0xf0) by(bit_vector);
  }
spec: requires old(self).inv_mid(), byte < 256
  ensures *final(self) == (Utf8Decoder { state: final(self).state, codepoint: final(self).codepoint, ..*old(self) }),
    final(self).state == next(old(self).state, byte as u8),
    final(self).state != 1 ==> final(self).codepoint == value(old(self).state, old(self).codepoint, byte as u8),
@*/
impl Utf8Decoder { pub open spec fn inv_mid(&self) -> bool { live(self.state as int) && (self.state != 0 ==> self.codepoint < 131072) } }
/*@ fn utf8_decoder.rs::Utf8Decoder::bestfit_codepoint
ret: r
spec: ensures r == best(self.bestfit_map, self.codepoint)
@*/
/*@ fn utf8_decoder.rs::Utf8Decoder::decode_byte
spec: requires old(self).inv()
  ensures final(self).inv(), final(self).bestfit_map == old(self).bestfit_map, final(self).d() == step(old(self).d(), encoded_byte, is_last_byte, old(self).bestfit_map)
  decreases old(self).seq
loop 0 iter: it
loop 0: invariant self.decoded_bytes@ =~= old(self).decoded_bytes@ + reps(it.index@, self.bestfit_map.replacement_byte), *self == (Utf8Decoder { decoded_bytes: self.decoded_bytes, state: self.state, codepoint: self.codepoint, seq: self.seq, ..*old(self) }),
@*/
/// `slice.iter().enumerate().map(f)`, collected (assumed contract on core's iterators)
#[verifier::external_body]
pub fn vx_enum_map<'a, B, F: Fn((usize, &'a u8)) -> B>(s: &'a [u8], f: F) -> (r: Vec<B>)
    requires forall|i: usize, c: &'a u8| i < s@.len() ==> #[trigger] f.requires(((i, c),)),
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> f.ensures(((i as usize, &s@[i]),), #[trigger] r@[i]),
{ unimplemented!() }
/*@ fn utf8_decoder.rs::Utf8Decoder::decode_and_validate
subst: input.iter().enumerate().map(__ANY) =>> vx_enum_map(input, __ANY)
closure 0 args: __a0: (usize, &u8)
closure 0: -> (__b: (&u8, bool)) requires __a0.0 < input@.len() ensures __b.0 == __a0.1, __b.1 == (__a0.0 + 1 == input@.len())
loop 0 iter: it
loop 0: invariant self.inv(), self.bestfit_map == old(self).bestfit_map, 
   it.seq().len() == input@.len(), forall|i: int| 0 <= i < input@.len() ==> (*(#[trigger] it.seq()[i]).0 == input@[i] && it.seq()[i].1 == (i + 1 == input@.len())),
   self.d() == run(input@, it.index@, self.bestfit_map)
spec: ensures final(self).decoded_bytes@ == decoded(input@, old(self).bestfit_map), final(self).flags == flags_of(input@, old(self).bestfit_map)
@*/
/*@ fn utf8_decoder.rs::decode_and_validate_inplace
spec: ensures
    final(path)@ == (if cfg.utf8_convert_bestfit { decoded(old(path)@, cfg.bestfit_map) } else { old(path)@ }),
    *final(flags) == *old(flags) | flags_of(old(path)@, cfg.bestfit_map),
    *final(status) == (if *final(flags) & HtpFlags::PATH_UTF8_INVALID != 0 && cfg.utf8_invalid_unwanted != HtpUnwanted::IGNORE { cfg.utf8_invalid_unwanted } else { *old(status) }),
@*/
}
fn main() {}
