// ---- two bytes as a hexadecimal number --------------------------------------------------
/// a byte as a hexadecimal digit; for anything else the arithmetic wraps
pub open spec fn hdig(c: u8) -> int { if c >= 65 { (c & 0xdf) - 55 } else if c >= 48 { c - 48 } else { c + 208 } }
pub open spec fn x2(a: u8, b: u8) -> u8 { ((16 * hdig(a) + hdig(b)) % 256) as u8 }
/// the value of a hexadecimal digit
pub open spec fn hexval(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 65 <= c <= 70 { c - 65 + 10 } else { c - 97 + 10 } }
pub proof fn lemma_digit(c: u8) requires hexd(c) ensures hdig(c) == hexval(c)
{
    assert(65 <= c <= 70 ==> c & 0xdf == c) by(bit_vector);
    assert(97 <= c <= 102 ==> c & 0xdf == c - 32) by(bit_vector);
}
/// two hexadecimal digits give their value
pub proof fn lemma_x2(a: u8, b: u8) requires hexd(a), hexd(b) ensures x2(a, b) == 16 * hexval(a) + hexval(b) { lemma_digit(a); lemma_digit(b); }
proof fn lemma_hd(c: u8) ensures 0 <= hdig(c) < 256, (c & 0xdf) <= 0xdf, c >= 65 ==> (c & 0xdf) >= 64
{ assert((c & 0xdf) <= 0xdf) by(bit_vector); assert(c >= 65 ==> (c & 0xdf) >= 64) by(bit_vector); }
proof fn lemma_mod(a: int, b: int) requires 0 <= a < 256, 0 <= b < 256 ensures (16 * a + b) % 256 == ((a * 16) % 256 + b) % 256 { vstd::arithmetic::div_mod::lemma_add_mod_noop(16 * a, b, 256); assert(b % 256 == b); }
/*@ fn urlencoded.rs::x2c
ret: r
closure 0 args: c: u8
closure 0: -> (d: u8) ensures d == hdig(c)
closure 0 start: proof { lemma_hd(c); }
tail: proof { lemma_hd(c1); lemma_hd(c2); lemma_mod(hdig(c1), hdig(c2)); }
spec: ensures match r {
     Ok((rest, v)) => input@.len() >= 2 && v == x2(input@[0], input@[1]) && rest@ == input@.subrange(2, input@.len() as int),
     Err(e) => e is Error && input@.len() < 2 }
@*/
