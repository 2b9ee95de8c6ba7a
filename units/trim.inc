pub open spec fn sp(c: u8) -> bool { c == 32 || c == 9 || c == 13 || c == 10 || c == 11 || c == 12 }
pub open spec fn separator(c: u8) -> bool {
    c == 40 || c == 41 || c == 60 || c == 62 || c == 64 || c == 44 || c == 59 || c == 58 || c == 92 || c == 34
    || c == 47 || c == 91 || c == 93 || c == 63 || c == 61 || c == 123 || c == 125 || c == 32 || c == 9
}
pub open spec fn token(c: u8) -> bool { 32 < c < 127 && !separator(c) }
/// s without its leading whitespace
pub open spec fn lstrip(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && sp(s[0]) { lstrip(s.subrange(1, s.len() as int)) } else { s }
}
pub open spec fn rstrip(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() > 0 && sp(s[s.len() - 1]) { rstrip(s.subrange(0, s.len() - 1)) } else { s }
}
/*@ fn util.rs::is_separator
ret: r
spec: ensures r == separator(c)
@*/
/*@ fn util.rs::is_token
ret: r
spec: ensures r == token(c)
@*/
/*@ fn util.rs::is_space
attr: #[verifier::when_used_as_spec(sp)]
ret: r
spec: ensures r == sp(c)
@*/
/*@ fn util.rs::trim_start
ret: r
spec: ensures r@ == lstrip(input@)
loop 0:
  invariant lstrip(result@) == lstrip(input@)
  ensures lstrip(result@) == result@, lstrip(result@) == lstrip(input@)
  decreases result@.len()
@*/
/*@ fn util.rs::trim_end
ret: r
spec: ensures r@ == rstrip(input@)
loop 0:
  invariant rstrip(result@) == rstrip(input@)
  ensures rstrip(result@) == result@, rstrip(result@) == rstrip(input@)
  decreases result@.len()
@*/
/*@ fn util.rs::trimmed
ret: r
spec: ensures r@ == rstrip(lstrip(input@))
@*/
