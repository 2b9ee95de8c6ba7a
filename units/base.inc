#[verifier::external_body]
pub fn empty_bytes<'a>() -> (r: &'a [u8]) ensures r@ == Seq::<u8>::empty() { &[] }

/// slice equality, verified
pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ =~= b@),
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a@.len(), a@.len() == b@.len(), a@.subrange(0, i as int) == b@.subrange(0, i as int),
        decreases a@.len() - i,
    {
        if a[i] != b[i] { return false; }
        proof {
            assert(a@.subrange(0, i + 1) =~= a@.subrange(0, i as int).push(a@[i as int]));
            assert(b@.subrange(0, i + 1) =~= b@.subrange(0, i as int).push(b@[i as int]));
        }
        i += 1;
    }
    proof { assert(a@.subrange(0, i as int) =~= a@); assert(b@.subrange(0, i as int) =~= b@); }
    true
}

// standard-library functions without a vstd specification (assumed contracts)
pub open spec fn hexd(c: u8) -> bool { (48 <= c <= 57) || (65 <= c <= 70) || (97 <= c <= 102) }
pub open spec fn ascii_ws(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 12 || c == 13 }
pub open spec fn sp_is_ascii_hexdigit(c: &u8) -> bool { hexd(*c) }
pub open spec fn sp_is_ascii_digit(c: &u8) -> bool { 48 <= *c <= 57 }
pub open spec fn sp_is_ascii_whitespace(c: &u8) -> bool { ascii_ws(*c) }
#[verifier::when_used_as_spec(sp_is_ascii_hexdigit)]
pub assume_specification [u8::is_ascii_hexdigit] (_0: &u8) -> (r: bool) ensures r == hexd(*_0);
#[verifier::when_used_as_spec(sp_is_ascii_digit)]
pub assume_specification [u8::is_ascii_digit] (_0: &u8) -> (r: bool) ensures r == (48 <= *_0 <= 57);
#[verifier::when_used_as_spec(sp_is_ascii_whitespace)]
pub assume_specification [u8::is_ascii_whitespace] (_0: &u8) -> (r: bool) ensures r == ascii_ws(*_0);

/// No object is larger than isize::MAX bytes (a fact of the language).
pub mod ax {
    use vstd::prelude::*;
    pub broadcast axiom fn ax_slice_len(s: &[u8])
        ensures (#[trigger] s@.len()) <= isize::MAX;
}

pub mod skl {
    use vstd::prelude::*;
    pub open spec fn skip_while(f: spec_fn(u8) -> bool, s: Seq<u8>) -> Seq<u8> decreases s.len() {
        if s.len() > 0 && f(s[0]) { skip_while(f, s.subrange(1, s.len() as int)) } else { s }
    }
    pub proof fn lemma_skip_ind(f: spec_fn(u8) -> bool, s: Seq<u8>, n: int)
        requires 0 <= n <= s.len(), forall|k: int| 0 <= k < n ==> f(#[trigger] s[k]), n < s.len() ==> !f(s[n]),
        ensures skip_while(f, s) == s.subrange(n, s.len() as int),
        decreases n,
    {
        if n > 0 {
            let t = s.subrange(1, s.len() as int);
            assert forall|k: int| 0 <= k < n - 1 implies f(#[trigger] t[k]) by { assert(t[k] == s[k + 1]); }
            if n < s.len() { assert(t[n - 1] == s[n]); }
            lemma_skip_ind(f, t, n - 1);
            assert(t.subrange(n - 1, t.len() as int) =~= s.subrange(n, s.len() as int));
        } else {
            assert(s.subrange(0, s.len() as int) =~= s);
        }
    }
    pub proof fn lemma_props(f: spec_fn(u8) -> bool, s: Seq<u8>) -> (n: int)
        ensures 0 <= n <= s.len(), skip_while(f, s) == s.subrange(n, s.len() as int), forall|k: int| 0 <= k < n ==> f(#[trigger] s[k]), n < s.len() ==> !f(s[n])
        decreases s.len()
    {
        if s.len() > 0 && f(s[0]) {
            let t = s.subrange(1, s.len() as int);
            let m = lemma_props(f, t);
            assert forall|k: int| 0 <= k < m + 1 implies f(#[trigger] s[k]) by { if k > 0 { assert(t[k - 1] == s[k]); } }
            if m < t.len() { assert(t[m] == s[m + 1]); }
            assert(t.subrange(m, t.len() as int) =~= s.subrange(m + 1, s.len() as int));
            m + 1
        } else { assert(s.subrange(0, s.len() as int) =~= s); 0 }
    }
    pub broadcast proof fn lemma_skip(f: spec_fn(u8) -> bool, s: Seq<u8>, n: int)
        requires 0 <= n <= s.len(), forall|k: int| 0 <= k < n ==> f(#[trigger] s[k]), n < s.len() ==> !f(s[n]),
        ensures (#[trigger] skip_while(f, s)) == (#[trigger] s.subrange(n, s.len() as int)),
    { lemma_skip_ind(f, s, n); }
}
pub use skl::skip_while;
broadcast use {ax::ax_slice_len, skl::lemma_skip};

/// `slice.iter().any(f)` / `.all(f)` (assumed contracts on core::slice::Iter).
#[verifier::external_body]
pub fn vx_any<'a, F: Fn(&'a u8) -> bool>(s: &'a [u8], f: F) -> (r: bool)
    requires forall|c: &'a u8| f.requires((c,)),
    ensures
        r ==> exists|k: int| 0 <= k < s@.len() && f.ensures((&#[trigger] s@[k],), true),
        !r ==> forall|k: int| 0 <= k < s@.len() ==> f.ensures((&#[trigger] s@[k],), false),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_all<'a, F: Fn(&'a u8) -> bool>(s: &'a [u8], f: F) -> (r: bool)
    requires forall|c: &'a u8| f.requires((c,)),
    ensures
        !r ==> exists|k: int| 0 <= k < s@.len() && f.ensures((&#[trigger] s@[k],), false),
        r ==> forall|k: int| 0 <= k < s@.len() ==> f.ensures((&#[trigger] s@[k],), true),
{ unimplemented!() }
