// ---- Bstr: a growable byte string (bstr::BString underneath) ---------------------------
// The real type wraps BString, which derefs to Vec<u8>; the methods used by the extracted
// code are modelled over a Vec<u8> with assumed contracts.
pub struct Bstr { pub s: Vec<u8> }
impl View for Bstr { type V = Seq<u8>; closed spec fn view(&self) -> Seq<u8> { self.s@ } }
impl Bstr {
    #[verifier::external_body]
    pub fn new() -> (r: Bstr) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Bstr) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(b: &[u8]) -> (r: Bstr) ensures r@ == b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Bstr) ensures r@ == self@ { unimplemented!() }
}
