// ---- decoder configuration and best-fit map ---------------------------------------------
/*@ item config.rs::HtpUnwanted
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
/*@ item config.rs::HtpUrlEncodingHandling
attr: #[derive(Structural, PartialEq, Eq, Clone, Copy)]
@*/
pub uninterp spec fn table(m: VMap, cp: u32) -> Option<u8>;
pub assume_specification<'a, T: std::marker::Copy> [std::option::Option::<&'a T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures match o { Some(x) => r == Some(*x), None => r is None };
#[derive(Clone, Copy)]
pub struct VMap { pub id: u64 }
impl VMap {
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &u32) -> (r: Option<&'a u8>)
        ensures match table(*self, *k) { Some(v) => r is Some && *r->Some_0 == v, None => r is None }
    { unimplemented!() }
}
/*@ item unicode_bestfit_map.rs::UnicodeBestfitMap
attr: #[derive(Clone, Copy)]
subst: &'static HashMap<u32, u8> =>> VMap
@*/
pub open spec fn fit(m: UnicodeBestfitMap, cp: u32) -> u8 { match table(m.map, cp) { Some(b) => b, None => m.replacement_byte } }
/*@ fn unicode_bestfit_map.rs::UnicodeBestfitMap::get
ret: r
spec: ensures r == fit(*self, unicode)
@*/
/*@ item config.rs::DecoderConfig
attr: #[derive(Clone, Copy)]
@*/
