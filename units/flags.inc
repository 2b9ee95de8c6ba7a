// flag words
pub trait FlagOperations<T>: Sized { 
    spec fn or_sp(self, other: T) -> Self;
    spec fn has_sp(self, other: T) -> bool;
    fn set(&mut self, other: T) ensures *final(self) == old(self).or_sp(other);
    spec fn not_sp(self, other: T) -> Self;
    fn unset(&mut self, other: T) ensures *final(self) == old(self).not_sp(other);
    fn is_set(&self, other: T) -> (r: bool) ensures r == self.has_sp(other);
}
/*@ consts util.rs::HtpFlags
@*/
impl FlagOperations<u64> for u64 {
    open spec fn or_sp(self, other: u64) -> u64 { self | other }
    open spec fn not_sp(self, other: u64) -> u64 { self & !other }
    open spec fn has_sp(self, other: u64) -> bool { self & other != 0 }
/*@ fn util.rs::FlagOperations::u64::set
noimpl:
@*/
/*@ fn util.rs::FlagOperations::u64::unset
noimpl:
@*/
/*@ fn util.rs::FlagOperations::u64::is_set
noimpl:
subst: self & other =>> *self & other
@*/
}
