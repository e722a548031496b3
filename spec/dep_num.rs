//! Stand-in for the `num` crate (dependency): an integer type with an exact
//! mathematical value.  The bodies never run; the contracts are assumptions
//! about num-bigint, listed in every evidence file.
use vstd::prelude::*;
#[allow(unused_imports)] use crate::stdx::*;
#[allow(unused_imports)] use crate::numspec::*;
verus!{
#[verifier::external_body]
#[derive(Debug)]
pub struct BigInt{x:u8}
impl BigInt {
    pub uninterp spec fn val(self) -> int;
}
/// the big integer of that value
pub uninterp spec fn big(v: int) -> BigInt;
pub broadcast axiom fn a_big(v: int) ensures #[trigger] big(v).val() == v;
impl Clone for BigInt {
    #[verifier::external_body]
    fn clone(&self) -> (r: BigInt) ensures r.val() == self.val(), r == *self { BigInt{x:0} }
}
impl PartialEq for BigInt {
    #[verifier::external_body]
    fn eq(&self, other: &BigInt) -> bool { true }
}
pub trait ToPrimitive { fn to_i64(&self)->Option<i64>; }
impl ToPrimitive for BigInt {
    #[verifier::external_body]
    fn to_i64(&self)->(r: Option<i64>)
        ensures r == (if i64::MIN <= self.val() <= i64::MAX { Some(self.val() as i64) } else { None })
    { None }
}
impl BigInt {
    #[verifier::external_body]
    pub fn parse_bytes(b:&[u8], r:u32)->(res: Option<BigInt>)
        requires 2 <= r <= 36
        ensures forall|t: Seq<char>| b@ == #[trigger] utf8(t) && t.len() > 0 && t[0] != '-' && t[0] != '+'
            ==> (res matches Some(n) ==> n.val() == num_of(t, r as int))
    { None }
}
impl From<i64> for BigInt { #[verifier::external_body] fn from(i:i64)->(r: BigInt) ensures r.val() == i { BigInt{x:0} } }
impl vstd::std_specs::ops::NegSpecImpl for BigInt {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> BigInt { big(-self.val()) }
}
impl std::ops::Neg for BigInt { type Output=BigInt; #[verifier::external_body] fn neg(self)->(r: BigInt) { self } }
}
