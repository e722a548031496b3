use vstd::prelude::*;
verus!{
pub trait SequenceStub {}
/// the values of the type in order (enum_iterator::all)
pub uninterp spec fn all_of<T>() -> Seq<T>;
/// enum_iterator::all yields every value of the type
pub axiom fn a_all_of<T>(x: T) ensures all_of::<T>().contains(x);
#[verifier::external_body]
pub fn all<T>() -> (r: Vec<T>)
    ensures r@ == all_of::<T>()
{ vec![] }
}
