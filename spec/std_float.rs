use vstd::prelude::*;
verus!{
/// `-x` on f64 (the extractor rewrites float negation to this call).
#[verifier::external_body]
pub fn f64_neg(x: f64) -> f64 { -x }
}
