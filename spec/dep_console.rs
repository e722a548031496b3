use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub fn measure_text_width(s:&str)->usize{ 0 }
pub struct Term{}
impl Term { #[verifier::external_body] pub fn stdout()->Term{Term{}} #[verifier::external_body] pub fn size(&self)->(u16,u16){(0,0)} }
}
