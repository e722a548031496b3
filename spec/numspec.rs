//! The value of a number literal.
use vstd::prelude::*;
#[allow(unused_imports)] use crate::*;
#[allow(unused_imports)] use crate::strmodel::*;
#[allow(unused_imports)] use crate::stdx::*;
#[allow(unused_imports)] use crate::token::*;
#[allow(unused_imports)] use crate::dep_num::*;
verus! {
pub open spec fn digit(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 }
    else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { 0 }
}
/// the number the digits of `t` write to the base `r` (`_` counts for nothing)
#[verifier::opaque]
pub open spec fn num_of(t: Seq<char>, r: int) -> int
    decreases t.len()
{
    if t.len() == 0 { 0 } else if t.last() == '_' { num_of(t.drop_last(), r) } else { num_of(t.drop_last(), r) * r + digit(t.last()) }
}
/// a decimal literal in its plain form: without `_` and `+`, the exponent after `e`
pub open spec fn plain1(p: Seq<char>, c: char) -> Seq<char> {
    if c == '_' || c == '+' { p } else if c == 'E' { p.push('e') } else { p.push(c) }
}
#[verifier::opaque]
pub open spec fn plain(t: Seq<char>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { t } else { plain1(plain(t.drop_last()), t.last()) }
}
/// it has a point or an exponent
#[verifier::opaque]
pub open spec fn is_float(t: Seq<char>) -> bool
    decreases t.len()
{
    t.len() > 0 && (t.last() == '.' || t.last() == 'e' || is_float(t.drop_last()))
}
#[verifier::opaque]
pub open spec fn text_of(s: Seq<char>, p: nat, q: nat) -> Seq<char> { plain(crate::strmodel::sub(s, p, q)) }
pub broadcast proof fn b_plain_next(s: Seq<char>, p: nat, q: nat)
    requires isb(s, p), isb(s, q), p <= q, char_at(s, q) is Some
    ensures #![trigger text_of(s, p, q), char_at(s, q)]
        text_of(s, p, q + clen(char_at(s, q)->0)) == plain1(text_of(s, p, q), char_at(s, q)->0)
{
    reveal(text_of);
    reveal_with_fuel(plain, 2);
    let c = char_at(s, q)->0;
    lemma_sub_push(s, p, q);
    let t = crate::strmodel::sub(s, p, q);
    assert(t.push(c).drop_last() =~= t);
}
pub broadcast proof fn b_float_push(t: Seq<char>, c: char)
    ensures #[trigger] is_float(t.push(c)) == (c == '.' || c == 'e' || is_float(t))
{
    reveal_with_fuel(is_float, 2);
    assert(t.push(c).drop_last() =~= t);
}
pub proof fn lemma_plain_empty(s: Seq<char>, p: nat)
    requires isb(s, p)
    ensures
        text_of(s, p, p) =~= Seq::<char>::empty(),
        !is_float(text_of(s, p, p)),
        forall|c: char| #[trigger] text_of(s, p, p).push(c) =~= seq![c],
{
    reveal(text_of);
    reveal(plain);
    reveal(is_float);
    b_sub_len(s, p, p);
}
/// the literal is the number `v`, as a 64-bit integer if it is one
pub open spec fn int_lit(k: TokenKind, v: int) -> bool {
    match k {
        TokenKind::IntegerLit(i) => i == v,
        TokenKind::BignumLit(b) => b.val() == v && !(i64::MIN <= v <= i64::MAX),
        _ => false,
    }
}
pub uninterp spec fn float_of(t: Seq<char>) -> f64;
pub open spec fn real_lit(n: NReal, t: Seq<char>) -> bool {
    match n {
        NReal::Integer(i) => !is_float(t) && i == num_of(t, 10),
        NReal::Bignum(b) => !is_float(t) && b.val() == num_of(t, 10) && !(i64::MIN <= b.val() <= i64::MAX),
        NReal::Float(f) => is_float(t) && f == float_of(t),
    }
}
pub open spec fn dec_lit(k: TokenKind, s: Seq<char>, p: nat, q: nat) -> bool {
    match k {
        TokenKind::FloatLit(f) => real_lit(NReal::Float(f), text_of(s, p, q)),
        TokenKind::ImaginaryLit(n) => q >= 1 && char_at(s, (q - 1) as nat) == Some('i') && real_lit(n, text_of(s, p, (q - 1) as nat)),
        _ => !is_float(text_of(s, p, q)) && int_lit(k, num_of(text_of(s, p, q), 10)),
    }
}
/// `k` is the number that the text from `p` to `q` writes
#[verifier::opaque]
pub open spec fn number(k: TokenKind, s: Seq<char>, p: nat, q: nat) -> bool {
    if char_at(s, p) == Some('0') && char_at(s, p + 1) == Some('x') { int_lit(k, num_of(crate::strmodel::sub(s, p + 2, q), 16)) }
    else if char_at(s, p) == Some('0') && char_at(s, p + 1) == Some('o') { int_lit(k, num_of(crate::strmodel::sub(s, p + 2, q), 8)) }
    else if char_at(s, p) == Some('0') && char_at(s, p + 1) == Some('b') { int_lit(k, num_of(crate::strmodel::sub(s, p + 2, q), 2)) }
    else { dec_lit(k, s, p, q) }
}
/// a node that is minus the number of the token
pub open spec fn negated(k: TokenKind, n: NodeKind) -> bool {
    match k {
        TokenKind::IntegerLit(i) => match n { NodeKind::Integer(j) => j == -i, NodeKind::Bignum(b) => b.val() == -i && !(i64::MIN <= b.val() <= i64::MAX), _ => false },
        TokenKind::BignumLit(a) => match n { NodeKind::Integer(j) => j == -a.val(), NodeKind::Bignum(b) => b.val() == -a.val() && !(i64::MIN <= b.val() <= i64::MAX), _ => false },
        TokenKind::FloatLit(f) => n is Float,
        _ => false,
    }
}
} // verus!
