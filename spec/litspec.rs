//! The text of string literals.
use vstd::prelude::*;
#[allow(unused_imports)] use crate::*;
#[allow(unused_imports)] use crate::strmodel::*;
#[allow(unused_imports)] use crate::stdx::*;
#[allow(unused_imports)] use crate::numspec::*;
verus! {
/// the bytes of the text
pub open spec fn rbytes(s: RubyString) -> Seq<u8> {
    match s { RubyString::Bytes(v) => v@, RubyString::Utf8(t) => utf8(t@) }
}
pub broadcast axiom fn a_utf8_push(a: Seq<char>, c: char) ensures #[trigger] utf8(a.push(c)) == utf8(a) + utf8(seq![c]);
pub broadcast axiom fn a_utf8_cat(a: Seq<char>, b: Seq<char>) ensures #[trigger] utf8(a + b) == utf8(a) + utf8(b);
pub axiom fn a_utf8_empty() ensures utf8(Seq::<char>::empty()) == Seq::<u8>::empty();
pub proof fn lemma_new(r: RubyString)
    ensures (r matches RubyString::Utf8(t) && t@.len() == 0) ==> rbytes(r) == Seq::<u8>::empty()
{
    a_utf8_empty();
    if let RubyString::Utf8(t) = r { if t@.len() == 0 { assert(t@ =~= Seq::<char>::empty()); } }
}

pub open spec fn byte1(b: u8) -> Seq<u8> { seq![b] }
pub open spec fn char1(c: char) -> Seq<u8> { utf8(seq![c]) }
pub open spec fn hexv(s: Seq<char>, p: nat) -> Option<int> {
    match char_at(s, p) { Some(c) => if sp_hex(c) { Some(digit(c)) } else { None }, None => None }
}
pub open spec fn octv(s: Seq<char>, p: nat) -> Option<int> {
    match char_at(s, p) { Some(c) => if '0' <= c <= '7' { Some(c as int - '0' as int) } else { None }, None => None }
}
pub open spec fn scalar(v: int) -> bool { 0 <= v < 0xd800 || 0xdfff < v <= 0x10ffff }
/// the number of a run of hexadecimal digits, and its end
pub open spec fn hexrun(s: Seq<char>, p: nat, acc: int) -> (int, nat)
    decreases left(s, p)
{
    match hexv(s, p) { Some(d) if p < blen(s) => hexrun(s, p + 1, acc * 16 + d), _ => (acc, p) }
}
/// `\uXXXX`, `\u{X X ..}` behind the `u` / the `{`
pub open spec fn uni4(s: Seq<char>, p: nat) -> Option<(Seq<u8>, nat)> {
    match (hexv(s, p), hexv(s, p + 1), hexv(s, p + 2), hexv(s, p + 3)) {
        (Some(a), Some(b), Some(c), Some(d)) => {
            let v = ((a * 16 + b) * 16 + c) * 16 + d;
            if scalar(v) { Some((char1(chr(v)), p + 4)) } else { None }
        }
        _ => None,
    }
}
pub open spec fn uni1(s: Seq<char>, p: nat) -> Option<(Seq<u8>, nat)> {
    let (v, e) = hexrun(s, p, 0);
    if e > p && scalar(v) { Some((char1(chr(v)), e)) } else { None }
}
/// .. behind what was read (`b`)
pub open spec fn unis(s: Seq<char>, p: nat, b: Seq<u8>) -> Option<(Seq<u8>, nat)>
    decreases left(s, p)
{
    if p >= blen(s) { None }
    else if char_at(s, p) == Some(' ') { unis(s, p + 1, b) }
    else if char_at(s, p) == Some('}') { Some((b, p + 1)) }
    else { match uni1(s, p) { Some((x, e)) => if e > p { unis(s, e, b + x) } else { None }, None => None } }
}
/// up to three octal digits, the first of them `c` before `p`
pub open spec fn oct(s: Seq<char>, p: nat, c: char) -> (int, nat) {
    let a = c as int - '0' as int;
    match octv(s, p) {
        None => (a, p),
        Some(b) => match octv(s, p + 1) { None => (a * 8 + b, p + 1), Some(d) => ((a * 64 + b * 8 + d) % 256, p + 2) },
    }
}
pub open spec fn simple_esc(c: char) -> char {
    if c == 'a' { '\x07' } else if c == 'b' { '\x08' } else if c == 'e' { '\x1b' } else if c == 'f' { '\x0c' }
    else if c == 'n' { '\x0a' } else if c == 'r' { '\x0d' } else if c == 's' { ' ' } else if c == 't' { '\x09' } else if c == 'v' { '\x0b' }
    else { c }
}
pub open spec fn byte_or_char(v: int) -> Seq<u8> { if v > 0x7f { byte1(v as u8) } else { char1((v as u8) as char) } }
/// the escape behind the backslash before `p`: its bytes behind what was read
/// (`b`), and where it ends
pub open spec fn esc(s: Seq<char>, p: nat, b: Seq<u8>) -> Option<(Seq<u8>, nat)> {
    match char_at(s, p) {
        None => None,
        Some(c) => if c == 'x' {
            match hexv(s, p + 1) {
                None => None,
                Some(a) => match hexv(s, p + 2) { None => Some((b + byte_or_char(a), p + 2)), Some(d) => Some((b + byte_or_char(a * 16 + d), p + 3)) },
            }
        } else if c == 'u' {
            if char_at(s, p + 1) == Some('{') { unis(s, p + 2, b) } else { match uni4(s, p + 1) { Some((x, e)) => Some((b + x, e)), None => None } }
        } else if '0' <= c <= '7' {
            Some((b + byte_or_char(oct(s, p + 1, c).0), oct(s, p + 1, c).1))
        } else { Some((b + char1(simple_esc(c)), p + clen(c))) },
    }
}
/// how a run of literal text ends
pub enum LitEnd { Eof, Term, Interp, Bad }
pub struct Lit { pub b: Seq<u8>, pub e: nat, pub k: LitEnd, pub l: nat }
pub open spec fn left(s: Seq<char>, p: nat) -> nat { if p < blen(s) { (blen(s) - p) as nat } else { 0 } }
pub open spec fn later(h: nat, q: nat) -> nat { if h > q { h } else { q } }
/// What one more character of a literal with escapes is: the end, or the text
/// with it, the place behind it and the depth there.
pub enum Step { End(Lit), Go(Seq<u8>, nat, nat) }
pub open spec fn dq1(s: Seq<char>, p: nat, h: nat, open: Option<char>, term: Option<char>, l: nat, b: Seq<u8>) -> Step {
    match char_at(s, p) {
        None => Step::End(Lit { b, e: p, k: LitEnd::Eof, l }),
        Some(c) => {
            let q = p + clen(c);
            if open == Some(c) { Step::Go(b + char1(c), q, l + 1) }
            else if term == Some(c) { if l == 0 { Step::End(Lit { b, e: q, k: LitEnd::Term, l }) } else { Step::Go(b + char1(c), q, (l - 1) as nat) } }
            else if c == '\\' {
                if char_at(s, q) == Some('\n') { Step::Go(b, later(h, q + 1), l) }
                else { match esc(s, q, b) { Some((x, n)) => Step::Go(x, n, l), None => Step::End(Lit { b, e: q, k: LitEnd::Bad, l }) } }
            }
            else if c == '#' && (char_at(s, q) == Some('{') || char_at(s, q) == Some('$') || char_at(s, q) == Some('@')) { Step::End(Lit { b, e: q, k: LitEnd::Interp, l }) }
            else if c == '\n' { Step::Go(b + char1(c), later(h, q), l) }
            else { Step::Go(b + char1(c), q, l) }
        }
    }
}
/// The text of a literal with escapes from `p` on, `l` brackets deep, up to its
/// end or an interpolation; here documents are pending up to `h`.
#[verifier::opaque]
pub open spec fn dq(s: Seq<char>, p: nat, h: nat, open: Option<char>, term: Option<char>, l: nat, b: Seq<u8>) -> Lit
    decreases left(s, p)
{
    match dq1(s, p, h, open, term, l, b) {
        Step::End(x) => x,
        Step::Go(x, n, m) => if n > p && p < blen(s) { dq(s, n, h, open, term, m, x) } else { Lit { b, e: p, k: LitEnd::Bad, l } },
    }
}
pub proof fn lemma_dq(s: Seq<char>, p: nat, h: nat, open: Option<char>, term: Option<char>, l: nat, b: Seq<u8>)
    ensures
        dq(s, p, h, open, term, l, b) == (match dq1(s, p, h, open, term, l, b) {
            Step::End(x) => x,
            Step::Go(x, n, m) => if n > p && p < blen(s) { dq(s, n, h, open, term, m, x) } else { Lit { b, e: p, k: LitEnd::Bad, l } },
        })
{ reveal(dq); }
/// One more character of a literal without escapes but `\\` and those of its
/// delimiters (`raw`: which stay as they are).
pub enum SStep { End(Option<(Seq<char>, nat)>), Go(Seq<char>, nat, int) }
pub open spec fn sq1(s: Seq<char>, p: nat, open: Option<char>, term: char, raw: bool, l: int, b: Seq<char>) -> SStep {
    match char_at(s, p) {
        None => SStep::End(None),
        Some(c) => {
            let q = p + clen(c);
            if open == Some(c) { SStep::Go(b.push(c), q, l + 1) }
            else if c == term { if l == 0 { SStep::End(Some((b, q))) } else { SStep::Go(b.push(c), q, l - 1) } }
            else if c == '\\' { match char_at(s, q) {
                None => SStep::End(None),
                Some(d) => {
                    let t = if d == '\\' { if raw { b.push('\\').push('\\') } else { b.push('\\') } }
                        else if !raw && (d == term || open == Some(d)) { b.push(d) }
                        else { b.push('\\').push(d) };
                    SStep::Go(t, q + clen(d), l)
                }
            } }
            else { SStep::Go(b.push(c), q, l) }
        }
    }
}
/// Its text from `p` on, and its end; `None`: it is not closed.
pub open spec fn sq(s: Seq<char>, p: nat, open: Option<char>, term: char, raw: bool, l: int, b: Seq<char>) -> Option<(Seq<char>, nat)>
    decreases left(s, p)
{
    match sq1(s, p, open, term, raw, l, b) {
        SStep::End(x) => x,
        SStep::Go(x, n, m) => if n > p && p < blen(s) { sq(s, n, open, term, raw, m, x) } else { None },
    }
}
pub proof fn lemma_plain(c: Seq<char>, p: nat)
    ensures
        forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x,
{ assert forall|x: Seq<u8>| #[trigger] (Seq::<u8>::empty() + x) == x by { assert(Seq::<u8>::empty() + x =~= x); } }
/// the bytes of a string node
#[verifier::opaque]
pub open spec fn nbytes(n: Node) -> Option<Seq<u8>> {
    match n.kind { NodeKind::Bytes(v) => Some(v@), NodeKind::String(t) => Some(utf8(t@)), _ => None }
}
/// the text of `?c` from behind the `?` on
#[verifier::opaque]
pub open spec fn ch1(c: Seq<char>, p: nat) -> Option<(Seq<u8>, nat)> {
    if char_at(c, p) == Some('\\') { esc(c, p + 1, Seq::<u8>::empty()) }
    else { match char_at(c, p) { Some(d) => Some((char1(d), p + clen(d))), None => None } }
}
#[verifier::opaque]
pub open spec fn begins(a: Seq<u8>, b: Seq<u8>) -> bool { exists|c: Seq<u8>| b == a + c }
pub broadcast proof fn begins_refl(a: Seq<u8>) ensures #[trigger] begins(a, a)
{ reveal(begins); assert(a == a + Seq::<u8>::empty()) by { assert(a =~= a + Seq::<u8>::empty()); } }
pub broadcast proof fn begins_step(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires begins(a, b)
    ensures #[trigger] begins(a, b + c)
{ reveal(begins); let d = choose|d: Seq<u8>| b == a + d; assert(b + c =~= a + (d + c)); }
} // verus!
