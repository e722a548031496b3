//! Byte-offset model of UTF-8 text, over the character sequence `s@`.
use vstd::prelude::*;
#[allow(unused_imports)] use vstd::string::*;
verus! {

/// UTF-8 length of a character.
pub open spec fn clen(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}

/// byte length of the first `k` characters
pub open spec fn off(s: Seq<char>, k: nat) -> nat
    decreases k
{
    if k == 0 || k > s.len() { 0 } else { off(s, (k - 1) as nat) + clen(s[k - 1]) }
}

/// byte length of a text
pub closed spec fn blen(s: Seq<char>) -> nat { off(s, s.len()) }

/// `p` is a character boundary of `s`
pub closed spec fn isb(s: Seq<char>, p: nat) -> bool {
    exists|k: nat| k <= s.len() && #[trigger] off(s, k) == p
}

/// index of the character that starts at boundary `p`
pub closed spec fn kof(s: Seq<char>, p: nat) -> nat {
    choose|k: nat| k <= s.len() && #[trigger] off(s, k) == p
}

/// the character at byte offset `p`
pub closed spec fn char_at(s: Seq<char>, p: nat) -> Option<char> {
    if isb(s, p) && kof(s, p) < s.len() { Some(s[kof(s, p) as int]) } else { None }
}

/// the text between two boundaries
pub closed spec fn sub(s: Seq<char>, p: nat, q: nat) -> Seq<char> {
    if isb(s, p) && isb(s, q) && p <= q { s.subrange(kof(s, p) as int, kof(s, q) as int) } else { Seq::empty() }
}

pub proof fn lemma_off_mono(s: Seq<char>, j: nat, k: nat)
    requires j <= k <= s.len()
    ensures off(s, j) + (k - j) <= off(s, k)
    decreases k - j
{
    if j < k { lemma_off_mono(s, j, (k - 1) as nat); }
}

pub proof fn lemma_kof(s: Seq<char>, k: nat)
    requires k <= s.len()
    ensures isb(s, off(s, k)), kof(s, off(s, k)) == k
{
    assert(isb(s, off(s, k)));
    let j = kof(s, off(s, k));
    assert(j <= s.len() && off(s, j) == off(s, k));
    if j < k { lemma_off_mono(s, j, k); } else if k < j { lemma_off_mono(s, k, j); }
}

pub broadcast proof fn b_isb_zero(s: Seq<char>)
    ensures #[trigger] isb(s, 0), kof(s, 0) == 0
{
    lemma_kof(s, 0);
}

pub broadcast proof fn b_isb_len(s: Seq<char>)
    ensures #![trigger blen(s)] isb(s, blen(s)), char_at(s, blen(s)) is None, kof(s, blen(s)) == s.len(), (s.len() <= blen(s))
{
    lemma_kof(s, s.len());
    lemma_off_mono(s, 0, s.len());
}

pub broadcast proof fn b_isb_le(s: Seq<char>, p: nat)
    requires #[trigger] isb(s, p)
    ensures p <= blen(s), off(s, kof(s, p)) == p, kof(s, p) <= s.len()
{
    let k = kof(s, p);
    lemma_off_mono(s, k, s.len());
}

pub broadcast proof fn b_char_at(s: Seq<char>, p: nat)
    requires isb(s, p)
    ensures
        #![trigger char_at(s, p)]
        char_at(s, p) is None ==> p == blen(s),
        char_at(s, p) matches Some(c) ==> {
            &&& 1 <= clen(c) <= 4
            &&& p + clen(c) <= blen(s)
            &&& p < blen(s)
            &&& isb(s, p + clen(c))
            &&& kof(s, p + clen(c)) == kof(s, p) + 1
            &&& kof(s, p) < s.len()
            &&& c == s[kof(s, p) as int]
        },
{
    let k = kof(s, p);
    if k < s.len() {
        lemma_kof(s, (k + 1) as nat);
        assert(off(s, (k + 1) as nat) == off(s, k) + clen(s[k as int]));
        lemma_off_mono(s, (k + 1) as nat, s.len());
    }
}

pub proof fn lemma_char_at_isb(s: Seq<char>, p: nat)
    ensures char_at(s, p) is Some ==> isb(s, p)
{}

/// no boundary strictly inside a character; an ASCII character is one byte
pub proof fn lemma_isb_order(s: Seq<char>, p: nat, q: nat)
    requires isb(s, p), isb(s, q), p < q
    ensures char_at(s, p) is Some, kof(s, p) < kof(s, q), p + clen(char_at(s, p)->0) <= q
{
    let j = kof(s, p); let k = kof(s, q);
    if k <= j { lemma_off_mono(s, k, j); }
    lemma_kof(s, (j + 1) as nat);
    lemma_off_mono(s, (j + 1) as nat, k);
}

pub broadcast proof fn b_sub_len(s: Seq<char>, p: nat, q: nat)
    requires isb(s, p), isb(s, q), p <= q
    ensures
        #![trigger sub(s, p, q)]
        sub(s, p, q) =~= s.subrange(kof(s, p) as int, kof(s, q) as int),
        kof(s, p) <= kof(s, q) <= s.len(),
        sub(s, p, q).len() == kof(s, q) - kof(s, p),
        (p == q ==> sub(s, p, q).len() == 0),
        (p < q ==> sub(s, p, q).len() > 0 && char_at(s, p) == Some(sub(s, p, q)[0])),
        blen(sub(s, p, q)) == q - p,
{
    if p < q { lemma_isb_order(s, p, q); }
    b_isb_le(s, q);
    lemma_blen_sub(s, kof(s, p), kof(s, q));
}

proof fn lemma_blen_sub(s: Seq<char>, j: nat, k: nat)
    requires j <= k <= s.len()
    ensures blen(s.subrange(j as int, k as int)) == off(s, k) - off(s, j)
    decreases k - j
{
    let t = s.subrange(j as int, k as int);
    if j < k {
        lemma_blen_sub(s, j, (k - 1) as nat);
        let u = s.subrange(j as int, k - 1);
        lemma_off_ext(t, u, (k - 1 - j) as nat);
    }
}

pub proof fn lemma_off_ext(s: Seq<char>, t: Seq<char>, k: nat)
    requires k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i]
    ensures off(s, k) == off(t, k)
    decreases k
{
    if k > 0 { lemma_off_ext(s, t, (k - 1) as nat); }
}

/// extending a slice by the character that follows it
pub broadcast proof fn b_sub_head(s: Seq<char>, p: nat, q: nat)
    requires isb(s, p), isb(s, q), p < q
    ensures #![trigger sub(s, p, q)] sub(s, p, q).len() > 0, char_at(s, p) == Some(sub(s, p, q)[0])
{
    lemma_isb_order(s, p, q);
    b_sub_len(s, p, q);
    b_char_at(s, p);
}
pub proof fn lemma_sub_push(s: Seq<char>, p: nat, q: nat)
    requires isb(s, p), isb(s, q), p <= q, char_at(s, q) is Some
    ensures sub(s, p, q + clen(char_at(s, q)->0)) =~= sub(s, p, q).push(char_at(s, q)->0)
{
    b_char_at(s, q);
    b_sub_len(s, p, q);
    b_sub_len(s, p, q + clen(char_at(s, q)->0));
}

/// the prefix of `s` that ends at boundary `e`
pub open spec fn prefix(s: Seq<char>, e: nat) -> Seq<char> { sub(s, 0, e) }

pub proof fn lemma_prefix_isb(s: Seq<char>, e: nat, p: nat)
    requires isb(s, e)
    ensures
        isb(sub(s, 0, e), p) <==> (isb(s, p) && p <= e),
        blen(sub(s, 0, e)) == e,
        isb(sub(s, 0, e), p) ==> kof(sub(s, 0, e), p) == kof(s, p),
{
    lemma_kof(s, 0);
    b_isb_zero(s);
    b_sub_len(s, 0, e);
    let t = sub(s, 0, e);
    let n = kof(s, e);
    if isb(t, p) {
        let k = kof(t, p);
        lemma_off_ext(s, t, k);
        lemma_kof(s, k);
        lemma_off_mono(s, k, n);
    }
    if isb(s, p) && p <= e {
        let k = kof(s, p);
        if k > n { lemma_off_mono(s, n, k); }
        lemma_off_ext(s, t, k);
        lemma_kof(t, k);
    }
}

pub broadcast proof fn b_prefix(s: Seq<char>, e: nat, p: nat)
    requires isb(s, e), isb(s, p), p <= e
    ensures #[trigger] isb(sub(s, 0, e), p)
{
    lemma_prefix_isb(s, e, p);
}

pub broadcast proof fn b_unprefix(s: Seq<char>, e: nat, p: nat)
    requires isb(s, e), #[trigger] isb(sub(s, 0, e), p)
    ensures isb(s, p), p <= e
{
    lemma_prefix_isb(s, e, p);
}

pub broadcast group group_str {
    b_isb_zero, b_isb_len, b_isb_le, b_char_at, b_sub_len, b_prefix, b_unprefix,
}

// ---------------------------------------------------------------- trusted

/// Rust guarantees no text is longer than isize::MAX bytes.
pub broadcast axiom fn a_str_max(s: &str)
    ensures #[trigger] blen(s@) <= isize::MAX;

/// `char::len_utf8`
pub broadcast axiom fn a_spec_bytes(s: &str)
    ensures #[trigger] s.spec_bytes().len() == blen(s@);

/// Range indexing and `get` on text: the extractor rewrites `&s[a..b]`,
/// `s.get(a..)` to these (same std operation, with a contract).
pub trait StrX {
    spec fn xv(&self) -> Seq<char>;
    fn x_slice(&self, a: usize, b: usize) -> (r: &str)
        requires isb(self.xv(), a as nat), isb(self.xv(), b as nat), a <= b
        ensures r@ == sub(self.xv(), a as nat, b as nat);
    fn x_slice_from(&self, a: usize) -> (r: &str)
        requires isb(self.xv(), a as nat)
        ensures r@ == sub(self.xv(), a as nat, blen(self.xv()));
    fn x_slice_to(&self, b: usize) -> (r: &str)
        requires isb(self.xv(), b as nat)
        ensures r@ == sub(self.xv(), 0, b as nat);
    fn x_slice_incl(&self, a: usize, b: usize) -> (r: &str)
        requires isb(self.xv(), a as nat), isb(self.xv(), (b + 1) as nat), a <= b
        ensures r@ == sub(self.xv(), a as nat, (b + 1) as nat);
    fn x_slice_range(&self, r: std::ops::Range<usize>) -> (s: &str)
        requires isb(self.xv(), r.start as nat), isb(self.xv(), r.end as nat), r.start <= r.end
        ensures s@ == sub(self.xv(), r.start as nat, r.end as nat);
    fn x_get_from(&self, a: usize) -> (r: Option<&str>)
        ensures
            r is Some <==> isb(self.xv(), a as nat),
            r matches Some(t) ==> t@ == sub(self.xv(), a as nat, blen(self.xv()));
    fn x_get(&self, a: usize, b: usize) -> (r: Option<&str>)
        ensures
            r is Some <==> (isb(self.xv(), a as nat) && isb(self.xv(), b as nat) && a <= b),
            r matches Some(t) ==> t@ == sub(self.xv(), a as nat, b as nat);
    /// `s.starts_with(c)` / `s.ends_with(c)` for a character
    fn x_starts_with(&self, c: char) -> (r: bool)
        ensures r == (self.xv().len() > 0 && self.xv()[0] == c);
    fn x_ends_with(&self, c: char) -> (r: bool)
        ensures r == (self.xv().len() > 0 && self.xv().last() == c);
    /// `s.trim_start()`
    fn x_trim_start(&self) -> (r: &str)
        ensures r@ == trim_start_spec(self.xv());
    /// `s.ends_with(&[c, d][..])`
    fn x_ends_with_any(&self, cs: &[char]) -> (r: bool)
        ensures r == (self.xv().len() > 0 && cs@.contains(self.xv().last()));
}

impl StrX for str {
    open spec fn xv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn x_slice(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body]
    fn x_slice_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body]
    fn x_slice_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body]
    fn x_slice_incl(&self, a: usize, b: usize) -> (r: &str) { &self[a..=b] }
    #[verifier::external_body]
    fn x_slice_range(&self, r: std::ops::Range<usize>) -> (s: &str) { &self[r] }
    #[verifier::external_body]
    fn x_get_from(&self, a: usize) -> (r: Option<&str>) { self.get(a..) }
    #[verifier::external_body]
    fn x_get(&self, a: usize, b: usize) -> (r: Option<&str>) { self.get(a..b) }
    #[verifier::external_body]
    fn x_starts_with(&self, c: char) -> (r: bool) { self.starts_with(c) }
    #[verifier::external_body]
    fn x_ends_with(&self, c: char) -> (r: bool) { self.ends_with(c) }
    #[verifier::external_body]
    fn x_trim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body]
    fn x_ends_with_any(&self, cs: &[char]) -> (r: bool) { self.ends_with(cs) }
}

/// Unicode white space is left abstract (only `trim_start` uses it).
pub uninterp spec fn is_white(c: char) -> bool;

pub open spec fn trim_start_spec(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_white(s[0]) { trim_start_spec(s.drop_first()) } else { s }
}

} // verus!
