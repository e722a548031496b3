//! Contracts assumed for parts of the Rust standard library (no bodies).
use vstd::prelude::*;
#[allow(unused_imports)] use vstd::string::*;
#[allow(unused_imports)] use crate::strmodel::*;
#[allow(unused_imports)] use crate::LvarId;
verus! {

// ---------------------------------------------------------------- char
pub open spec fn sp_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn sp_lower(c: char) -> bool { 'a' <= c <= 'z' }
pub open spec fn sp_upper(c: char) -> bool { 'A' <= c <= 'Z' }
pub open spec fn sp_alpha(c: char) -> bool { sp_lower(c) || sp_upper(c) }
pub open spec fn sp_alnum(c: char) -> bool { sp_alpha(c) || sp_digit(c) }
pub open spec fn sp_ascii(c: char) -> bool { (c as u32) < 128 }
pub open spec fn sp_ws(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\x0c' }
pub open spec fn sp_punct(c: char) -> bool {
    ('!' <= c <= '/') || (':' <= c <= '@') || ('[' <= c <= '`') || ('{' <= c <= '~')
}
pub open spec fn sp_hex(c: char) -> bool { sp_digit(c) || ('a' <= c <= 'f') || ('A' <= c <= 'F') }
pub uninterp spec fn sp_numeric_na(c: char) -> bool;
pub uninterp spec fn sp_alnum_na(c: char) -> bool;
pub open spec fn sp_numeric(c: char) -> bool { if sp_ascii(c) { sp_digit(c) } else { sp_numeric_na(c) } }
pub open spec fn sp_alnum_u(c: char) -> bool { if sp_ascii(c) { sp_alnum(c) } else { sp_alnum_na(c) } }

pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == sp_digit(*c);
pub assume_specification[ char::is_ascii_hexdigit ](c: &char) -> (r: bool) ensures r == sp_hex(*c);
pub assume_specification[ char::is_ascii_whitespace ](c: &char) -> (r: bool) ensures r == sp_ws(*c);
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == sp_alpha(*c);
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == sp_upper(*c);
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == sp_lower(*c);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == sp_alnum(*c);
pub assume_specification[ char::is_ascii_punctuation ](c: &char) -> (r: bool) ensures r == sp_punct(*c);
pub assume_specification[ char::is_ascii ](c: &char) -> (r: bool) ensures r == sp_ascii(*c);
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool) ensures r == sp_numeric(c);
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == sp_alnum_u(c);
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool);
/// the character of that code
pub uninterp spec fn chr(i: int) -> char;
pub assume_specification[ char::from_u32 ](i: u32) -> (r: Option<char>)
    ensures
        r is Some <==> (i < 0xd800 || 0xdfff < i <= 0x10ffff),
        r matches Some(c) ==> c as u32 == i && c == chr(i as int);
pub assume_specification[ char::eq_ignore_ascii_case ](a: &char, b: &char) -> (r: bool);

// ---------------------------------------------------------------- integers
pub assume_specification[ i64::checked_neg ](i: i64) -> (r: Option<i64>)
    ensures r == (if i == i64::MIN { None::<i64> } else { Some((-i) as i64) });
pub assume_specification[ u32::max_value ]() -> (r: u32) ensures r == u32::MAX;
pub assume_specification[ i32::max_value ]() -> (r: i32) ensures r == i32::MAX;
pub assume_specification[ i32::min_value ]() -> (r: i32) ensures r == i32::MIN;
pub assume_specification<T: Ord>[ std::cmp::max ](a: T, b: T) -> (r: T)
    ensures r == a || r == b, max_post(a, b, r);
pub assume_specification<T: Ord>[ std::cmp::min ](a: T, b: T) -> (r: T)
    ensures r == a || r == b, min_post(a, b, r);
pub uninterp spec fn max_post<T>(a: T, b: T, r: T) -> bool;
pub uninterp spec fn min_post<T>(a: T, b: T, r: T) -> bool;
pub broadcast axiom fn a_max_usize(a: usize, b: usize, r: usize)
    ensures #[trigger] max_post::<usize>(a, b, r) == (r == if a >= b { a } else { b });
pub broadcast axiom fn a_min_usize(a: usize, b: usize, r: usize)
    ensures #[trigger] min_post::<usize>(a, b, r) == (r == if a <= b { a } else { b });

// ---------------------------------------------------------------- Option, mem
pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });
#[verifier::external_body]
pub fn mem_take_default<T: Default>(x: &mut T) -> (r: T) ensures r == *old(x) { std::mem::take(x) }
pub assume_specification<T>[ std::mem::replace ](x: &mut T, y: T) -> (r: T)
    ensures r == *old(x), *final(x) == y;
pub assume_specification<T: Default>[ std::mem::take ](x: &mut T) -> (r: T)
    ensures r == *old(x), take_post(*final(x));
pub uninterp spec fn take_post<T>(x: T) -> bool;

/// no-op (inserted by the extractor in match arms that follow a guarded arm)
#[verifier::external_body]
pub fn touch<T>(x: &mut T) ensures *final(x) == *old(x) {}

// ---------------------------------------------------------------- Into
/// The value of `a.into()`: the extractor writes the call as `into_x(a)`.
/// Conversions are pure functions of their argument.
pub uninterp spec fn conv<A, B>(a: A) -> B;
#[verifier::external_body]
pub fn into_x<A: Into<B>, B>(a: A) -> (r: B) ensures r == conv::<A, B>(a) { a.into() }
pub broadcast axiom fn a_conv_id<T>(a: T) ensures #[trigger] conv::<T, T>(a) == a;
pub broadcast axiom fn a_conv_opt<T>(a: T) ensures #[trigger] conv::<T, Option<T>>(a) == Some(a);
pub broadcast axiom fn a_conv_str(a: &str) ensures (#[trigger] conv::<&str, String>(a))@ == a@;

/// `x.into()` for the conversions of local-variable ids: the value of their `From`
/// (whose bodies are verified against `from_spec` below).
pub broadcast axiom fn a_conv_lvarid(a: usize) ensures #[trigger] conv::<usize, LvarId>(a) == LvarId(a);
pub broadcast axiom fn a_conv_lvarid_u(a: u32) ensures #[trigger] conv::<u32, LvarId>(a) == LvarId(a as usize);
pub broadcast axiom fn a_conv_usize(a: LvarId) ensures #[trigger] conv::<LvarId, usize>(a) == a.0;
impl vstd::std_specs::convert::FromSpecImpl<usize> for LvarId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: usize) -> Self { LvarId(v) }
}
impl vstd::std_specs::convert::FromSpecImpl<LvarId> for usize {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: LvarId) -> Self { v.0 }
}
impl vstd::std_specs::convert::FromSpecImpl<u32> for LvarId {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u32) -> Self { LvarId(v as usize) }
}

/// `==` between texts compares the characters
pub broadcast axiom fn a_eq_str() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn a_eq_str_v(a: String, b: &str)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<str>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn a_eq_rstr() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn a_eq_rstr_v(a: String, b: &str)
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::<&str>::eq_spec(&a, &b) == (a@ == b@);

// ---------------------------------------------------------------- ranges
/// `x.is_empty()`: the extractor renames the call (std's Range::is_empty cannot
/// be given an assumed specification); same operation, with a contract.
pub trait IsEmptyX {
    spec fn xe(&self) -> bool;
    fn x_is_empty(&self) -> (b: bool) ensures b == self.xe();
}
impl IsEmptyX for std::ops::Range<usize> {
    open spec fn xe(&self) -> bool { self.start >= self.end }
    #[verifier::external_body]
    fn x_is_empty(&self) -> (b: bool) { self.is_empty() }
}
impl<T> IsEmptyX for Vec<T> {
    open spec fn xe(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn x_is_empty(&self) -> (b: bool) { self.is_empty() }
}
impl IsEmptyX for String {
    open spec fn xe(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn x_is_empty(&self) -> (b: bool) { self.is_empty() }
}
impl IsEmptyX for str {
    open spec fn xe(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body]
    fn x_is_empty(&self) -> (b: bool) { self.is_empty() }
}

// ---------------------------------------------------------------- String, str
pub assume_specification<T: Clone>[ <T as ToOwned>::to_owned ](s: &T) -> (r: T) ensures cloned(*s, r);
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == blen(s@);
/// the UTF-8 bytes of a text
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub broadcast axiom fn a_str_bytes(s: &str) ensures #[trigger] s.spec_bytes() == utf8(s@);
pub broadcast axiom fn a_char_to_string(c: char, s: String)
    ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(&c, s) ==> s@ == seq![c];
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == utf8(s@);
pub assume_specification[ String::into_bytes ](s: String) -> (r: Vec<u8>) ensures r@ == utf8(s@);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[ std::str::from_utf8 ](v: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures r matches Ok(s) ==> utf8(s@) == v@;
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures r matches Ok(s) ==> utf8(s@) == v@;
/// the error of `s.parse::<f64>()`
#[derive(Debug)]
pub struct FloatErr {}
#[verifier::external_body]
pub fn str_parse_f64(s: &str) -> (r: Result<f64, FloatErr>) ensures r matches Ok(f) ==> f == crate::numspec::float_of(s@) { unimplemented!() }
/// `(a..=b).contains(&c)` for characters
pub fn char_in(a: char, b: char, c: &char) -> (r: bool) ensures r == (a <= *c <= b) { a <= *c && *c <= b }

// ---------------------------------------------------------------- formatting, +=
/// `format!(f, args..)`: the text of the result is not modelled.
#[verifier::external_body]
pub fn format_x<T>(f: &str, args: T) -> (r: String) { unimplemented!() }
/// `x += t` on text (std: `AddAssign<&str> for String`)
pub trait AddX<R: ?Sized> {
    fn add_x(&mut self, r: &R);
}
impl AddX<str> for String {
    #[verifier::external_body]
    fn add_x(&mut self, r: &str) ensures final(self)@ == old(self)@ + r@ { *self += r }
}
impl AddX<String> for String {
    #[verifier::external_body]
    fn add_x(&mut self, r: &String) ensures final(self)@ == old(self)@ + r@ { *self += r }
}
pub assume_specification<T: Clone>[ <std::ops::Range<T> as Clone>::clone ](r: &std::ops::Range<T>) -> (q: std::ops::Range<T>)
    ensures cloned(r.start, q.start), cloned(r.end, q.end);

// ---------------------------------------------------------------- paths
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(std::path::Path);
pub assume_specification[ <std::path::PathBuf as Clone>::clone ](p: &std::path::PathBuf) -> (r: std::path::PathBuf)
    ensures r == *p;
#[verifier::external_body]
pub fn path_lossy(p: &std::path::PathBuf) -> String { p.to_string_lossy().to_string() }

pub broadcast group group_stdx {
    a_max_usize, a_min_usize, a_conv_id, a_conv_opt, a_conv_str, a_conv_lvarid, a_conv_lvarid_u, a_conv_usize, a_eq_str, a_eq_str_v, a_eq_rstr, a_eq_rstr_v, a_str_bytes, a_char_to_string, crate::dep_num::a_big,
}
} // verus!
verus! {
/// `s.split(closure)`: any list of pieces.
#[verifier::external_body]
pub fn str_split<'a>(s: &'a String) -> (r: Vec<&'a str>) { unimplemented!() }
}
verus! {
/// derived `==` on types that contain floats: unknown
pub uninterp spec fn eq_unknown<T>(a: T, b: T) -> bool;
}
