//! What it means for a location, a token, a syntax tree to lie inside a source.
use vstd::prelude::*;
#[allow(unused_imports)] use crate::*;
#[allow(unused_imports)] use crate::strmodel::*;
#[allow(unused_imports)] use crate::stdx::*;
verus! {

/// a location inside the text `s`
pub open spec fn loc_ok(l: Loc, s: Seq<char>) -> bool {
    isb(s, l.0 as nat) && l.0 <= l.1 && l.1 <= blen(s)
}

/// every location carried by the value lies inside `s`
pub trait OkIn {
    spec fn ok_in(&self, s: Seq<char>) -> bool;
}
impl OkIn for bool { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for usize { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for u8 { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for u32 { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for i64 { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for char { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for () { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for str { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for String { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for LvarId { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for BinOp { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for Punct { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl OkIn for ParseMode { open spec fn ok_in(&self, s: Seq<char>) -> bool { true } }
impl<T: OkIn + ?Sized> OkIn for &T { open spec fn ok_in(&self, s: Seq<char>) -> bool { (**self).ok_in(s) } }
impl<T: OkIn> OkIn for Box<T> { open spec fn ok_in(&self, s: Seq<char>) -> bool { (**self).ok_in(s) } }
impl<T: OkIn> OkIn for Option<T> {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { match *self { Some(x) => x.ok_in(s), None => true } }
}
impl<T: OkIn, E: OkIn> OkIn for Result<T, E> {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { match *self { Ok(x) => x.ok_in(s), Err(e) => e.ok_in(s) } }
}
impl<T: OkIn> OkIn for Vec<T> {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> self@[i].ok_in(s) }
}
impl<A: OkIn, B: OkIn> OkIn for (A, B) {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { self.0.ok_in(s) && self.1.ok_in(s) }
}
impl<A: OkIn, B: OkIn, C: OkIn> OkIn for (A, B, C) {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { self.0.ok_in(s) && self.1.ok_in(s) && self.2.ok_in(s) }
}
impl OkIn for Loc { open spec fn ok_in(&self, s: Seq<char>) -> bool { loc_ok(*self, s) } }
impl OkIn for LexerErr { open spec fn ok_in(&self, s: Seq<char>) -> bool { loc_ok(self.1, s) } }

// ------------------------------------------------------------------ tokens

/// The text of a name token is the text of the source at its location.
pub open spec fn tok_text(t: Token) -> Option<Seq<char>> {
    match t.kind {
        TokenKind::Ident(n) => Some(n@),
        TokenKind::Const(n) => Some(n@),
        TokenKind::InstanceVar(n) => Some(n@),
        TokenKind::ClassVar(n) => Some(n@),
        TokenKind::Punct(p) => Some(spell(p)),
        TokenKind::Reserved(r) => Some(keyword(r)),
        _ => None,
    }
}
pub open spec fn text_ok(t: Token, s: Seq<char>) -> bool {
    tok_text(t) matches Some(n) ==> {
        &&& n.len() > 0
        &&& isb(s, (t.loc.1 + 1) as nat)
        &&& n == crate::strmodel::sub(s, t.loc.0 as nat, (t.loc.1 + 1) as nat)
    }
}
/// the parenthesis level of an unfinished literal is bounded by the text read
pub open spec fn level_ok(t: Token, s: Seq<char>) -> bool {
    &&& t.kind matches TokenKind::OpenString(_, _, l) ==> l <= blen(s)
    &&& t.kind matches TokenKind::OpenCommand(_, _, l) ==> l <= blen(s)
}
/// a literal that the scanner itself opens counts no brackets
pub open spec fn lv0(t: Token) -> bool {
    &&& t.kind matches TokenKind::OpenString(_, _, l) ==> l == 0
    &&& t.kind matches TokenKind::OpenCommand(_, _, l) ==> l == 0
}
/// a number token is the number written at its location
pub open spec fn num_ok(t: Token, s: Seq<char>) -> bool {
    (t.kind is IntegerLit || t.kind is BignumLit || t.kind is FloatLit || t.kind is ImaginaryLit)
        ==> crate::numspec::number(t.kind, s, t.loc.0 as nat, (t.loc.1 + 1) as nat)
}
impl OkIn for Annot<TokenKind> {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { loc_ok(self.loc, s) && text_ok(*self, s) && level_ok(*self, s) && num_ok(*self, s) }
}

/// the names of a local-variable table, in order
pub open spec fn names(t: LvarTable) -> Seq<Seq<char>> { Seq::new(t.0@.len(), |i: int| t.0@[i]@) }

// ------------------------------------------------------------------ trees
#[verifier::opaque]
pub open spec fn node_ok(n: Node, s: Seq<char>) -> bool
    decreases n
{
    loc_ok(n.loc, s) && match n.kind {
        NodeKind::InterporatedString(v) => forall|i: int| 0 <= i < v@.len() ==> node_ok(#[trigger] v@[i], s),
        NodeKind::Command(b) => node_ok(*b, s),
        NodeKind::Range { start, end, exclude_end, is_const } => node_ok(*start, s) && node_ok(*end, s),
        NodeKind::Array(v, _) => forall|i: int| 0 <= i < v@.len() ==> node_ok(#[trigger] v@[i], s),
        NodeKind::Hash(v, _) => forall|i: int| 0 <= i < v@.len() ==> (node_ok((#[trigger] v@[i]).0, s) && node_ok(v@[i].1, s)),
        NodeKind::RegExp(v, _, _) => forall|i: int| 0 <= i < v@.len() ==> node_ok(#[trigger] v@[i], s),
        NodeKind::Const { toplevel, parent, prefix, name } => match parent { Some(p) => node_ok(*p, s), None => true },
        NodeKind::BinOp(_, a, b) => node_ok(*a, s) && node_ok(*b, s),
        NodeKind::UnOp(_, a) => node_ok(*a, s),
        NodeKind::Index { base, index } => node_ok(*base, s) && (forall|i: int| 0 <= i < index@.len() ==> node_ok(#[trigger] index@[i], s)),
        NodeKind::Splat(a) => node_ok(*a, s),
        NodeKind::AssignOp(_, a, b) => node_ok(*a, s) && node_ok(*b, s),
        NodeKind::MulAssign(v, w) => (forall|i: int| 0 <= i < v@.len() ==> node_ok(#[trigger] v@[i], s)) && (forall|i: int| 0 <= i < w@.len() ==> node_ok(#[trigger] w@[i], s)),
        NodeKind::CompStmt(v) => forall|i: int| 0 <= i < v@.len() ==> node_ok(#[trigger] v@[i], s),
        NodeKind::If { cond, then_, else_ } => node_ok(*cond, s) && node_ok(*then_, s) && node_ok(*else_, s),
        NodeKind::For { param, iter, body } => node_ok(*iter, s) && block_ok(body, s),
        NodeKind::While { cond, body, cond_op, postfix } => node_ok(*cond, s) && node_ok(*body, s),
        NodeKind::Case { cond, when_, else_ } => (match cond { Some(c) => node_ok(*c, s), None => true })
            && node_ok(*else_, s)
            && (forall|i: int| 0 <= i < when_@.len() ==> branch_ok(#[trigger] when_@[i], s)),
        NodeKind::Begin { body, rescue, else_, ensure } => node_ok(*body, s)
            && (match else_ { Some(c) => node_ok(*c, s), None => true })
            && (match ensure { Some(c) => node_ok(*c, s), None => true })
            && (forall|i: int| 0 <= i < rescue@.len() ==> rescue_ok(#[trigger] rescue@[i], s)),
        NodeKind::Lambda(b) => block_ok(b, s),
        NodeKind::Break(a) => node_ok(*a, s),
        NodeKind::Next(a) => node_ok(*a, s),
        NodeKind::Return(a) => node_ok(*a, s),
        NodeKind::Yield(a) => args_ok(a, s),
        NodeKind::MethodDef(_, b) => block_ok(b, s),
        NodeKind::SingletonMethodDef(a, _, b) => node_ok(*a, s) && block_ok(b, s),
        NodeKind::ClassDef { base, name, superclass, info, is_module } => block_ok(info, s)
            && (match base { Some(c) => node_ok(*c, s), None => true })
            && (match superclass { Some(c) => node_ok(*c, s), None => true }),
        NodeKind::SingletonClassDef { singleton, info } => node_ok(*singleton, s) && block_ok(info, s),
        NodeKind::MethodCall { receiver, method, arglist, safe_nav } => node_ok(*receiver, s) && args_ok(arglist, s),
        NodeKind::FuncCall { method, arglist, safe_nav } => args_ok(arglist, s),
        NodeKind::Defined(a) => node_ok(*a, s),
        NodeKind::Super(a) => match a { Some(a) => args_ok(a, s), None => true },
        NodeKind::AliasMethod(a, b) => node_ok(*a, s) && node_ok(*b, s),
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn block_ok(b: BlockInfo, s: Seq<char>) -> bool
    decreases b
{
    loc_ok(b.loc, s) && node_ok(*b.body, s) && forall|i: int| 0 <= i < b.params@.len() ==> param_ok(#[trigger] b.params@[i], s)
}
#[verifier::opaque]
pub open spec fn param_ok(p: FormalParam, s: Seq<char>) -> bool
    decreases p
{
    loc_ok(p.loc, s) && match p.kind {
        ParamKind::Optional(_, d) => node_ok(*d, s),
        ParamKind::Keyword(_, d) => match d { Some(d) => node_ok(*d, s), None => true },
        ParamKind::Destruct(v) => forall|i: int| 0 <= i < v@.len() ==> loc_ok((#[trigger] v@[i]).1, s),
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn branch_ok(b: CaseBranch, s: Seq<char>) -> bool
    decreases b
{
    node_ok(*b.body, s) && forall|i: int| 0 <= i < b.when@.len() ==> node_ok(#[trigger] b.when@[i], s)
}
#[verifier::opaque]
pub open spec fn rescue_ok(b: RescueEntry, s: Seq<char>) -> bool
    decreases b
{
    node_ok(*b.body, s)
        && (match b.assign { Some(c) => node_ok(*c, s), None => true })
        && forall|i: int| 0 <= i < b.exception_list@.len() ==> node_ok(#[trigger] b.exception_list@[i], s)
}
#[verifier::opaque]
pub open spec fn args_ok(a: ArgList, s: Seq<char>) -> bool
    decreases a
{
    (forall|i: int| 0 <= i < a.args@.len() ==> node_ok(#[trigger] a.args@[i], s))
        && (forall|i: int| 0 <= i < a.kw_args@.len() ==> node_ok((#[trigger] a.kw_args@[i]).1, s))
        && (forall|i: int| 0 <= i < a.hash_splat@.len() ==> node_ok(#[trigger] a.hash_splat@[i], s))
        && (match a.block { Some(c) => node_ok(*c, s), None => true })
}

impl OkIn for Annot<NodeKind> {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { loc_ok(self.loc, s) && node_ok(*self, s) }
}
impl OkIn for Annot<ParamKind> {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { loc_ok(self.loc, s) && param_ok(*self, s) }
}
impl OkIn for BlockInfo {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { loc_ok(self.loc, s) && block_ok(*self, s) }
}
impl OkIn for CaseBranch {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { branch_ok(*self, s) }
}
impl OkIn for RescueEntry {
    open spec fn ok_in(&self, s: Seq<char>) -> bool { rescue_ok(*self, s) }
}
impl OkIn for ArgList {
    open spec fn ok_in(&self, s: Seq<char>) -> bool {
        self.args.ok_in(s) && self.kw_args.ok_in(s) && self.hash_splat.ok_in(s) && self.block.ok_in(s)
    }
}


// ------------------------------------------------------------------ here documents
// A here document is parsed by a parser that sees the source up to its end:
// what lies inside that prefix lies inside the source.
pub broadcast proof fn b_loc_prefix(l: Loc, s: Seq<char>, e: nat)
    requires isb(s, e), #[trigger] loc_ok(l, crate::strmodel::sub(s, 0, e))
    ensures loc_ok(l, s)
{
    lemma_prefix_isb(s, e, l.0 as nat);
    b_isb_le(s, e);
}
pub proof fn lemma_node_prefix(n: Node, s: Seq<char>, e: nat)
    requires isb(s, e), node_ok(n, crate::strmodel::sub(s, 0, e))
    ensures node_ok(n, s)
    decreases n
{
    let p = crate::strmodel::sub(s, 0, e);
    reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2);
    b_loc_prefix(n.loc, s, e);
    match n.kind {
        NodeKind::InterporatedString(v) => { assert forall|i: int| 0 <= i < v@.len() implies node_ok(#[trigger] v@[i], s) by { lemma_node_prefix(v@[i], s, e); } }
        NodeKind::Command(b) => { lemma_node_prefix(*b, s, e); }
        NodeKind::Range { start, end, exclude_end, is_const } => { lemma_node_prefix(*start, s, e);lemma_node_prefix(*end, s, e); }
        NodeKind::Array(v, _) => { assert forall|i: int| 0 <= i < v@.len() implies node_ok(#[trigger] v@[i], s) by { lemma_node_prefix(v@[i], s, e); } }
        NodeKind::Hash(v, _) => { assert forall|i: int| 0 <= i < v@.len() implies node_ok((#[trigger] v@[i]).0, s) && node_ok(v@[i].1, s) by { lemma_node_prefix(v@[i].0, s, e); lemma_node_prefix(v@[i].1, s, e); } }
        NodeKind::RegExp(v, _, _) => { assert forall|i: int| 0 <= i < v@.len() implies node_ok(#[trigger] v@[i], s) by { lemma_node_prefix(v@[i], s, e); } }
        NodeKind::Const { toplevel, parent, prefix, name } => { if parent is Some { lemma_node_prefix(*parent->0, s, e); } }
        NodeKind::BinOp(_, a, b) => { lemma_node_prefix(*a, s, e);lemma_node_prefix(*b, s, e); }
        NodeKind::UnOp(_, a) => { lemma_node_prefix(*a, s, e); }
        NodeKind::Index { base, index } => { lemma_node_prefix(*base, s, e);assert forall|i: int| 0 <= i < index@.len() implies node_ok(#[trigger] index@[i], s) by { lemma_node_prefix(index@[i], s, e); } }
        NodeKind::Splat(a) => { lemma_node_prefix(*a, s, e); }
        NodeKind::AssignOp(_, a, b) => { lemma_node_prefix(*a, s, e);lemma_node_prefix(*b, s, e); }
        NodeKind::MulAssign(v, w) => { assert forall|i: int| 0 <= i < v@.len() implies node_ok(#[trigger] v@[i], s) by { lemma_node_prefix(v@[i], s, e); }assert forall|i: int| 0 <= i < w@.len() implies node_ok(#[trigger] w@[i], s) by { lemma_node_prefix(w@[i], s, e); } }
        NodeKind::CompStmt(v) => { assert forall|i: int| 0 <= i < v@.len() implies node_ok(#[trigger] v@[i], s) by { lemma_node_prefix(v@[i], s, e); } }
        NodeKind::If { cond, then_, else_ } => { lemma_node_prefix(*cond, s, e);lemma_node_prefix(*then_, s, e);lemma_node_prefix(*else_, s, e); }
        NodeKind::For { param, iter, body } => { lemma_node_prefix(*iter, s, e);lemma_block_prefix(body, s, e); }
        NodeKind::While { cond, body, cond_op, postfix } => { lemma_node_prefix(*cond, s, e);lemma_node_prefix(*body, s, e); }
        NodeKind::Case { cond, when_, else_ } => { if cond is Some { lemma_node_prefix(*cond->0, s, e); }lemma_node_prefix(*else_, s, e);assert forall|i: int| 0 <= i < when_@.len() implies branch_ok(#[trigger] when_@[i], s) by { lemma_branch_prefix(when_@[i], s, e); } }
        NodeKind::Begin { body, rescue, else_, ensure } => { lemma_node_prefix(*body, s, e);if else_ is Some { lemma_node_prefix(*else_->0, s, e); }if ensure is Some { lemma_node_prefix(*ensure->0, s, e); }assert forall|i: int| 0 <= i < rescue@.len() implies rescue_ok(#[trigger] rescue@[i], s) by { lemma_rescue_prefix(rescue@[i], s, e); } }
        NodeKind::Lambda(b) => { lemma_block_prefix(b, s, e); }
        NodeKind::Break(a) => { lemma_node_prefix(*a, s, e); }
        NodeKind::Next(a) => { lemma_node_prefix(*a, s, e); }
        NodeKind::Return(a) => { lemma_node_prefix(*a, s, e); }
        NodeKind::Defined(a) => { lemma_node_prefix(*a, s, e); }
        NodeKind::Yield(a) => { lemma_args_prefix(a, s, e); }
        NodeKind::MethodDef(_, b) => { lemma_block_prefix(b, s, e); }
        NodeKind::SingletonMethodDef(a, _, b) => { lemma_node_prefix(*a, s, e);lemma_block_prefix(b, s, e); }
        NodeKind::ClassDef { base, name, superclass, info, is_module } => { lemma_block_prefix(info, s, e);if base is Some { lemma_node_prefix(*base->0, s, e); }if superclass is Some { lemma_node_prefix(*superclass->0, s, e); } }
        NodeKind::SingletonClassDef { singleton, info } => { lemma_node_prefix(*singleton, s, e);lemma_block_prefix(info, s, e); }
        NodeKind::MethodCall { receiver, method, arglist, safe_nav } => { lemma_node_prefix(*receiver, s, e);lemma_args_prefix(arglist, s, e); }
        NodeKind::FuncCall { method, arglist, safe_nav } => { lemma_args_prefix(arglist, s, e); }
        NodeKind::Super(a) => { if a is Some { lemma_args_prefix(a->0, s, e); } }
        NodeKind::AliasMethod(a, b) => { lemma_node_prefix(*a, s, e);lemma_node_prefix(*b, s, e); }
        _ => {}
    }
}
pub proof fn lemma_block_prefix(b: BlockInfo, s: Seq<char>, e: nat)
    requires isb(s, e), block_ok(b, crate::strmodel::sub(s, 0, e))
    ensures block_ok(b, s)
    decreases b
{
    reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2);
    b_loc_prefix(b.loc, s, e);
    lemma_node_prefix(*b.body, s, e);
    assert forall|i: int| 0 <= i < b.params@.len() implies param_ok(#[trigger] b.params@[i], s) by { lemma_param_prefix(b.params@[i], s, e); }
}
pub proof fn lemma_param_prefix(b: FormalParam, s: Seq<char>, e: nat)
    requires isb(s, e), param_ok(b, crate::strmodel::sub(s, 0, e))
    ensures param_ok(b, s)
    decreases b
{
    reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2);
    b_loc_prefix(b.loc, s, e);
    match b.kind {
        ParamKind::Optional(_, d) => { lemma_node_prefix(*d, s, e); }
        ParamKind::Keyword(_, d) => { if d is Some { lemma_node_prefix(*d->0, s, e); } }
        ParamKind::Destruct(v) => {
            assert forall|i: int| 0 <= i < v@.len() implies loc_ok((#[trigger] v@[i]).1, s) by { b_loc_prefix(v@[i].1, s, e); }
        }
        _ => {}
    }
}
pub proof fn lemma_branch_prefix(b: CaseBranch, s: Seq<char>, e: nat)
    requires isb(s, e), branch_ok(b, crate::strmodel::sub(s, 0, e))
    ensures branch_ok(b, s)
    decreases b
{
    reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2);
    lemma_node_prefix(*b.body, s, e);
    assert forall|i: int| 0 <= i < b.when@.len() implies node_ok(#[trigger] b.when@[i], s) by { lemma_node_prefix(b.when@[i], s, e); }
}
pub proof fn lemma_rescue_prefix(b: RescueEntry, s: Seq<char>, e: nat)
    requires isb(s, e), rescue_ok(b, crate::strmodel::sub(s, 0, e))
    ensures rescue_ok(b, s)
    decreases b
{
    reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2);
    lemma_node_prefix(*b.body, s, e);
    if b.assign is Some { lemma_node_prefix(*b.assign->0, s, e); }
    assert forall|i: int| 0 <= i < b.exception_list@.len() implies node_ok(#[trigger] b.exception_list@[i], s) by { lemma_node_prefix(b.exception_list@[i], s, e); }
}
pub proof fn lemma_args_prefix(a: ArgList, s: Seq<char>, e: nat)
    requires isb(s, e), args_ok(a, crate::strmodel::sub(s, 0, e))
    ensures args_ok(a, s)
    decreases a
{
    reveal_with_fuel(node_ok, 3); reveal_with_fuel(block_ok, 2); reveal_with_fuel(param_ok, 2); reveal_with_fuel(branch_ok, 2); reveal_with_fuel(rescue_ok, 2); reveal_with_fuel(args_ok, 2);
    assert forall|i: int| 0 <= i < a.args@.len() implies node_ok(#[trigger] a.args@[i], s) by { lemma_node_prefix(a.args@[i], s, e); }
    assert forall|i: int| 0 <= i < a.kw_args@.len() implies node_ok((#[trigger] a.kw_args@[i]).1, s) by { lemma_node_prefix(a.kw_args@[i].1, s, e); }
    assert forall|i: int| 0 <= i < a.hash_splat@.len() implies node_ok(#[trigger] a.hash_splat@[i], s) by { lemma_node_prefix(a.hash_splat@[i], s, e); }
    if a.block is Some { lemma_node_prefix(*a.block->0, s, e); }
}
/// the same, where the tree is read off its source
pub broadcast proof fn b_node_prefix(n: Node, s: Seq<char>, e: nat)
    requires isb(s, e), #[trigger] node_ok(n, crate::strmodel::sub(s, 0, e))
    ensures node_ok(n, s)
{
    lemma_node_prefix(n, s, e);
}
} // verus!
verus! {

// ------------------------------------------------------------------ lexer

/// The token (or error) that scanning from byte `pos` yields, where `hd` is the
/// end of the pending here documents, and the position after it.  Scanning is a
/// function of these three: trusted at read_token, where it is used to relate a
/// token that was looked at to the token that is taken afterwards.
pub uninterp spec fn lexres(code: Seq<char>, pos: nat, hd: nat) -> Result<Token, LexerErr>;
pub uninterp spec fn lexpos(code: Seq<char>, pos: nat, hd: nat) -> nat;

pub open spec fn tok_eof(t: Token) -> bool { t.kind is Eof }
pub open spec fn tok_lt(t: Token) -> bool { t.kind is LineTerm || t.kind == TokenKind::Punct(Punct::Semi) }

/// the first token that is not a line terminator
pub closed spec fn lex_nl(code: Seq<char>, pos: nat, hd: nat) -> Result<Token, LexerErr>
    decreases blen(code) - pos
{
    match lexres(code, pos, hd) {
        Ok(t) => if tok_lt(t) && pos < lexpos(code, pos, hd) <= blen(code) {
            lex_nl(code, lexpos(code, pos, hd), hd)
        } else { Ok(t) },
        Err(e) => Err(e),
    }
}

pub proof fn lemma_lex_nl(code: Seq<char>, pos: nat, hd: nat)
    ensures lex_nl(code, pos, hd) == (match lexres(code, pos, hd) {
        Ok(t) => if tok_lt(t) && pos < lexpos(code, pos, hd) <= blen(code) {
            lex_nl(code, lexpos(code, pos, hd), hd)
        } else { Ok(t) },
        Err(e) => Err(e),
    })
{}

/// `n` is the non-empty text of the token being scanned
pub open spec fn text_at(n: Seq<char>, l: Lexer<'_>) -> bool {
    l.token_start_pos < l.pos && n == crate::strmodel::sub(l.code@, l.token_start_pos as nat, l.pos as nat)
}

impl<'a> Lexer<'a> {
    /// positions are character boundaries inside the text
    pub open spec fn wf0(&self) -> bool {
        &&& isb(self.code@, self.pos as nat)
        &&& isb(self.code@, self.token_start_pos as nat)
        &&& self.token_start_pos <= self.pos
        &&& isb(self.code@, self.heredoc_pos as nat)
        &&& blen(self.code@) <= i32::MAX
    }
    pub open spec fn res(&self) -> Result<Token, LexerErr> {
        lexres(self.code@, self.pos as nat, self.heredoc_pos as nat)
    }
    pub open spec fn res_nl(&self) -> Result<Token, LexerErr> {
        lex_nl(self.code@, self.pos as nat, self.heredoc_pos as nat)
    }
    /// the tokens looked at are the tokens at the current position
    pub open spec fn buf_ok(&self) -> bool {
        &&& self.buf matches Some(t) ==> t.ok_in(self.code@) && lv0(t) && self.res() == Ok::<Token, LexerErr>(t)
        &&& self.buf_skip_lt matches Some(t) ==> t.ok_in(self.code@) && lv0(t) && !tok_lt(t) && self.res_nl() == Ok::<Token, LexerErr>(t)
    }
    pub open spec fn wf(&self) -> bool { self.wf0() && self.buf_ok() }
    /// nothing is looked at ahead of the current position
    pub open spec fn clean(&self) -> bool { self.buf is None && self.buf_skip_lt is None }
    pub open spec fn same_buf(&self, o: Lexer<'a>) -> bool {
        self.buf == o.buf && self.buf_skip_lt == o.buf_skip_lt
    }
    /// same text, same pending here documents, not moved backwards
    pub open spec fn after(&self, o: Lexer<'a>) -> bool {
        self.code == o.code && self.heredoc_pos == o.heredoc_pos && self.same_buf(o) && o.pos <= self.pos
    }
}

// ------------------------------------------------------------------ spelling (C15)

/// the characters an operator or a bracket is written with
pub open spec fn spell3(p: Punct) -> (char, Option<char>, Option<char>) {
    match p {
        Punct::LParen => ('(', None, None),
        Punct::RParen => (')', None, None),
        Punct::LBracket => ('[', None, None),
        Punct::RBracket => (']', None, None),
        Punct::LBrace => ('{', None, None),
        Punct::RBrace => ('}', None, None),
        Punct::Semi => (';', None, None),
        Punct::Colon => (':', None, None),
        Punct::Scope => (':', Some(':'), None),
        Punct::Comma => (',', None, None),
        Punct::Dot => ('.', None, None),
        Punct::Question => ('?', None, None),
        Punct::Range2 => ('.', Some('.'), None),
        Punct::Range3 => ('.', Some('.'), Some('.')),
        Punct::Plus => ('+', None, None),
        Punct::Minus => ('-', None, None),
        Punct::Mul => ('*', None, None),
        Punct::Div => ('/', None, None),
        Punct::Rem => ('%', None, None),
        Punct::DMul => ('*', Some('*'), None),
        Punct::Shr => ('>', Some('>'), None),
        Punct::Shl => ('<', Some('<'), None),
        Punct::BitOr => ('|', None, None),
        Punct::BitAnd => ('&', None, None),
        Punct::BitXor => ('^', None, None),
        Punct::BitNot => ('~', None, None),
        Punct::Not => ('!', None, None),
        Punct::Assign => ('=', None, None),
        Punct::Eq => ('=', Some('='), None),
        Punct::TEq => ('=', Some('='), Some('=')),
        Punct::Ne => ('!', Some('='), None),
        Punct::Gt => ('>', None, None),
        Punct::Ge => ('>', Some('='), None),
        Punct::Lt => ('<', None, None),
        Punct::Le => ('<', Some('='), None),
        Punct::Cmp => ('<', Some('='), Some('>')),
        Punct::LAnd => ('&', Some('&'), None),
        Punct::LOr => ('|', Some('|'), None),
        Punct::Match => ('=', Some('~'), None),
        Punct::Unmatch => ('!', Some('~'), None),
        Punct::SafeNav => ('&', Some('.'), None),
        Punct::Backslash => ('\\', None, None),
        Punct::Arrow => ('-', Some('>'), None),
        Punct::FatArrow => ('=', Some('>'), None),
        Punct::AssignOp(BinOp::Add) => ('+', Some('='), None),
        Punct::AssignOp(BinOp::Sub) => ('-', Some('='), None),
        Punct::AssignOp(BinOp::Mul) => ('*', Some('='), None),
        Punct::AssignOp(BinOp::Rem) => ('%', Some('='), None),
        Punct::AssignOp(BinOp::Div) => ('/', Some('='), None),
        Punct::AssignOp(BinOp::BitXor) => ('^', Some('='), None),
        Punct::AssignOp(BinOp::Shr) => ('>', Some('>'), Some('=')),
        Punct::AssignOp(BinOp::Shl) => ('<', Some('<'), Some('=')),
        Punct::AssignOp(BinOp::LAnd) => ('&', Some('&'), Some('=')),
        Punct::AssignOp(BinOp::BitAnd) => ('&', Some('='), None),
        Punct::AssignOp(BinOp::LOr) => ('|', Some('|'), Some('=')),
        Punct::AssignOp(BinOp::BitOr) => ('|', Some('='), None),
        Punct::AssignOp(_) => ('\0', None, None),
    }
}
pub open spec fn spell(p: Punct) -> Seq<char> { seq3(spell3(p)) }
pub open spec fn seq3(t: (char, Option<char>, Option<char>)) -> Seq<char> {
    match t { (a, None, _) => seq![a], (a, Some(b), None) => seq![a, b], (a, Some(b), Some(c)) => seq![a, b, c] }
}
/// `p` followed by `c` begins a longer operator
pub open spec fn longer(p: Punct, c: char) -> bool {
    match p {
        Punct::Colon => c == ':',
        Punct::Dot => c == '.',
        Punct::Range2 => c == '.',
        Punct::Plus => c == '=',
        Punct::Minus => c == '=' || c == '>',
        Punct::Mul => c == '*' || c == '=',
        Punct::Div => c == '=',
        Punct::Rem => c == '=',
        Punct::Shr => c == '=',
        Punct::Shl => c == '=',
        Punct::BitOr => c == '=' || c == '|',
        Punct::BitAnd => c == '&' || c == '.' || c == '=',
        Punct::BitXor => c == '=',
        Punct::Not => c == '=' || c == '~',
        Punct::Assign => c == '=' || c == '>' || c == '~',
        Punct::Eq => c == '=',
        Punct::Gt => c == '=' || c == '>',
        Punct::Lt => c == '<' || c == '=',
        Punct::Le => c == '>',
        Punct::LAnd => c == '=',
        Punct::LOr => c == '=',
        _ => false,
    }
}
pub open spec fn longest(p: Punct, l: Lexer<'_>) -> bool {
    char_at(l.code@, l.pos as nat) matches Some(c) ==> !longer(p, c)
}
/// the characters a keyword is written with
pub open spec fn keyword(r: Reserved) -> Seq<char> {
    match r {
        Reserved::BEGIN => "BEGIN"@,
        Reserved::END => "END"@,
        Reserved::Alias => "alias"@,
        Reserved::And => "and"@,
        Reserved::Begin => "begin"@,
        Reserved::Break => "break"@,
        Reserved::Case => "case"@,
        Reserved::Class => "class"@,
        Reserved::Def => "def"@,
        Reserved::Defined => "defined?"@,
        Reserved::Do => "do"@,
        Reserved::Else => "else"@,
        Reserved::Elsif => "elsif"@,
        Reserved::End => "end"@,
        Reserved::Ensure => "ensure"@,
        Reserved::For => "for"@,
        Reserved::If => "if"@,
        Reserved::In => "in"@,
        Reserved::Module => "module"@,
        Reserved::Next => "next"@,
        Reserved::Or => "or"@,
        Reserved::Redo => "redo"@,
        Reserved::Rescue => "rescue"@,
        Reserved::Return => "return"@,
        Reserved::Super => "super"@,
        Reserved::Then => "then"@,
        Reserved::Until => "until"@,
        Reserved::Unless => "unless"@,
        Reserved::When => "when"@,
        Reserved::While => "while"@,
        Reserved::Yield => "yield"@,
    }
}
pub open spec fn is_keyword(s: Seq<char>) -> bool { exists|r: Reserved| #[trigger] keyword(r) == s }

/// the characters from the start of the token to the position are those of `p`
pub open spec fn reads(l: Lexer<'_>, q: Punct) -> bool {
    let p = l.token_start_pos as nat;
    let t = spell3(q);
    &&& char_at(l.code@, p) == Some(t.0)
    &&& match t {
        (_, None, _) => l.pos == p + 1,
        (_, Some(b), None) => l.pos == p + 2 && char_at(l.code@, p + 1) == Some(b),
        (_, Some(b), Some(c)) => l.pos == p + 3 && char_at(l.code@, p + 1) == Some(b) && char_at(l.code@, p + 2) == Some(c),
    }
}
pub proof fn lemma_reads(l: Lexer<'_>, q: Punct)
    requires l.wf0(), reads(l, q)
    ensures text_at(spell(q), l)
{
    broadcast use group_str;
    let s = l.code@;
    let p = l.token_start_pos as nat;
    let t = spell(q);
    assert(crate::strmodel::sub(s, p, p) =~= seq![]);
    lemma_sub_push(s, p, p);
    if t.len() >= 2 { lemma_sub_push(s, p, p + 1); }
    if t.len() >= 3 { lemma_sub_push(s, p, p + 2); }
    assert(crate::strmodel::sub(s, p, p + t.len()) =~= t);
}


/// white space stands at a byte offset
pub open spec fn space_at(s: Seq<char>, p: nat) -> bool { char_at(s, p) matches Some(c) && sp_ws(c) }
} // verus!
