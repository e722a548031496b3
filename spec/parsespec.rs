//! The state of the parser: what its methods keep.
use vstd::prelude::*;
#[allow(unused_imports)] use crate::*;
#[allow(unused_imports)] use crate::strmodel::*;
#[allow(unused_imports)] use crate::stdx::*;
#[allow(unused_imports)] use crate::lexspec::*;
verus! {

/// no name is listed twice
pub open spec fn no_dup(t: LvarTable) -> bool {
    forall|i: int, j: int| 0 <= i < j < t.0@.len() ==> (#[trigger] t.0@[i])@ != (#[trigger] t.0@[j])@
}
/// the same parameters are recorded
pub open spec fn same_params(a: LvarCollector, b: LvarCollector) -> bool {
    &&& a.param_num == b.param_num
    &&& a.kw == b.kw
    &&& a.kwrest == b.kwrest
    &&& a.block == b.block
    &&& a.forwarding_param == b.forwarding_param
}
/// The names of a frame are those of an earlier state of the frame, followed by new ones;
/// the parameters are the same.
pub open spec fn frame_ext(a: LvarScope, b: LvarScope) -> bool {
    &&& a.kind == b.kind
    &&& same_params(a.lvar, b.lvar)
    &&& no_dup(a.lvar.table) ==> no_dup(b.lvar.table)
    &&& a.lvar.table.0@.len() <= b.lvar.table.0@.len()
    &&& forall|i: int| 0 <= i < a.lvar.table.0@.len() ==> (#[trigger] b.lvar.table.0@[i])@ == a.lvar.table.0@[i]@
}
/// What holds while parameters are added: only the innermost frame gets names at another
/// place than the end.
pub open spec fn frame_par(a: LvarScope, b: LvarScope) -> bool {
    &&& a.kind == b.kind
    &&& no_dup(a.lvar.table) ==> no_dup(b.lvar.table)
    &&& a.lvar.param_num <= b.lvar.param_num
    &&& a.lvar.table.0@.len() - a.lvar.param_num <= b.lvar.table.0@.len() - b.lvar.param_num
}
pub closed spec fn scope_par(a: Seq<LvarScope>, b: Seq<LvarScope>) -> bool {
    &&& a.len() == b.len()
    &&& a.len() > 0
    &&& frame_par(a.last(), b.last())
    &&& scope_ext(a.drop_last(), b.drop_last())
    &&& forall|i: int| 0 <= i < a.len() && hidden(a, i) ==> (#[trigger] b[i]).lvar.table == a[i].lvar.table
}
/// frame `i` cannot be seen from the innermost frame: a method, class or program body lies between
pub open spec fn hidden(s: Seq<LvarScope>, i: int) -> bool {
    exists|j: int| i < j < s.len() && 0 <= j && !((#[trigger] s[j]).kind is Block) && !(s[j].kind is For)
}
/// The frames `b` are the frames `a`, with names added only where they can be seen.
pub closed spec fn scope_ext(a: Seq<LvarScope>, b: Seq<LvarScope>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> frame_ext(a[i], #[trigger] b[i])
    &&& forall|i: int| 0 <= i < a.len() && hidden(a, i) ==> (#[trigger] b[i]).lvar.table == a[i].lvar.table
}
pub broadcast proof fn b_scope_refl(a: Seq<LvarScope>)
    ensures #[trigger] scope_ext(a, a)
{}
pub broadcast proof fn b_scope_trans(a: Seq<LvarScope>, b: Seq<LvarScope>, c: Seq<LvarScope>)
    requires #[trigger] scope_ext(a, b), #[trigger] scope_ext(b, c)
    ensures scope_ext(a, c)
{
    assert forall|i: int| 0 <= i < a.len() implies frame_ext(a[i], #[trigger] c[i]) by {
        assert(frame_ext(a[i], b[i]));
        assert(frame_ext(b[i], c[i]));
        assert forall|k: int| 0 <= k < a[i].lvar.table.0@.len() implies (#[trigger] c[i].lvar.table.0@[k])@ == a[i].lvar.table.0@[k]@ by {
            assert(b[i].lvar.table.0@[k]@ == a[i].lvar.table.0@[k]@);
        }
    }
    assert forall|i: int| 0 <= i < a.len() && hidden(a, i) implies (#[trigger] c[i]).lvar.table == a[i].lvar.table by {
        let j = choose|j: int| i < j < a.len() && 0 <= j && !((#[trigger] a[j]).kind is Block) && !(a[j].kind is For);
        assert(frame_ext(a[j], b[j]));
        assert(hidden(b, i));
        assert(b[i].lvar.table == a[i].lvar.table);
    }
}
/// a frame pushed, and taken away again
pub broadcast proof fn b_scope_push(a: Seq<LvarScope>, x: LvarScope, b: Seq<LvarScope>)
    requires #[trigger] scope_ext(a.push(x), b)
    ensures b.len() == a.len() + 1, scope_ext(a, b.drop_last())
{
    let p = a.push(x);
    assert forall|i: int| 0 <= i < a.len() implies frame_ext(a[i], #[trigger] b.drop_last()[i]) by {
        assert(p[i] == a[i]);
        assert(frame_ext(p[i], b[i]));
    }
    assert forall|i: int| 0 <= i < a.len() && hidden(a, i) implies (#[trigger] b.drop_last()[i]).lvar.table == a[i].lvar.table by {
        let j = choose|j: int| i < j < a.len() && 0 <= j && !((#[trigger] a[j]).kind is Block) && !(a[j].kind is For);
        assert(p[j] == a[j]);
        assert(hidden(p, i));
        assert(b[i].lvar.table == p[i].lvar.table);
    }
}
pub broadcast proof fn b_scope_len(a: Seq<LvarScope>, b: Seq<LvarScope>)
    requires #[trigger] scope_ext(a, b)
    ensures a.len() == b.len(), a.len() > 0 ==> a[0].kind == b[0].kind
{
    if a.len() > 0 { assert(frame_ext(a[0], b[0])); }
}
pub broadcast proof fn b_scope_tops(a: Seq<LvarScope>, b: Seq<LvarScope>)
    requires #[trigger] scope_ext(a, b), a.len() > 0
    ensures frame_ext(a.last(), b.last())
{}
// ---- while parameters are added
pub broadcast proof fn b_par_ext(a: Seq<LvarScope>, b: Seq<LvarScope>)
    requires #[trigger] scope_ext(a, b), a.len() > 0
    ensures scope_par(a, b)
{
    let x = a.drop_last(); let y = b.drop_last();
    assert(frame_ext(a.last(), b.last()));
    assert forall|i: int| 0 <= i < x.len() implies frame_ext(x[i], #[trigger] y[i]) by { assert(frame_ext(a[i], b[i])); }
    assert forall|i: int| 0 <= i < x.len() && hidden(x, i) implies (#[trigger] y[i]).lvar.table == x[i].lvar.table by {
        let j = choose|j: int| i < j < x.len() && 0 <= j && !((#[trigger] x[j]).kind is Block) && !(x[j].kind is For);
        assert(a[j] == x[j]);
        assert(hidden(a, i));
        assert(b[i].lvar.table == a[i].lvar.table);
    }
}
pub broadcast proof fn b_par_refl(a: Seq<LvarScope>)
    requires a.len() > 0
    ensures #[trigger] scope_par(a, a)
{}
pub broadcast proof fn b_par_trans(a: Seq<LvarScope>, b: Seq<LvarScope>, c: Seq<LvarScope>)
    requires #[trigger] scope_par(a, b), #[trigger] scope_par(b, c)
    ensures scope_par(a, c)
{
    b_scope_trans(a.drop_last(), b.drop_last(), c.drop_last());
    assert forall|i: int| 0 <= i < a.len() && hidden(a, i) implies (#[trigger] c[i]).lvar.table == a[i].lvar.table by {
        let j = choose|j: int| i < j < a.len() && 0 <= j && !((#[trigger] a[j]).kind is Block) && !(a[j].kind is For);
        if j < a.len() - 1 {
            assert(frame_ext(a.drop_last()[j], b.drop_last()[j]));
        }
        assert(b[j].kind == a[j].kind);
        assert(hidden(b, i));
        assert(b[i].lvar.table == a[i].lvar.table);
    }
}
pub broadcast proof fn b_par_len(a: Seq<LvarScope>, b: Seq<LvarScope>)
    requires #[trigger] scope_par(a, b)
    ensures a.len() == b.len(), a.len() > 0, a[0].kind == b[0].kind, frame_par(a.last(), b.last())
{
    if a.len() > 1 { assert(frame_ext(a.drop_last()[0], b.drop_last()[0])); }
}
pub broadcast proof fn b_par_push(a: Seq<LvarScope>, x: LvarScope, b: Seq<LvarScope>)
    requires #[trigger] scope_par(a.push(x), b)
    ensures b.len() == a.len() + 1, scope_ext(a, b.drop_last())
{
    assert(a.push(x).drop_last() =~= a);
}
pub broadcast proof fn b_par_last(a: Seq<LvarScope>, x: LvarScope)
    requires a.len() > 0, frame_par(a.last(), x)
    ensures scope_par(a, #[trigger] a.drop_last().push(x))
{
    let b = a.drop_last().push(x);
    assert(b.drop_last() =~= a.drop_last());
}
/// a name put at `k` into a table that does not have it
pub broadcast proof fn b_no_dup_insert(a: LvarTable, b: LvarTable, k: int, n: Seq<char>)
    requires no_dup(a), 0 <= k <= a.0@.len(), names(b) == #[trigger] names(a).insert(k, n), !names(a).contains(n)
    ensures #[trigger] no_dup(b)
{
    assert(names(b).len() == a.0@.len() + 1);
    assert forall|i: int, j: int| 0 <= i < j < b.0@.len() implies (#[trigger] b.0@[i])@ != (#[trigger] b.0@[j])@ by {
        assert(names(b)[i] == b.0@[i]@ && names(b)[j] == b.0@[j]@);
        if i == k { assert(names(b)[j] == names(a)[j - 1]); }
        else if j == k { assert(names(b)[i] == names(a)[i]); }
        else {
            let i2 = if i < k { i } else { i - 1 };
            let j2 = if j < k { j } else { j - 1 };
            assert(names(b)[i] == names(a)[i2] && names(b)[j] == names(a)[j2]);
            assert(a.0@[i2]@ != a.0@[j2]@);
        }
    }
}
pub broadcast proof fn b_no_dup_push(a: LvarTable, b: LvarTable, n: Seq<char>)
    requires no_dup(a), names(b) == #[trigger] names(a).push(n), !names(a).contains(n)
    ensures #[trigger] no_dup(b)
{
    assert(names(a).insert(names(a).len() as int, n) =~= names(a).push(n));
    b_no_dup_insert(a, b, a.0@.len() as int, n);
}

// ---- the parameters and what is recorded of them
pub open spec fn param_names(k: ParamKind) -> Seq<Seq<char>> {
    match k {
        ParamKind::Param(n) => seq![n@],
        ParamKind::Post(n) => seq![n@],
        ParamKind::Optional(n, _) => seq![n@],
        ParamKind::Rest(o) => match o { Some(n) => seq![n@], None => seq![] },
        ParamKind::Keyword(n, _) => seq![n@],
        ParamKind::KWRest(n) => seq![n@],
        ParamKind::Block(n) => seq![n@],
        ParamKind::Delegate => seq!["..."@],
        ParamKind::Destruct(v) => Seq::new(v@.len(), |i: int| v@[i].0@),
    }
}
/// the names of the parameters, in order
pub open spec fn params_names(p: Seq<FormalParam>) -> Seq<Seq<char>>
    decreases p.len()
{
    if p.len() == 0 { seq![] } else { params_names(p.drop_last()) + param_names(p.last().kind) }
}
/// where the keyword parameters are among them
pub open spec fn params_kw(p: Seq<FormalParam>) -> Seq<int>
    decreases p.len()
{
    if p.len() == 0 { seq![] }
    else if p.last().kind is Keyword { params_kw(p.drop_last()).push(params_names(p.drop_last()).len() as int) }
    else { params_kw(p.drop_last()) }
}
pub open spec fn params_kwrest(p: Seq<FormalParam>) -> Option<int>
    decreases p.len()
{
    if p.len() == 0 { None }
    else if p.last().kind is KWRest { Some(params_names(p.drop_last()).len() as int) }
    else { params_kwrest(p.drop_last()) }
}
pub open spec fn params_block(p: Seq<FormalParam>) -> Option<int>
    decreases p.len()
{
    if p.len() == 0 { None }
    else if p.last().kind is Block { Some(params_names(p.drop_last()).len() as int) }
    else { params_block(p.drop_last()) }
}
pub open spec fn params_fwd(p: Seq<FormalParam>) -> Option<int>
    decreases p.len()
{
    if p.len() == 0 { None }
    else if p.last().kind is Delegate { Some(params_names(p.drop_last()).len() as int) }
    else { params_fwd(p.drop_last()) }
}
/// the group the parameters have reached: required, optional, rest, required after these,
/// keyword, keyword rest, block or `...`
pub open spec fn params_group(p: Seq<FormalParam>) -> int
    decreases p.len()
{
    if p.len() == 0 { 0 } else {
        match p.last().kind {
            ParamKind::Param(_) => 0,
            ParamKind::Optional(_, _) => 1,
            ParamKind::Rest(_) => 2,
            ParamKind::Post(_) => 3,
            ParamKind::Destruct(_) => if params_group(p.drop_last()) == 0 { 0 } else { 3 },
            ParamKind::Keyword(_, _) => 4,
            ParamKind::KWRest(_) => 5,
            ParamKind::Block(_) => 6,
            ParamKind::Delegate => 6,
        }
    }
}
/// the parameters come in the order the language prescribes
pub open spec fn params_ordered(p: Seq<FormalParam>) -> bool
    decreases p.len()
{
    p.len() == 0 || params_ordered(p.drop_last()) && {
        let g = params_group(p.drop_last());
        match p.last().kind {
            ParamKind::Param(_) => g == 0,
            ParamKind::Optional(_, _) => g <= 1,
            ParamKind::Rest(_) => g <= 1,
            ParamKind::Post(_) => 1 <= g <= 3,
            ParamKind::Destruct(_) => g <= 3,
            ParamKind::Keyword(_, _) => g <= 4,
            ParamKind::KWRest(_) => g <= 4,
            ParamKind::Block(_) => g <= 5,
            ParamKind::Delegate => g == 0,
        }
    }
}
pub broadcast proof fn b_params_order(p: Seq<FormalParam>, x: FormalParam)
    ensures #![trigger p.push(x)]
        p.push(x).drop_last() == p, p.push(x).last() == x,
{
    assert(p.push(x).drop_last() =~= p);
}
pub open spec fn id_at(r: Option<LvarId>, k: Option<int>) -> bool {
    match r { Some(id) => k == Some(id.0 as int), None => k is None }
}
/// the frame records exactly these parameters: their names come first, in order,
/// and the keyword, keyword-rest, block and `...` parameters are found where they are
#[verifier::opaque]
pub open spec fn params_in(p: Seq<FormalParam>, l: LvarCollector) -> bool {
    &&& l.param_num == params_names(p).len()
    &&& l.param_num <= l.table.0@.len()
    &&& names(l.table).take(l.param_num as int) == params_names(p)
    &&& l.kw@.len() == params_kw(p).len()
    &&& forall|i: int| 0 <= i < l.kw@.len() ==> (#[trigger] l.kw@[i]).0 == params_kw(p)[i]
    &&& id_at(l.kwrest, params_kwrest(p))
    &&& id_at(l.block, params_block(p))
    &&& id_at(l.forwarding_param, params_fwd(p))
}
pub open spec fn no_params(l: LvarCollector) -> bool {
    l.param_num == 0 && l.kw@.len() == 0 && l.kwrest is None && l.block is None && l.forwarding_param is None
}
pub open spec fn fresh(l: LvarCollector) -> bool {
    l.table.0@.len() == 0 && no_params(l)
}
pub broadcast proof fn b_params_none(p: Seq<FormalParam>, l: LvarCollector)
    requires p.len() == 0, no_params(l)
    ensures #[trigger] params_in(p, l)
{
    reveal(params_in);
    assert(names(l.table).take(0) =~= params_names(p));
}
pub broadcast proof fn b_params_fit(p: Seq<FormalParam>, l: LvarCollector)
    requires #[trigger] params_in(p, l)
    ensures l.param_num <= l.table.0@.len()
{ reveal(params_in); }
/// how a parameter, and then its variables, are recorded
pub proof fn lemma_params_push(p: Seq<FormalParam>, x: FormalParam, a: LvarCollector, b: LvarCollector)
    requires
        params_in(p, a),
        b.param_num == a.param_num + param_names(x.kind).len(),
        b.param_num <= b.table.0@.len(),
        names(b.table).take(b.param_num as int) =~= names(a.table).take(a.param_num as int) + param_names(x.kind),
        x.kind is Keyword ==> b.kw@.len() == a.kw@.len() + 1 && b.kw@.last().0 == a.param_num && b.kw@.drop_last() =~= a.kw@,
        !(x.kind is Keyword) ==> b.kw@ =~= a.kw@,
        x.kind is KWRest ==> b.kwrest == Some(LvarId(a.param_num)),
        !(x.kind is KWRest) ==> b.kwrest == a.kwrest,
        x.kind is Block ==> b.block == Some(LvarId(a.param_num)),
        !(x.kind is Block) ==> b.block == a.block,
        x.kind is Delegate ==> b.forwarding_param == Some(LvarId(a.param_num)),
        !(x.kind is Delegate) ==> b.forwarding_param == a.forwarding_param,
    ensures params_in(p.push(x), b)
{
    reveal(params_in);
    let q = p.push(x);
    assert(q.drop_last() =~= p);
    assert(q.last() == x);
    assert forall|i: int| 0 <= i < b.kw@.len() implies (#[trigger] b.kw@[i]).0 == params_kw(q)[i] by {
        if x.kind is Keyword { if i < a.kw@.len() { assert(b.kw@.drop_last()[i] == a.kw@[i]); } } else { assert(b.kw@[i] == a.kw@[i]); }
    }
}
/// an argument that is one name
pub broadcast proof fn b_params_one(p: Seq<FormalParam>, x: FormalParam, a: LvarCollector, b: LvarCollector, n: Seq<char>)
    requires
        #[trigger] params_in(p, a),
        param_names(x.kind) =~= seq![n],
        b.param_num == a.param_num + 1,
        a.param_num <= a.table.0@.len(),
        names(b.table) == #[trigger] names(a.table).insert(a.param_num as int, n),
        x.kind is Keyword ==> b.kw@ == a.kw@.push(LvarId(a.param_num)),
        !(x.kind is Keyword) ==> b.kw@ == a.kw@,
        x.kind is KWRest ==> b.kwrest == Some(LvarId(a.param_num)),
        !(x.kind is KWRest) ==> b.kwrest == a.kwrest,
        x.kind is Block ==> b.block == Some(LvarId(a.param_num)),
        !(x.kind is Block) ==> b.block == a.block,
        x.kind is Delegate ==> b.forwarding_param == Some(LvarId(a.param_num)),
        !(x.kind is Delegate) ==> b.forwarding_param == a.forwarding_param,
    ensures #[trigger] params_in(p.push(x), b)
{
    assert(names(b.table).len() == b.table.0@.len());
    assert(names(b.table).take(b.param_num as int) =~= names(a.table).take(a.param_num as int) + seq![n]);
    if x.kind is Keyword { assert(b.kw@.drop_last() =~= a.kw@); }
    lemma_params_push(p, x, a, b);
}
/// an unnamed rest parameter
pub broadcast proof fn b_params_zero(p: Seq<FormalParam>, x: FormalParam, a: LvarCollector)
    requires #[trigger] params_in(p, a), param_names(x.kind).len() == 0, x.kind is Rest
    ensures #[trigger] params_in(p.push(x), a)
{
    reveal(params_in);
    assert(names(a.table).take(a.param_num as int) =~= names(a.table).take(a.param_num as int) + param_names(x.kind));
    lemma_params_push(p, x, a, a);
}
/// the names of a destructuring parameter, put in one after another
pub open spec fn put_names(a: LvarCollector, b: LvarCollector, v: Seq<(String, Loc)>) -> bool {
    &&& b.param_num == a.param_num + v.len()
    &&& b.param_num <= b.table.0@.len()
    &&& names(b.table).take(b.param_num as int) =~= names(a.table).take(a.param_num as int) + Seq::new(v.len(), |i: int| v[i].0@)
    &&& b.kw == a.kw
    &&& b.kwrest == a.kwrest
    &&& b.block == a.block
    &&& b.forwarding_param == a.forwarding_param
}
pub broadcast proof fn b_put_none(a: LvarCollector)
    requires a.param_num <= a.table.0@.len()
    ensures #[trigger] put_names(a, a, seq![])
{}
pub broadcast proof fn b_put_one(a: LvarCollector, b: LvarCollector, c: LvarCollector, v: Seq<(String, Loc)>, x: (String, Loc))
    requires
        #[trigger] put_names(a, b, v),
        c.param_num == b.param_num + 1,
        names(c.table) == #[trigger] names(b.table).insert(b.param_num as int, x.0@),
        c.kw == b.kw, c.kwrest == b.kwrest, c.block == b.block, c.forwarding_param == b.forwarding_param,
    ensures #[trigger] put_names(a, c, v.push(x))
{
    assert(names(c.table).len() == c.table.0@.len());
    let w = v.push(x);
    assert(Seq::new(w.len(), |i: int| w[i].0@) =~= Seq::new(v.len(), |i: int| v[i].0@).push(x.0@));
    assert(names(c.table).take(c.param_num as int) =~= names(b.table).take(b.param_num as int).push(x.0@));
}
pub broadcast proof fn b_params_many(p: Seq<FormalParam>, x: FormalParam, a: LvarCollector, b: LvarCollector)
    requires #[trigger] params_in(p, a), x.kind is Destruct, #[trigger] put_names(a, b, x.kind->Destruct_0@)
    ensures #[trigger] params_in(p.push(x), b)
{
    lemma_params_push(p, x, a, b);
}
/// other variables do not matter
pub broadcast proof fn b_params_ext(p: Seq<FormalParam>, a: LvarScope, b: LvarScope)
    requires #[trigger] params_in(p, a.lvar), #[trigger] frame_ext(a, b)
    ensures params_in(p, b.lvar)
{
    reveal(params_in);
    assert(names(b.lvar.table).take(b.lvar.param_num as int) =~= names(a.lvar.table).take(a.lvar.param_num as int)) by {
        assert forall|i: int| 0 <= i < a.lvar.param_num implies names(b.lvar.table)[i] == names(a.lvar.table)[i] by {
            assert(b.lvar.table.0@[i]@ == a.lvar.table.0@[i]@);
        }
    }
}
/// the innermost frame changes
pub broadcast proof fn b_scope_last(a: Seq<LvarScope>, x: LvarScope)
    requires a.len() > 0, frame_ext(a.last(), x)
    ensures scope_ext(a, #[trigger] a.drop_last().push(x))
{}
/// a frame that can be seen changes
pub proof fn lemma_scope_update(a: Seq<LvarScope>, k: int, x: LvarScope)
    requires 0 <= k < a.len(), frame_ext(a[k], x), !hidden(a, k)
    ensures scope_ext(a, a.update(k, x))
{}

/// How many blocks out the variable `n` is found from the innermost of the frames
/// `s`: the search goes through blocks (and `for`) and stops at the first method,
/// class or program body.
pub open spec fn resolve(s: Seq<LvarScope>, n: Seq<char>) -> Option<nat>
    decreases s.len()
{
    if s.len() == 0 { None }
    else if names(s.last().lvar.table).contains(n) { Some(0) }
    else {
        match s.last().kind {
            ScopeKind::Block => match resolve(s.drop_last(), n) { Some(k) => Some(k + 1), None => None },
            ScopeKind::For => resolve(s.drop_last(), n),
            _ => None,
        }
    }
}
pub proof fn lemma_resolve_step(s: Seq<LvarScope>, k: int, n: Seq<char>)
    requires 0 < k <= s.len()
    ensures
        s.take(k).drop_last() == s.take(k - 1), s.take(k).last() == s[k - 1],
        s.take(s.len() as int) == s,
{
    assert(s.take(k).drop_last() =~= s.take(k - 1));
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_take_all(s: Seq<LvarScope>)
    ensures s.take(s.len() as int) == s, in_method(s.take(0)) == false
{
    assert(s.take(s.len() as int) =~= s);
}
/// `for` frames that do not declare the name are transparent
pub proof fn lemma_resolve_for(s: Seq<LvarScope>, k: int, n: Seq<char>)
    requires 0 < k <= s.len(), forall|j: int| k <= j < s.len() ==> (#[trigger] s[j]).kind is For && !names(s[j].lvar.table).contains(n)
    ensures resolve(s, n) == resolve(s.take(k), n)
    decreases s.len() - k
{
    if k < s.len() {
        lemma_resolve_for(s, k + 1, n);
        lemma_resolve_step(s, k + 1, n);
    } else {
        assert(s.take(k) =~= s);
    }
}
/// a name that is not found is in none of the frames searched
pub proof fn lemma_resolve_none(s: Seq<LvarScope>, k: int, n: Seq<char>)
    requires 0 <= k < s.len(), resolve(s, n) is None, forall|j: int| k < j < s.len() ==> (#[trigger] s[j]).kind is For
    ensures
        !hidden(s, k),
        forall|j: int| k <= j < s.len() ==> !names((#[trigger] s[j]).lvar.table).contains(n),
    decreases s.len() - k
{
    if k + 1 < s.len() {
        lemma_resolve_none(s, k + 1, n);
        lemma_resolve_for(s, k + 1, n);
    } else {
        assert(s.take(s.len() as int) =~= s);
    }
    lemma_resolve_step(s, k + 1, n);
}
pub broadcast proof fn b_resolve_update(a: Seq<LvarScope>, k: int, x: LvarScope, n: Seq<char>)
    requires
        0 <= k < a.len(), names(x.lvar.table).contains(n),
        forall|j: int| k < j < a.len() ==> (#[trigger] a[j]).kind is For && !names(a[j].lvar.table).contains(n),
    ensures #[trigger] resolve(a.update(k, x), n) == Some(0nat)
{
    let b = a.update(k, x);
    assert forall|j: int| k + 1 <= j < b.len() implies (#[trigger] b[j]).kind is For && !names(b[j].lvar.table).contains(n) by { assert(a[j] == b[j]); }
    lemma_resolve_for(b, k + 1, n);
    lemma_resolve_step(b, k + 1, n);
}
pub broadcast proof fn b_scope_update(a: Seq<LvarScope>, k: int, x: LvarScope)
    requires 0 <= k < a.len(), frame_ext(a[k], x), !hidden(a, k)
    ensures scope_ext(a, #[trigger] a.update(k, x))
{}
/// only what is recorded beside the names changes in a frame
pub broadcast proof fn b_scope_update_flags(a: Seq<LvarScope>, k: int, x: LvarScope)
    requires 0 <= k < a.len(), a[k].kind == x.kind, a[k].lvar.table == x.lvar.table, same_params(a[k].lvar, x.lvar)
    ensures scope_ext(a, #[trigger] a.update(k, x))
{}
pub broadcast proof fn b_push_contains(s: Seq<Seq<char>>, x: Seq<char>)
    ensures (#[trigger] s.push(x)).contains(x)
{
    assert(s.push(x)[s.len() as int] == x);
}
/// the innermost body is a method body
pub open spec fn in_method(s: Seq<LvarScope>) -> bool
    decreases s.len()
{
    s.len() > 0 && match s.last().kind {
        ScopeKind::Method => true,
        ScopeKind::Block => in_method(s.drop_last()),
        ScopeKind::For => in_method(s.drop_last()),
        _ => false,
    }
}

// ---------------------------------------------------------------- C24
/// the name of a predicate or of a method with `!`
pub open spec fn marked(n: Seq<char>) -> bool { n.len() > 0 && (n.last() == '!' || n.last() == '?') }
pub open spec fn no_args(a: ArgList) -> bool {
    a.args@.len() == 0 && a.kw_args@.len() == 0 && a.hash_splat@.len() == 0 && a.block is None && !a.forwarding
}
/// a value can be assigned to it
pub open spec fn assignable(n: Node) -> bool {
    match n.kind {
        NodeKind::LocalVar(_, _) => true,
        NodeKind::InstanceVar(_) => true,
        NodeKind::GlobalVar(_) => true,
        NodeKind::SpecialVar(_) => true,
        NodeKind::ClassVar(_) => true,
        NodeKind::Const { .. } => true,
        NodeKind::Index { .. } => true,
        NodeKind::DiscardLhs => true,
        NodeKind::MethodCall { method, arglist, .. } => !marked(method@) && no_args(arglist),
        _ => false,
    }
}
pub open spec fn target(n: Node) -> bool
    decreases n
{
    match n.kind { NodeKind::Splat(x) => target(*x), _ => assignable(n) }
}
/// `n` is the target that `lhs` was read as
pub open spec fn target_of(lhs: Node, n: Node) -> bool
    decreases lhs
{
    match lhs.kind {
        NodeKind::Ident(name) => !marked(name@) && (n.kind matches NodeKind::LocalVar(_, m) && m == name),
        NodeKind::Splat(x) => n.kind matches NodeKind::Splat(y) && target_of(*x, *y),
        _ => n == lhs && assignable(n),
    }
}
/// no constant is assigned in a method body
pub open spec fn const_ok(lhs: Node, s: Seq<LvarScope>) -> bool
    decreases lhs
{
    match lhs.kind {
        NodeKind::Const { .. } => !in_method(s),
        NodeKind::Splat(x) => const_ok(*x, s),
        _ => true,
    }
}
pub broadcast proof fn b_target_of(lhs: Node, n: Node)
    requires #[trigger] target_of(lhs, n)
    ensures target(n)
    decreases lhs
{
    match lhs.kind {
        NodeKind::Splat(x) => { if let NodeKind::Splat(y) = n.kind { b_target_of(*x, *y); } }
        _ => {}
    }
}
pub open spec fn splat_in(v: Seq<Node>, n: int) -> bool { exists|j: int| 0 <= j < n && (#[trigger] v[j]).kind is Splat }
/// the right-hand side of an assignment: its values, or one array of them
pub open spec fn values_of(n: int, v: Seq<Node>, w: Seq<Node>) -> bool {
    if splat_in(v, v.len() as int) || n == 1 && v.len() != 1 {
        w.len() == 1 && (w[0].kind matches NodeKind::Array(x, _) && x@ == v)
    } else {
        w == v
    }
}

pub broadcast group group_parse {
    b_scope_refl, b_scope_trans, b_scope_push, b_scope_len, b_scope_tops, b_scope_last,
    b_par_ext, b_par_refl, b_par_trans, b_par_len, b_par_push, b_par_last, b_no_dup_insert, b_no_dup_push, b_params_none, b_params_fit, b_params_ext, b_params_order, b_params_one, b_params_zero, b_params_many, b_put_none, b_put_one,
    b_child_const, b_child_splat, b_target_of, b_loc_prefix, b_node_prefix, b_resolve_update, b_scope_update, b_scope_update_flags, b_wf0, b_text_first, b_push_contains,
}

/// parts of a tree inside the source are inside the source
pub broadcast proof fn b_child_const(n: Node, s: Seq<char>)
    requires node_ok(n, s), n.kind is Const
    ensures #![trigger node_ok(n, s), n.kind->Const_parent]
        (match n.kind->Const_parent { Some(p) => loc_ok(p.loc, s) && node_ok(*p, s), None => true })
{
    reveal_with_fuel(node_ok, 3);
}
pub broadcast proof fn b_child_splat(n: Node, s: Seq<char>)
    requires node_ok(n, s), n.kind is Splat
    ensures #![trigger node_ok(n, s), n.kind->Splat_0]
        loc_ok(n.kind->Splat_0.loc, s), node_ok(*n.kind->Splat_0, s)
{
    reveal_with_fuel(node_ok, 3);
}

impl<'a, OuterContext: LocalsContext> Parser<'a, OuterContext> {
    /// the lexer is well formed and the last token lies inside the source
    pub open spec fn lwf(&self) -> bool {
        self.lexer.wf() && loc_ok(self.prev_loc, self.lexer.code@)
    }
    pub open spec fn pwf(&self) -> bool {
        &&& self.lwf()
        &&& self.scope@.len() >= 1
        &&& !(self.scope@[0].kind is For)
    }
    pub open spec fn same_env(&self, o: Self) -> bool {
        self.lexer.code == o.lexer.code && self.extern_context == o.extern_context && self.path == o.path
    }
    pub open spec fn same_flags(&self, o: Self) -> bool {
        &&& self.suppress_mul_assign == o.suppress_mul_assign
        &&& self.suppress_do_block == o.suppress_do_block
    }
    /// only the lexer (and the last location) moved
    pub open spec fn same_ctx(&self, o: Self) -> bool {
        &&& self.same_env(o)
        &&& self.same_flags(o)
        &&& self.defined_mode == o.defined_mode
        &&& self.scope == o.scope
        &&& self.loop_stack == o.loop_stack
    }
    /// nothing leaked: the same frames (with names added), loops and modes
    pub open spec fn balanced(&self, o: Self) -> bool {
        &&& self.same_env(o)
        &&& self.same_flags(o)
        &&& scope_ext(o.scope@, self.scope@)
        &&& self.loop_stack@ =~= o.loop_stack@
    }
    /// the same, while parameters are added to the innermost frame
    pub open spec fn balanced_par(&self, o: Self) -> bool {
        &&& self.same_env(o)
        &&& self.same_flags(o)
        &&& scope_par(o.scope@, self.scope@)
        &&& self.loop_stack@ =~= o.loop_stack@
    }
    /// the last token reads `t`
    pub open spec fn last_is(&self, t: Seq<char>) -> bool {
        &&& self.prev_loc.0 <= self.prev_loc.1
        &&& crate::strmodel::sub(self.lexer.code@, self.prev_loc.0 as nat, (self.prev_loc.1 + 1) as nat) == t
    }
    /// an argument list without parentheses can / has to start here
    pub open spec fn may_cmd(&self) -> bool {
        self.lexer.res() matches Ok(t) && may_command(t, space_at(self.lexer.code@, self.lexer.pos as nat), space_at(self.lexer.code@, (t.loc.1 + 1) as nat))
    }
    pub open spec fn must_cmd(&self) -> bool {
        self.lexer.res() matches Ok(t) && must_command(t, space_at(self.lexer.code@, self.lexer.pos as nat), space_at(self.lexer.code@, (t.loc.1 + 1) as nat))
    }
    pub open spec fn is_oper(&self) -> bool {
        self.lexer.res() matches Ok(t) && oper(t, space_at(self.lexer.code@, self.lexer.pos as nat), space_at(self.lexer.code@, (t.loc.1 + 1) as nat))
    }
    /// a value of `yield` can start at the next token
    pub open spec fn may_val(&self) -> bool {
        self.lexer.res() matches Ok(t) && can_start(t) && !self.is_oper()
    }
    /// The next token is no binary operator that binds as strongly as `k`
    /// (or one of those that do not chain): an operand of that strength ends here.
    pub open spec fn stops(&self, k: int) -> bool {
        self.lexer.res() matches Ok(t) ==> (rank(t.kind) < k || unchained(t.kind))
    }
    /// the last token opens what `p` closes
    pub open spec fn opened_by(&self, p: Punct) -> bool {
        match p {
            Punct::RParen => self.last_is(spell(Punct::LParen)),
            Punct::RBracket => self.last_is(spell(Punct::LBracket)),
            Punct::RBrace => self.last_is(spell(Punct::LBrace)),
            Punct::BitOr => self.last_is(spell(Punct::BitOr)),
            _ => false,
        }
    }
    pub open spec fn at_same(&self, o: Self) -> bool {
        &&& self.lexer.pos == o.lexer.pos
        &&& self.lexer.token_start_pos == o.lexer.token_start_pos
        &&& self.lexer.heredoc_pos == o.lexer.heredoc_pos
        &&& self.prev_loc == o.prev_loc
    }
}

/// positions of a well-formed lexer
pub broadcast proof fn b_wf0<'a>(l: Lexer<'a>)
    requires #[trigger] l.wf0()
    ensures l.pos <= blen(l.code@), l.token_start_pos <= blen(l.code@), blen(l.code@) <= i32::MAX
{ broadcast use crate::strmodel::group_str; }
/// the first character of a name
pub broadcast proof fn b_text_first(t: Token, s: Seq<char>)
    requires #[trigger] t.ok_in(s), tok_text(t) is Some, ((tok_text(t)->0)[0] as u32) < 0x80
    ensures isb(s, (t.loc.0 + 1) as nat), t.loc.0 < i32::MAX || blen(s) > i32::MAX
{ broadcast use crate::strmodel::group_str; }


// ---------------------------------------------------------------- closers (C12)

/// what closes the construct that this token opens
pub open spec fn closer(t: Token) -> Option<Seq<char>> {
    match t.kind {
        TokenKind::Punct(Punct::LParen) => Some(spell(Punct::RParen)),
        TokenKind::Punct(Punct::LBracket) => Some(spell(Punct::RBracket)),
        TokenKind::Punct(Punct::LBrace) => Some(spell(Punct::RBrace)),
        TokenKind::Reserved(r) =>
            if r is If || r is Unless || r is While || r is Until || r is For || r is Case || r is Def || r is Class || r is Module || r is Begin {
                Some(keyword(Reserved::End))
            } else if r is Defined { Some(spell(Punct::RParen)) } else { None },
        _ => None,
    }
}

// ---------------------------------------------------------------- arguments (C22)

/// the keywords that close or continue a construct; none of them begins an expression
/// (`if`, `unless`, `while` and `until` modify the statement they follow)
pub open spec fn closes(r: Reserved) -> bool {
    r is Do || r is End || r is Then || r is Else || r is Elsif || r is When || r is In || r is Ensure
    || r is Rescue || r is And || r is Or || r is If || r is Unless || r is While || r is Until
}
/// a token that can be the first one of an argument written without parentheses
pub open spec fn can_start(t: Token) -> bool {
    match t.kind {
        TokenKind::Eof | TokenKind::LineTerm => false,
        TokenKind::Reserved(r) => !closes(r),
        TokenKind::Punct(p) => !(p is RParen || p is RBracket || p is RBrace || p is Comma || p is Semi || p is Dot
            || p is Assign || p is AssignOp || p is FatArrow || p is Eq || p is Ne || p is Cmp || p is TEq || p is Ge || p is Le || p is Gt
            || p is Lt || p is LAnd || p is LOr || p is Match || p is SafeNav),
        _ => true,
    }
}
/// An argument list written without parentheses can start at `t` (`sb`: white
/// space before it, `sa`: white space after it).
pub open spec fn may_command(t: Token, sb: bool, sa: bool) -> bool {
    can_start(t) && match t.kind {
        TokenKind::Punct(p) => match p {
            Punct::Plus | Punct::Minus | Punct::Mul | Punct::DMul | Punct::Div | Punct::BitAnd | Punct::Rem | Punct::Shl
            | Punct::Colon | Punct::Question => sb && !sa,
            _ => sb,
        },
        _ => true,
    }
}
/// It has to start there: the token is no operator that goes on.
pub open spec fn must_command(t: Token, sb: bool, sa: bool) -> bool {
    sb && match t.kind {
        TokenKind::Punct(p) => match p {
            Punct::LParen | Punct::LBracket | Punct::Scope | Punct::Arrow | Punct::Not | Punct::BitNot => true,
            Punct::Plus | Punct::Minus | Punct::Mul | Punct::DMul | Punct::Div | Punct::BitAnd | Punct::Rem | Punct::Shl | Punct::Colon => !sa,
            _ => false,
        },
        TokenKind::Reserved(r) => !closes(r),
        TokenKind::Eof | TokenKind::LineTerm => false,
        _ => true,
    }
}
/// By the spaces around it `t` is an operator whose left operand ends before it.
pub open spec fn oper(t: Token, sb: bool, sa: bool) -> bool {
    match t.kind {
        TokenKind::Punct(p) => match p {
            Punct::Plus | Punct::Minus | Punct::Mul | Punct::DMul | Punct::Div | Punct::BitAnd | Punct::Rem | Punct::Shl => !sb || sa,
            Punct::LBracket | Punct::Scope => !sb,
            _ => false,
        },
        _ => false,
    }
}
/// a token that can only be the first one of an operand
pub open spec fn must_start(t: Token) -> bool {
    match t.kind {
        TokenKind::Punct(p) => p is LParen || p is LBracket || p is Not || p is BitNot || p is Arrow,
        TokenKind::Reserved(r) => !closes(r),
        TokenKind::Eof | TokenKind::LineTerm => false,
        _ => true,
    }
}

// ---------------------------------------------------------------- operators
/// How strongly a binary operator binds (0: no binary operator).
pub open spec fn rank(k: TokenKind) -> int {
    match k {
        TokenKind::Punct(p) => match p {
            Punct::DMul => 90,
            Punct::Mul | Punct::Div | Punct::Rem => 80,
            Punct::Plus | Punct::Minus => 70,
            Punct::Shl | Punct::Shr => 60,
            Punct::BitAnd => 50,
            Punct::BitOr | Punct::BitXor => 40,
            Punct::Lt | Punct::Le | Punct::Gt | Punct::Ge => 30,
            Punct::Eq | Punct::Ne | Punct::TEq | Punct::Match | Punct::Unmatch | Punct::Cmp => 20,
            Punct::LAnd => 18,
            Punct::LOr => 17,
            Punct::Range2 | Punct::Range3 => 15,
            Punct::Question => 13,
            _ => 0,
        },
        _ => 0,
    }
}
/// The operators of one kind that do not chain.
pub open spec fn unchained(k: TokenKind) -> bool { rank(k) == 20 || rank(k) == 15 }

} // verus!
