//! Location-free rendering of a syntax tree (public API only).
use ruruby_parse::*;

pub fn nodes(v: &[Node]) -> String {
    v.iter().map(node).collect::<Vec<_>>().join(" ")
}
fn q(s: &str) -> String {
    format!("{s:?}")
}
pub fn lvar(l: &LvarCollector) -> String {
    let mut s = format!("<{}", l.table().join(","));
    if !l.kw.is_empty() {
        s += &format!(" kw={:?}", l.kw.iter().map(|k| k.as_usize()).collect::<Vec<_>>());
    }
    if let Some(k) = l.kwrest_param() {
        s += &format!(" kwrest={}", k.as_usize());
    }
    if let Some(k) = l.block_param() {
        s += &format!(" block={}", k.as_usize());
    }
    if let Some(k) = l.forwarding_param {
        s += &format!(" fwd={}", k.as_usize());
    }
    if l.numbered_param.is_some() {
        s += " numbered";
    }
    s + ">"
}
pub fn param(p: &FormalParam) -> String {
    match &p.kind {
        ParamKind::Param(n) => format!("req:{n}"),
        ParamKind::Post(n) => format!("post:{n}"),
        ParamKind::Optional(n, d) => format!("opt:{n}={}", node(d)),
        ParamKind::Rest(n) => format!("rest:{}", n.clone().unwrap_or_default()),
        ParamKind::Keyword(n, None) => format!("key:{n}"),
        ParamKind::Keyword(n, Some(d)) => format!("key:{n}={}", node(d)),
        ParamKind::KWRest(n) => format!("kwrest:{n}"),
        ParamKind::Block(n) => format!("block:{n}"),
        ParamKind::Delegate => "fwd".to_string(),
        ParamKind::Destruct(v) => format!("destruct:({})", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(",")),
    }
}
pub fn block(b: &BlockInfo) -> String {
    format!("{{|{}| {} {}}}", b.params.iter().map(param).collect::<Vec<_>>().join(" "), lvar(&b.lvar), node(&b.body))
}
pub fn args(a: &ArgList) -> String {
    let mut s = nodes(&a.args);
    for (k, v) in &a.kw_args {
        s += &format!(" {k}: {}", node(v));
    }
    for h in &a.hash_splat {
        s += &format!(" **{}", node(h));
    }
    if let Some(b) = &a.block {
        s += &format!(" &{}", node(b));
    }
    if a.forwarding {
        s += " ...";
    }
    if a.splat {
        s += " !splat";
    }
    s
}
fn opt(n: &Option<Box<Node>>) -> String {
    n.as_ref().map_or("-".into(), |n| node(n))
}
fn op(o: &BinOp) -> String {
    use BinOp::*;
    match o {
        Add => "+".into(), Sub => "-".into(), Mul => "*".into(), Div => "/".into(), Rem => "%".into(), Exp => "**".into(), Shr => ">>".into(), Shl => "<<".into(),
        BitAnd => "&".into(), BitOr => "|".into(), BitXor => "^".into(), Compare => "<=>".into(), LAnd => "&&".into(), LOr => "||".into(), Match => "=~".into(),
        Cmp(k) => match k { CmpKind::Eq => "==", CmpKind::Ne => "!=", CmpKind::Lt => "<", CmpKind::Le => "<=", CmpKind::Gt => ">", CmpKind::Ge => ">=", CmpKind::TEq => "===" }.to_string(),
    }
}
pub fn node(n: &Node) -> String {
    use NodeKind::*;
    match &n.kind {
        SelfValue => "self".into(),
        Nil => "nil".into(),
        Integer(i) => format!("{i}"),
        Bignum(b) => format!("big:{b}"),
        Float(f) => format!("f:{f:?}"),
        Imaginary(r) => match r { NReal::Integer(i) => format!("im:{i}"), NReal::Bignum(b) => format!("im:big:{b}"), NReal::Float(f) => format!("im:f:{f:?}") },
        Bool(b) => format!("{b}"),
        String(s) => q(s),
        Bytes(b) => format!("bytes:{b:?}"),
        InterporatedString(v) => format!("(dstr {})", nodes(v)),
        Command(c) => format!("(cmd {})", node(c)),
        Symbol(s) => format!(":{}", q(s)),
        Range { start, end, exclude_end, is_const } => format!("({} {} {}{})", if *exclude_end { "..." } else { ".." }, node(start), node(end), if *is_const { " const" } else { "" }),
        Array(v, c) => format!("[{}{}]", nodes(v), if *c { " const" } else { "" }),
        Hash(v, c) => format!("(hash{}{})", v.iter().map(|(k, v)| format!(" {}=>{}", node(k), node(v))).collect::<std::string::String>(), if *c { " const" } else { "" }),
        RegExp(v, o, c) => format!("(regexp {} {}{})", nodes(v), q(o), if *c { " const" } else { "" }),
        LocalVar(o, s) => format!("lvar{o}:{s}"),
        Ident(s) => format!("ident:{s}"),
        InstanceVar(s) => format!("ivar:{s}"),
        GlobalVar(s) => format!("gvar:{s}"),
        SpecialVar(i) => format!("svar:{i}"),
        ClassVar(s) => format!("cvar:{s}"),
        Const { toplevel, parent, prefix, name } => format!("(const{}{} {}{name})", if *toplevel { " ::" } else { "" }, parent.as_ref().map_or("".into(), |p| format!(" {}", node(p))), prefix.iter().map(|p| format!("{p}::")).collect::<std::string::String>()),
        BinOp(o, a, b) => format!("({} {} {})", op(o), node(a), node(b)),
        UnOp(o, a) => format!("({} {})", match o { ruruby_parse::UnOp::BitNot => "~", ruruby_parse::UnOp::Not => "!", ruruby_parse::UnOp::Pos => "+@", ruruby_parse::UnOp::Neg => "-@" }, node(a)),
        Index { base, index } => format!("(index {} {})", node(base), nodes(index)),
        Splat(a) => format!("*{}", node(a)),
        AssignOp(o, a, b) => format!("({}= {} {})", op(o), node(a), node(b)),
        MulAssign(a, b) => format!("(= ({}) ({}))", nodes(a), nodes(b)),
        CompStmt(v) => format!("(do {})", nodes(v)),
        If { cond, then_, else_ } => format!("(if {} {} {})", node(cond), node(then_), node(else_)),
        For { param, iter, body } => format!("(for {:?} {} {})", param, node(iter), block(body)),
        While { cond, body, cond_op, postfix } => format!("({}{} {} {})", if *cond_op { "while" } else { "until" }, if *postfix { "-post" } else { "" }, node(cond), node(body)),
        Case { cond, when_, else_ } => format!("(case {}{} {})", opt(cond), when_.iter().map(|b| format!(" (when [{}] {})", nodes(&b.when), node(&b.body))).collect::<std::string::String>(), node(else_)),
        Begin { body, rescue, else_, ensure } => format!("(begin {}{} {} {})", node(body), rescue.iter().map(|r| format!(" (rescue [{}] {} {})", nodes(&r.exception_list), opt(&r.assign), node(&r.body))).collect::<std::string::String>(), opt(else_), opt(ensure)),
        Lambda(b) => format!("(lambda {})", block(b)),
        Break(a) => format!("(break {})", node(a)),
        Next(a) => format!("(next {})", node(a)),
        Redo => "redo".into(),
        Return(a) => format!("(return {})", node(a)),
        Yield(a) => format!("(yield {})", args(a)),
        MethodDef(s, b) => format!("(def {s} {})", block(b)),
        SingletonMethodDef(r, s, b) => format!("(sdef {} {s} {})", node(r), block(b)),
        ClassDef { base, name, superclass, info, is_module } => format!("({} {} {name} < {} {})", if *is_module { "module" } else { "class" }, opt(base), opt(superclass), block(info)),
        SingletonClassDef { singleton, info } => format!("(sclass {} {})", node(singleton), block(info)),
        MethodCall { receiver, method, arglist, safe_nav } => format!("(call {}{}{method} {})", node(receiver), if *safe_nav { "&." } else { "." }, args(arglist)),
        FuncCall { method, arglist, safe_nav } => format!("(fcall {}{method} {})", if *safe_nav { "&." } else { "" }, args(arglist)),
        Defined(a) => format!("(defined {})", node(a)),
        Super(None) => "super".into(),
        Super(Some(a)) => format!("(super {})", args(a)),
        AliasMethod(a, b) => format!("(alias {} {})", node(a), node(b)),
        DiscardLhs => "_discard".into(),
    }
}

/// Every (begin,end) pair carried by the tree, with a description.
pub fn locs(n: &Node, out: &mut Vec<(Loc, &'static str)>) {
    use NodeKind::*;
    out.push((n.loc, "node"));
    each_child(n, &mut |c| locs(c, out));
    match &n.kind {
        For { body, .. } | Lambda(body) | MethodDef(_, body) | SingletonMethodDef(_, _, body) => block_locs(body, out),
        ClassDef { info, .. } | SingletonClassDef { info, .. } => block_locs(info, out),
        _ => {}
    }
}
pub fn block_locs(b: &BlockInfo, out: &mut Vec<(Loc, &'static str)>) {
    out.push((b.loc, "block"));
    for p in &b.params {
        out.push((p.loc, "param"));
        if let ParamKind::Destruct(v) = &p.kind {
            for x in v {
                out.push((x.1, "destructured param"));
            }
        }
    }
    if let Some(l) = b.lvar.numbered_param {
        out.push((l, "numbered"));
    }
}

pub fn each_arg(a: &ArgList, f: &mut dyn FnMut(&Node)) {
    for x in &a.args { f(x) }
    for (_, x) in &a.kw_args { f(x) }
    for x in &a.hash_splat { f(x) }
    if let Some(b) = &a.block { f(b) }
}
fn each_block(b: &BlockInfo, f: &mut dyn FnMut(&Node)) {
    for p in &b.params {
        match &p.kind {
            ParamKind::Optional(_, d) => f(d),
            ParamKind::Keyword(_, Some(d)) => f(d),
            _ => {}
        }
    }
    f(&b.body);
}
/// Direct children, those of a nested scope included.
pub fn each_child(n: &Node, f: &mut dyn FnMut(&Node)) {
    use NodeKind::*;
    match &n.kind {
        InterporatedString(v) | Array(v, _) | RegExp(v, _, _) | CompStmt(v) => for x in v { f(x) },
        Command(a) | UnOp(_, a) | Splat(a) | Break(a) | Next(a) | Return(a) | Defined(a) => f(a),
        Range { start, end, .. } => { f(start); f(end) }
        Hash(v, _) => for (a, b) in v { f(a); f(b) },
        Const { parent, .. } => if let Some(p) = parent { f(p) },
        BinOp(_, a, b) | AssignOp(_, a, b) | AliasMethod(a, b) => { f(a); f(b) }
        Index { base, index } => { f(base); for x in index { f(x) } }
        MulAssign(a, b) => { for x in a { f(x) } for x in b { f(x) } }
        If { cond, then_, else_ } => { f(cond); f(then_); f(else_) }
        For { iter, body, .. } => { f(iter); each_block(body, f) }
        While { cond, body, .. } => { f(cond); f(body) }
        Case { cond, when_, else_ } => {
            if let Some(c) = cond { f(c) }
            for b in when_ { for x in &b.when { f(x) } f(&b.body) }
            f(else_)
        }
        Begin { body, rescue, else_, ensure } => {
            f(body);
            for r in rescue { for x in &r.exception_list { f(x) } if let Some(a) = &r.assign { f(a) } f(&r.body) }
            if let Some(x) = else_ { f(x) }
            if let Some(x) = ensure { f(x) }
        }
        Lambda(b) | MethodDef(_, b) => each_block(b, f),
        SingletonMethodDef(a, _, b) => { f(a); each_block(b, f) }
        ClassDef { base, superclass, info, .. } => {
            if let Some(x) = base { f(x) }
            if let Some(x) = superclass { f(x) }
            each_block(info, f)
        }
        SingletonClassDef { singleton, info } => { f(singleton); each_block(info, f) }
        MethodCall { receiver, arglist, .. } => { f(receiver); each_arg(arglist, f) }
        FuncCall { arglist, .. } | Yield(arglist) | Super(Some(arglist)) => each_arg(arglist, f),
        _ => {}
    }
}

/// Every local variable mentioned in `n` must exist in the scope it names.
/// `chain`: tables of the enclosing scopes, innermost last (blocks extend the
/// chain, methods and classes start a new one).
pub fn check_lvars(n: &Node, chain: &[&LvarCollector]) -> Result<(), std::string::String> {
    use NodeKind::*;
    let here = |o: usize, s: &str| -> Result<(), std::string::String> {
        if o >= chain.len() {
            return Err(format!("variable {s} refers to scope {o} of {}", chain.len()));
        }
        let t = chain[chain.len() - 1 - o];
        if !t.table().iter().any(|x| x == s) {
            return Err(format!("variable {s} is not in the table {:?} of scope {o}", t.table()));
        }
        Ok(())
    };
    fn body<'a>(b: &'a BlockInfo, chain: &[&'a LvarCollector], fresh: bool) -> Result<(), std::string::String> {
        let mut c: Vec<&LvarCollector> = if fresh { vec![] } else { chain.to_vec() };
        c.push(&b.lvar);
        dup(&b.lvar)?;
        for p in &b.params {
            let names: Vec<&std::string::String> = match &p.kind {
                ParamKind::Param(s) | ParamKind::Post(s) | ParamKind::KWRest(s) | ParamKind::Block(s) | ParamKind::Optional(s, _) | ParamKind::Keyword(s, _) | ParamKind::Rest(Some(s)) => vec![s],
                ParamKind::Destruct(v) => v.iter().map(|x| &x.0).collect(),
                _ => vec![],
            };
            for s in names {
                if !s.is_empty() && s != "*" && s != "**" && s != "&" && !b.lvar.table().contains(s) {
                    return Err(format!("parameter {s} is not in the table {:?}", b.lvar.table()));
                }
            }
        }
        let mut r = Ok(());
        each_block(b, &mut |x| { if r.is_ok() { r = check_lvars(x, &c) } });
        r
    }
    match &n.kind {
        LocalVar(o, s) => here(*o, s),
        For { param, iter, body: b } => {
            for (o, s) in param { here(*o, s)?; }
            check_lvars(iter, chain)?;
            dup(&b.lvar)?;
            // a `for` body shares the scope it stands in
            check_lvars(&b.body, chain)
        }
        Lambda(b) => body(b, chain, false),
        MethodDef(_, b) => body(b, chain, true),
        SingletonMethodDef(a, _, b) => { check_lvars(a, chain)?; body(b, chain, true) }
        ClassDef { base, superclass, info, .. } => {
            if let Some(x) = base { check_lvars(x, chain)? }
            if let Some(x) = superclass { check_lvars(x, chain)? }
            body(info, chain, true)
        }
        SingletonClassDef { singleton, info } => { check_lvars(singleton, chain)?; body(info, chain, true) }
        _ => {
            let mut r = Ok(());
            each_child(n, &mut |c| { if r.is_ok() { r = check_lvars(c, chain) } });
            r
        }
    }
}
pub fn dup(l: &LvarCollector) -> Result<(), std::string::String> {
    let t = l.table();
    for i in 0..t.len() {
        if !t[i].is_empty() && t[..i].contains(&t[i]) {
            return Err(format!("name {} twice in the table {t:?}", t[i]));
        }
    }
    for k in l.kw.iter().chain(l.kwrest_param().iter()).chain(l.block_param().iter()).chain(l.forwarding_param.iter()) {
        if k.as_usize() >= t.len() {
            return Err(format!("index {} outside the table {t:?}", k.as_usize()));
        }
    }
    Ok(())
}
