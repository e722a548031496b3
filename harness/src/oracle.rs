//! Per-property oracles.
//!
//! A case is a source text, or `source \u{1} expected rendering`.
use crate::{gen, tree, parse, render, sexpr, Ctx, Rng};
use ruruby_parse::*;

thread_local! { static CORPUS: Vec<String> = crate::corpus(); }

pub fn is_fixed(_pid: &str, s: &str) -> bool {
    s.contains('\u{1}')
}
pub fn shrinkable(pid: &str) -> bool {
    ["C01", "C03"].contains(&pid)
}
fn case(s: impl Into<String>, e: impl Into<String>) -> String {
    format!("{}\u{1}{}", s.into(), e.into())
}

pub fn fixed(pid: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    match pid {
        "C01" | "C02" | "C03" => {
            v.extend(CORPUS.with(|c| c.clone()));
            // every prefix and every suffix of the corpus
            for s in CORPUS.with(|c| c.clone()) {
                for (i, _) in s.char_indices() {
                    v.push(s[..i].to_string());
                    v.push(s[i..].to_string());
                }
            }
            for t in gen::TOKENS { v.push(t.to_string()); for u in gen::TOKENS { v.push(format!("{t}{u}")); } }
        }
        _ => {
            for (s, e) in crate::goldens(pid) { v.push(case(s, e)); }
            if pid == "C19" { v.extend(conv_cases()); }
            if pid == "C07" { v.extend(CORPUS.with(|c| c.clone())); }
            if pid == "C10" {
                for a in CORPUS.with(|c| c.clone()) { for b in AFTER { v.push(format!("{a}\u{2}{b}")); } }
            }
        }
    }
    v
}

pub fn generate(pid: &str, rng: &mut Rng) -> String {
    CORPUS.with(|c| match pid {
        "C07" if rng.one_in(3) => { let (s, e) = scoping(rng); case(s, e) }
        "C07" if rng.one_in(2) => { let w = if rng.one_in(2) { tree::W::Params } else { tree::W::All }; of_tree(rng, w) }
        "C05" => numbers(rng),
        "C06" => strings(rng),
        "C08" if rng.one_in(8) => nonassoc(rng),
        "C08" if rng.one_in(20) => next_line(rng),
        "C15" if rng.one_in(5) => run_together(rng),
        "C09" if rng.one_in(4) => disordered(rng),
        "C22" if rng.one_in(3) => spacing(rng),
        "C24" if rng.one_in(6) => refused(rng),
        "C23" if rng.one_in(6) => no_block(rng),
        "C12" if rng.one_in(3) => {
            loop {
                let (s, _) = tree::G::new(rng, tree::W::Closers).program();
                if let Some(s) = tree::damage(rng, &s) { break case(s, "ERR"); }
            }
        }
        "C08" | "C09" | "C12" | "C15" | "C22" | "C23" | "C24" => of_tree(rng, kind(pid)),
        "C10" if rng.one_in(2) => of_tree(rng, tree::W::Nest),
        "C20" if rng.one_in(3) => of_tree(rng, tree::W::All),
        "C01" | "C03" if rng.one_in(3) => { let s = of_tree(rng, tree::W::All); let s = s.split('\u{1}').next().unwrap_or("").to_string(); gen::mutate(rng, &[s], 0) }
        "C19" => format!("conv:{}", match rng.below(4) { 0 => rng.next() as i64, 1 => rng.next() as u32 as i64, 2 => rng.next() as i32 as i64, _ => (1i64 << rng.below(63)) + rng.below(7) as i64 - 3 }),
        "C20" => backtrack(rng),
        "C10" => {
            let mut a = gen::mutate(rng, c, 1);
            for _ in 0..6 { if std::panic::catch_unwind(|| parse(&a).is_ok()).unwrap_or(false) { break; } a = gen::mutate(rng, c, 1) }
            format!("{a}\u{2}{}", rng.pick(AFTER))
        }
        _ => gen::mutate(rng, c, 0),
    })
}

pub fn check(pid: &str, s: &str) -> Result<(), String> {
    if let Some((src, exp)) = s.split_once('\u{1}') {
        let got = render(src);
        if exp == "ERR" {
            return if got.starts_with("ERR") { Ok(()) } else { Err(format!("accepted as {got}")) };
        }
        if got != exp { return Err(format!("expected {exp} but got {got}")); }
        return Ok(());
    }
    if let Some((a, b)) = s.split_once('\u{4}') {
        let (x, y) = (render(a), render(b));
        let same = x == y || x.starts_with("ERR") && y.starts_with("ERR");
        return if same { Ok(()) } else { Err(format!("read as {x}, but set apart as {y}")) };
    }
    match pid {
        "C01" => {
            let _ = parse(s);
            let ctx = Ctx(vec![("a".into(), 0), ("foo".into(), 1), ("x".into(), 2)]);
            let _ = Parser::parse_program_eval(s.to_string(), "t.rb".into(), Some(&ctx));
            let mut l = LvarCollector::new();
            l.insert("x");
            l.insert("b");
            let r = Parser::parse_program_binding(s.to_string(), "t.rb".into(), Some(l), Some(&ctx));
            if let Ok(r) = r {
                // the collector of one evaluation is handed to the next one
                let _ = Parser::parse_program_binding(s.to_string(), "t.rb".into(), Some(r.lvar_collector), Some(&ctx));
            }
            Ok(())
        }
        "C02" => {
            let t0 = std::time::Instant::now();
            let _ = parse(s);
            let ms = t0.elapsed().as_millis();
            if ms > 20_000 { Err(format!("{ms} ms for {} bytes", s.len())) } else { Ok(()) }
        }
        "C03" => {
            let ok = |l: Loc, what: &str| -> Result<(), String> {
                if l.0 <= l.1 && l.1 <= s.len() && s.is_char_boundary(l.0) { Ok(()) } else { Err(format!("{what} location {}..{} of a source of {} bytes", l.0, l.1, s.len())) }
            };
            match parse(s) {
                Ok(r) => {
                    let mut v = vec![];
                    sexpr::locs(&r.node, &mut v);
                    for (l, w) in v { ok(l, w)?; }
                    if let Some(l) = r.lvar_collector.numbered_param { ok(l, "numbered parameter")?; }
                    Ok(())
                }
                Err(e) => ok(e.loc, "error"),
            }
        }
        "C07" => {
            if let Ok(r) = parse(s) {
                sexpr::dup(&r.lvar_collector)?;
                sexpr::check_lvars(&r.node, &[&r.lvar_collector])?;
            }
            Ok(())
        }
        "C10" => {
            let (a, b) = match s.split_once('\u{2}') { Some(x) => x, None => return Ok(()) };
            after(a, b)
        }
        "C19" => match s.strip_prefix("conv:").and_then(|n| n.parse::<i64>().ok()) { Some(i) => conversions(i), None => Ok(()) },
        "C20" => match s.split_once('\u{3}') { Some((a, b)) => same_tokens(a, b), None => Ok(()) },
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- C19
fn conv_cases() -> Vec<String> {
    let mut v: Vec<i64> = (-3..300).collect();
    for k in 0..63 { for d in -3i64..4 { v.push((1i64 << k).wrapping_add(d)); v.push((-(1i64 << k)).wrapping_add(d)); } }
    v.extend([i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]);
    v.into_iter().map(|i| format!("conv:{i}")).collect()
}
/// Every public conversion at the integer `i`.
fn conversions(i: i64) -> Result<(), String> {
    let n = Node { kind: NodeKind::Integer(i), loc: Loc(0, 0) };
    let (u, s) = (n.is_imm_u32(), n.is_imm_i32());
    if u.map(|x| x as i64) != if (0..=0xffff_ffffi64).contains(&i) { Some(i) } else { None } { return Err(format!("is_imm_u32 of {i} is {u:?}")); }
    if s.map(|x| x as i64) != if (-0x8000_0000..=0x7fff_ffffi64).contains(&i) { Some(i) } else { None } { return Err(format!("is_imm_i32 of {i} is {s:?}")); }
    for k in [NodeKind::Float(i as f64), NodeKind::Nil, NodeKind::SelfValue, NodeKind::Bool(i & 1 == 0), NodeKind::Bignum(i.into()), NodeKind::String(i.to_string())] {
        let m = Node { kind: k.clone(), loc: Loc(0, 0) };
        if m.is_imm_u32().is_some() || m.is_imm_i32().is_some() { return Err(format!("{k:?} passes for an immediate integer")); }
    }
    if i >= 0 {
        let k = i as usize;
        let id = LvarId::from(k);
        if id.as_usize() != k { return Err(format!("LvarId::from({k}usize).as_usize() is {}", id.as_usize())); }
        if usize::from(id) != k { return Err(format!("usize::from(LvarId::from({k})) is {}", usize::from(id))); }
        if k <= u32::MAX as usize {
            let w = LvarId::from(k as u32);
            if w != id || w.as_usize() != k || id.as_u32() != k as u32 { return Err(format!("LvarId of {k}u32 is {w:?}, as_u32 {}", id.as_u32())); }
        }
    }
    if (0..=6).contains(&i) {
        let k = CmpKind::from(i as u8);
        let name = ["==", "!=", "<", "<=", ">", ">=", "==="][i as usize];
        if k as i64 != i || format!("{k:?}") != name { return Err(format!("CmpKind::from({i}) is {k:?} with the code {}", k as i64)); }
    }
    if i.unsigned_abs() < 1 << 62 && i >= 0 {
        // the same through a literal of the source
        for (src, e) in [(format!("{i}"), i), (format!("-{i}"), -i)] {
            if let Ok(r) = parse(&src) {
                if let NodeKind::Integer(j) = r.node.kind {
                    if j != e || r.node.is_imm_i32().map(|x| x as i64) != Some(e).filter(|e| (-0x8000_0000..=0x7fff_ffffi64).contains(e)) { return Err(format!("the literal {src} is {j}, immediate {:?}", r.node.is_imm_i32())); }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20
/// Two texts whose trees may differ only when an abandoned reading left
/// something behind: `a` is read once, `b` first as something else.
fn backtrack(rng: &mut Rng) -> String {
    let d = rng.below(3);
    let e = expr(rng, d);
    let n = *rng.pick(&["2", "2.5", "10", "123456789012345678901", "0x1f", "1_000"]);
    match rng.below(6) {
        0 | 1 => format!("h = [{e}, 1]; z\u{3}h = {{ {e} => 1 }}; z"),
        2 => format!("h = [{e}, 1]; z\u{3}h = {{ {e}\n=> 1 }}; z"),
        3 => format!("y = -({n} ** ({e})); z\u{3}y = -{n} ** ({e}); z"),
        4 => format!("y = x + (-({n} ** ({e}))); z\u{3}y = x + -{n} ** ({e}); z"),
        _ => format!("y = -{n}; z = ({e})\u{3}y = -{n}\nz = ({e})"),
    }
}
fn expr(rng: &mut Rng, d: usize) -> String {
    const A: &[&str] = &["a", "b", "foo", "A", "self", "nil", "true", "x1", "foo?", "bar!", "@v", "$g", "1", "\"s\"", "2.5"];
    if d > 3 || rng.one_in(4) { return rng.pick(A).to_string(); }
    let x = expr(rng, d + 1);
    let y = expr(rng, d + 1);
    match rng.below(16) {
        0 => format!("{x} - {y}"),
        1 => format!("{x} + {y}"),
        2 => format!("{x}.m"),
        3 => format!("{x}.m({y})"),
        4 => format!("foo({x}, {y})"),
        5 => format!("[{x}, {y}]"),
        6 => format!("{{ {x} => {y} }}"),
        7 => format!("({x} ? {y} : {x})"),
        8 => format!("{x} && {y}"),
        9 => format!("-2 ** {x}"),
        10 => format!("\"#{{{x}}}t\""),
        11 => format!("foo[{x}]"),
        12 => format!("{x} * -3 ** 2"),
        13 => format!("{{ k: {x} }}"),
        14 => format!("if {x} then ({y}) end"),
        _ => format!("{x} == {y}"),
    }
}
fn same_tokens(a: &str, b: &str) -> Result<(), String> {
    let f = |s: &str| -> Option<String> {
        let r = parse(s).ok()?;
        Some(sexpr::node(&r.node))
    };
    let x = match f(a) { Some(x) => x, None => return Ok(()) };
    // the hash and the array with the same parts
    let norm = |s: String| s.replace(" const", "").replace("=>", " ").replace("(hash ", "[").replace(')', "").replace(']', "").replace('(', "").replace('[', "");
    match f(b) {
        Some(y) if norm(y.clone()) == norm(x.clone()) => Ok(()),
        Some(y) => Err(format!("`{b}` reads as {y}, but `{a}` as {x}")),
        None => Err(format!("`{b}` is rejected, but `{a}` reads as {x}")),
    }
}

// ---------------------------------------------------------------- C10
/// Statements whose reading would be disturbed by state left behind.
pub const AFTER: &[&str] = &[
    "zz1 = 1, 2", "zz1, zz2 = 3, 4", "zz1 = 5", "zzf zz2 do |zz3| zz3 end", "while zzc do zzd end", "break", "next", "redo", "zzg { break }", "zzg do next 1 end", "while zzc do redo end", "def zzm; zz9 = 1; zz9; end",
    "class ZZ; end", "zz1 zz2, zz3", "zzh[1] = 2", "zzg { |zz4; zz5| zz4 = zz5 }", "zza ? zzb : zzc", "zzg { _1 }", "zz6 = zzf 1 do 2 end", "[*zz7]", "zzx rescue zzy", "zza.zzb = 1, 2", "return", "(zz1 = 1; zz2)", "def zzn(zz8 = (zz9 = 1), *zz10); break; end", "while zzx = 1 do end", "until (zzg do zz1 end) do end",
];
fn stmts(n: &Node) -> Vec<String> {
    match &n.kind {
        NodeKind::CompStmt(v) => v.iter().map(sexpr::node).collect(),
        _ => vec![sexpr::node(n)],
    }
}
fn after(a: &str, b: &str) -> Result<(), String> {
    // texts after which a new line does not start a new statement
    let t = a.trim_end();
    if a.contains("__END__") || a.contains("=begin") || t.ends_with('\\') || t.ends_with("..") || a.contains('\u{0}') || a.contains("zz") || (1..=9).any(|k| a.contains(&format!("_{k}"))) || a.contains('\u{4}') || a.contains('\u{1a}') { return Ok(()); }
    let ra = match parse(a) { Ok(r) => r, Err(_) => return Ok(()) };
    let _ = ra;
    let rb = parse(&format!("nil\n{b}"));
    let both = parse(&format!("nil\n{a}\n{b}"));
    match (rb, both) {
        (Err(_), Ok(_)) => Err(format!("`{b}` is rejected on its own but accepted after another statement")),
        (Ok(_), Err(e)) => Err(format!("`{b}` is accepted on its own but rejected after a complete statement: {:?}", e.kind)),
        (Ok(x), Ok(y)) => {
            let (x, y) = (stmts(&x.node)[1..].to_vec(), stmts(&y.node));
            if y.ends_with(&x) { Ok(()) } else { Err(format!("`{b}` reads as {x:?} on its own but the program ends with {:?}", y.last())) }
        }
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- C07
/// A program over nested scopes together with its expected rendering.
struct Sc { kind: u8, names: Vec<String> } // 0 fresh, 1 block, 2 for
fn scoping(rng: &mut Rng) -> (String, String) {
    let mut st = vec![Sc { kind: 0, names: vec![] }];
    let mut budget = 4 + rng.below(12);
    let (s, e) = body(rng, &mut st, &mut budget, 0);
    (s, format!("<{}> {e}", st[0].names.join(",")))
}
const NAMES: &[&str] = &["a", "b", "c", "dd", "e1", "x"];
fn find(st: &[Sc], n: &str) -> Option<usize> {
    let mut o = 0;
    for c in st.iter().rev() {
        if c.names.iter().any(|x| x == n) { return Some(o); }
        match c.kind { 1 => o += 1, 2 => {} _ => return None }
    }
    None
}
fn assign(st: &mut Vec<Sc>, n: &str) -> usize {
    if let Some(o) = find(st, n) { return o; }
    for c in st.iter_mut().rev() { if c.kind != 2 { c.names.push(n.to_string()); return 0; } }
    0
}
fn body(rng: &mut Rng, st: &mut Vec<Sc>, budget: &mut usize, depth: usize) -> (String, String) {
    let n = 1 + rng.below(4);
    let (mut s, mut e) = (vec![], vec![]);
    for _ in 0..n {
        let (x, y) = stmt(rng, st, budget, depth);
        s.push(x);
        e.push(y);
    }
    (s.join(if rng.one_in(2) { "; " } else { "\n" }), if e.len() == 1 { e.pop().unwrap() } else { format!("(do {})", e.join(" ")) })
}
fn read(st: &[Sc], n: &str) -> String {
    match find(st, n) { Some(o) => format!("lvar{o}:{n}"), None => format!("ident:{n}") }
}
fn stmt(rng: &mut Rng, st: &mut Vec<Sc>, budget: &mut usize, depth: usize) -> (String, String) {
    let n = *rng.pick(NAMES);
    if *budget == 0 || depth > 4 || rng.one_in(3) {
        return match rng.below(6) {
            0 => (n.to_string(), read(st, n)),
            1 => { let v = *rng.pick(NAMES); let r = if v == n && find(st, n).is_none() { None } else { Some(read(st, v)) };
                match r { Some(r) => { let o = assign(st, n); (format!("{n} = {v}"), format!("(= (lvar{o}:{n}) ({r}))")) } None => { let o = assign(st, n); (format!("{n} = 7"), format!("(= (lvar{o}:{n}) (7))")) } } }
            2 => { let m = *rng.pick(NAMES); if m == n { return (n.to_string(), read(st, n)); } let o = assign(st, n); let p = assign(st, m); (format!("{n}, {m} = 1, 2"), format!("(= (lvar{o}:{n} lvar{p}:{m}) (1 2))")) }
            3 => (format!("\"#{{{n}}}\""), format!("(dstr {})", read(st, n))),
            _ => { let o = assign(st, n); (format!("{n} = 1"), format!("(= (lvar{o}:{n}) (1))")) }
        };
    }
    *budget -= 1;
    match rng.below(9) {
        0 | 1 => {
            // block
            let p: Vec<&str> = if rng.one_in(2) { vec![n] } else { vec![] };
            st.push(Sc { kind: 1, names: p.iter().map(|x| x.to_string()).collect() });
            let (s, e) = body(rng, st, budget, depth + 1);
            let t = st.pop().unwrap().names.join(",");
            let head = if p.is_empty() { String::new() } else { format!("|{n}| ") };
            let ps = if p.is_empty() { String::new() } else { format!("req:{n}") };
            if rng.one_in(2) { (format!("foo {{ {head}{s} }}"), format!("(fcall foo  &(lambda {{|{ps}| <{t}> {e}}}))")) } else { (format!("foo do {head}{s}\nend"), format!("(fcall foo  &(lambda {{|{ps}| <{t}> (begin {e} - -)}}))")) }
        }
        2 => {
            st.push(Sc { kind: 1, names: vec![n.to_string()] });
            let (s, e) = body(rng, st, budget, depth + 1);
            let t = st.pop().unwrap().names.join(",");
            (format!("->({n}) {{ {s} }}"), format!("(lambda {{|req:{n}| <{t}> {e}}})"))
        }
        3 | 4 => {
            st.push(Sc { kind: 0, names: vec![n.to_string()] });
            let (s, e) = body(rng, st, budget, depth + 1);
            let t = st.pop().unwrap().names.join(",");
            (format!("def m({n})\n{s}\nend"), format!("(def m {{|req:{n}| <{t}> (begin {e} - -)}})"))
        }
        5 => {
            st.push(Sc { kind: 0, names: vec![] });
            let (s, e) = body(rng, st, budget, depth + 1);
            let t = st.pop().unwrap().names.join(",");
            (format!("class << self\n{s}\nend"), format!("(sclass self {{|| <{t}> (begin {e} - -)}})"))
        }
        6 | 7 => {
            let o = assign(st, n);
            let it = read(st, "x");
            st.push(Sc { kind: 2, names: vec![] });
            let (s, e) = body(rng, st, budget, depth + 1);
            st.pop();
            (format!("for {n} in x\n{s}\nend"), format!("(for [({o}, {n:?})] {it} {{|| <> {e}}})"))
        }
        _ => {
            let c = read(st, n);
            let (s, e) = body(rng, st, budget, depth + 1);
            (format!("if {n}\n{s}\nend"), format!("(if {c} {e} (do ))"))
        }
    }
}

/// the generator of a property
pub fn kind(pid: &str) -> crate::tree::W {
    use crate::tree::W;
    match pid { "C08" => W::Ops, "C09" => W::Params, "C12" => W::Closers, "C15" => W::Tokens, "C22" => W::Command, "C23" => W::Do, "C24" => W::Assign, "C10" => W::Nest, _ => W::All }
}

fn of_tree(rng: &mut Rng, w: tree::W) -> String {
    let (s, e) = tree::G::new(rng, w).program();
    case(s.replace(tree::MARK, ""), e)
}

// ---------------------------------------------------------------- C08
/// Comparisons for equality and ranges do not chain.
fn nonassoc(rng: &mut Rng) -> String {
    let a = |rng: &mut Rng| -> String {
        let x = *rng.pick(&["a", "@v", "1", "K", "nil", ":s", "foo"]);
        match rng.below(4) { 0 => format!("{x} + 2"), 1 => format!("({x} == 3)"), 2 => format!("{x} < b"), _ => x.to_string() }
    };
    let (x, y, z) = (a(rng), a(rng), a(rng));
    if rng.one_in(4) {
        let (o, p) = (*rng.pick(&["..", "..."]), *rng.pick(&["..", "..."]));
        return case(format!("{x} {o} {y} {p} {z}"), "ERR");
    }
    let ops = ["==", "!=", "===", "=~", "!~", "<=>"];
    let (o, p) = (*rng.pick(&ops), *rng.pick(&ops));
    case(format!("{x} {o} {y} {p} {z}"), "ERR")
}

/// An operator at the start of a line does not continue the line before.
fn next_line(rng: &mut Rng) -> String {
    let x = *rng.pick(&["a", "@v", "1", "K", "nil", ":s", "(2)", "f(1)", "@v + 2"]);
    let o = *rng.pick(&["**", "*", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "===", "=~", "!~", "<=>", "&&", "||", "=", "+=", "&&=", "and", "or", "=>", ","]);
    let g = *rng.pick(&["\n", "\n  ", " # c\n"]);
    let y = *rng.pick(&["@w", "(3)", "4", "K"]);
    let s = format!("{x}{g}{o} {y}");
    let s = match rng.below(4) { 0 => format!("({s})"), 1 => format!("if 1\n{s}\nend"), 2 => format!("foo {{ {s} }}"), _ => s };
    case(s, "ERR")
}

// ---------------------------------------------------------------- C15
const SIGNS: &[&str] = &["+", "-", "*", "**", "/", "%", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "===", "=~", "!~", "<=>", "&&", "||", "!", "~", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^=", "&&=", "||=",
    "(", ")", "[", "]", "{", "}", ",", ";", "..", "...", ".", "&.", "::", "=>", "->", "@v", "@w", "1", "$g", "@@c"];
/// Signs written without spaces mean what they mean when the longest ones are
/// set apart.
fn run_together(rng: &mut Rng) -> String {
    let mut w: Vec<&str> = vec![];
    let n = 1 + rng.below(3);
    let mut s = String::new();
    for i in 0..=n {
        if i > 0 {
            for j in 0..1 + rng.below(2) {
                let k = if rng.one_in(3) { 51 } else { 38 };
                let x = *rng.pick(&SIGNS[..k]);
                // where an operand starts these open a literal
                if ![".", "&.", "::"].contains(&x) && (j == 0 || !x.starts_with(&['%', '/'][..]) && !x.starts_with("<<")) { w.push(x); }
            }
        }
        w.push(rng.pick(&["@v", "@w", "1", "$g", "@@c"]));
    }
    s.extend(w.iter().copied());
    // the longest signs, from the left
    let mut out: Vec<String> = vec![];
    let mut r = &s[..];
    while !r.is_empty() {
        let k = SIGNS.iter().filter(|x| r.starts_with(**x)).map(|x| x.len()).max().unwrap_or(1);
        let word = |c: char| c.is_alphanumeric() || c == '_';
        let k = if r[..k].ends_with(word) { r.char_indices().skip(1).skip_while(|(i, c)| *i < k || word(*c)).map(|x| x.0).next().unwrap_or(r.len()) } else { k };
        out.push(r[..k].to_string());
        r = &r[k..];
    }
    format!("{s}\u{4}{}", out.join(" "))
}

// ---------------------------------------------------------------- C09
/// A parameter list that is out of order or names something twice.
fn disordered(rng: &mut Rng) -> String {
    // the position of a kind in a parameter list
    let text = |rng: &mut Rng, k: u8, n: &str| -> String {
        match k {
            0 => n.to_string(),
            1 => format!("{n} = {}", rng.pick(&["1", "nil", "@v", "(2)"])),
            2 => format!("*{n}"),
            3 => n.to_string(),
            4 => if rng.one_in(2) { format!("{n}:") } else { format!("{n}: {}", rng.pick(&["1", "nil", "@v"])) },
            5 => format!("**{n}"),
            6 => format!("&{n}"),
            _ => format!("({n}, {n}x)"),
        }
    };
    let mut ks: Vec<u8> = vec![];
    for _ in 0..rng.below(3) { ks.push(0); }
    if rng.one_in(2) { ks.push(1); }
    if rng.one_in(2) { ks.push(2); }
    if ks.iter().any(|k| *k > 0) && rng.one_in(2) { ks.push(3); }
    if rng.one_in(2) { ks.push(4); }
    if rng.one_in(2) { ks.push(5); }
    if rng.one_in(2) { ks.push(6); }
    let mut names: Vec<String> = (0..12).map(|i| format!("p{i}")).collect();
    if rng.one_in(2) {
        // out of order: something is put behind a kind that has to come later
        let (later, early) = *rng.pick(&[(2u8, 1u8), (2, 2), (3, 1), (3, 2), (4, 0), (4, 1), (4, 2), (4, 7), (5, 0), (5, 1), (5, 2), (5, 4), (5, 5), (5, 7), (6, 0), (6, 4), (6, 6), (6, 2), (6, 5)]);
        ks.retain(|k| *k < later.min(4));
        if later == 3 { ks.retain(|k| *k < 2); ks.push(if rng.one_in(2) { 1 } else { 2 }); }
        if later < 6 || early != 6 { ks.push(later); } else { ks.push(6); }
        ks.push(early);
    } else {
        while ks.len() < 2 { ks.insert(0, 0); }
        let (i, j) = { let i = rng.below(ks.len() - 1); (i, i + 1 + rng.below(ks.len() - 1 - i)) };
        names[j] = names[i].clone();
    }
    let l: Vec<String> = ks.iter().enumerate().map(|(i, k)| text(rng, *k, &names[i])).collect();
    let l = l.join(", ");
    let s = match rng.below(4) {
        0 => format!("def m({l})\nend"),
        1 => format!("def m {l}\nend"),
        2 => format!("a {{ |{l}| 1 }}"),
        _ => format!("->({l}) {{ 1 }}"),
    };
    case(s, "ERR")
}

// ---------------------------------------------------------------- C22
/// A name, the spaces around a sign and an operand: a call, or an operation.
fn spacing(rng: &mut Rng) -> String {
    let gap = *rng.pick(&[" ", " ", "  ", "\t", " \\\n"]);
    let xs = &[("@w", "ivar:@w"), ("1", "1"), ("$g", "gvar:$g"), ("(2)", "2"), ("K", "(const K)"), ("'s'", "\"s\""), ("2.5", "f:2.5")];
    let bin = |rng: &mut Rng, h: &str, he: &str| -> (String, String) {
        let (x, xe) = *rng.pick(xs);
        let o = *rng.pick(&["-", "+", "*", "/", "%", "&", "<<", "|", "^", "**", ">>", "<", ">=", "==", "=~", "<=>", "&&", "||"]);
        let br = *rng.pick(&[" ", "\n", "  "]);
        let s = match rng.below(3) {
            // a space before it and none after it opens an argument
            0 => format!("{h}{gap}{o}{br}{x}"),
            1 => format!("{h}{o}{br}{x}"),
            _ => format!("{h}{o}{x}"),
        };
        (s, format!("({o} {he} {xe})"))
    };
    // what is called on the value of a block
    if rng.one_in(8) {
        let (a, ae) = *rng.pick(&[("", ""), ("(1)", "1"), ("(@w, 2)", "ivar:@w 2"), ("(*@w)", "*ivar:@w !splat")]);
        let y = format!("(yield {ae})");
        let (t, te) = match rng.below(6) {
            0 => (format!("yield{a}.foo"), format!("(call {y}.foo )")),
            1 => (format!("yield{a}&.foo(3)"), format!("(call {y}&.foo 3)")),
            2 => (format!("yield{a}[3]"), format!("(index {y} 3)")),
            3 => (format!("yield{a}::K"), format!("(const {y} K)")),
            4 => (format!("yield{a}\n.foo @w"), format!("(call {y}.foo ivar:@w)")),
            _ => (format!("yield{a}.foo.bar"), format!("(call (call {y}.foo ).bar )")),
        };
        return case(format!("@q = {t}"), format!("<> (= (ivar:@q) ({te}))"));
    }
    // local variables, at a distance
    if rng.one_in(3) {
        let k = rng.below(6);
        let o = match k { 0 | 1 => 0, 2 | 3 => 1, 4 => 0, _ => 2 };
        let he = format!("lvar{o}:v");
        let (b, be) = match rng.below(5) {
            0 => bin(rng, "v", &he),
            1 => (format!("v{gap}[1]"), format!("(index {he} 1)")),
            2 => (format!("v{gap}::K"), format!("(const {he} K)")),
            3 => (format!("v{gap}{}", rng.pick(&["1", "@w", "'s'", "nil", ":a", "!@w", "K", "b", "2.5", "self"])), "ERR".to_string()),
            _ => {
                let (x, xe) = *rng.pick(&xs[..6]);
                let o = *rng.pick(&["-", "+", "*", "/", "%", "&", "<<"]);
                (format!("v{gap}{o}{x}"), format!("({o} {he} {xe})"))
            }
        };
        let (s, e) = match k {
            0 => (format!("v = 1\n{b}"), format!("<v> (do (= (lvar0:v) (1)) {be})")),
            1 => (format!("def m(v)\n{b}\nend"), format!("<> (def m {{|req:v| <v> (begin {be} - -)}})")),
            2 => (format!("v = 1\nf {{ {b} }}"), format!("<v> (do (= (lvar0:v) (1)) (fcall f  &(lambda {{|| <> {be}}})))")),
            3 => (format!("f {{ |v| g {{ {b} }} }}"), format!("<> (fcall f  &(lambda {{|req:v| <v> (fcall g  &(lambda {{|| <> {be}}}))}}))")),
            4 => (format!("f {{ |v| {b} }}"), format!("<> (fcall f  &(lambda {{|req:v| <v> {be}}}))")),
            _ => (format!("v = 1\nf {{ g {{ {b} }} }}"), format!("<v> (do (= (lvar0:v) (1)) (fcall f  &(lambda {{|| <> (fcall g  &(lambda {{|| <> {be}}}))}})))")),
        };
        return case(s, if be == "ERR" { be } else { e });
    }
    let heads = &[("foo", "(fcall foo ", "ident:foo"), ("@v.foo", "(call ivar:@v.foo ", "(call ivar:@v.foo )"), ("@v&.foo", "(call ivar:@v&.foo ", "(call ivar:@v&.foo )"), ("K", "(fcall K ", "(const K)"),
        ("super", "(super ", "super"), ("yield", "(yield ", "(yield )"), ("self.bar", "(call self.bar ", "(call self.bar )"), ("foo.bar", "(call ident:foo.bar ", "(call (fcall foo ).bar )"), ("foo?", "(fcall foo? ", "ident:foo?"), ("@v.Foo", "(call ivar:@v.Foo ", "(call ivar:@v.Foo )"), ("foo(1).bar", "(call (fcall foo 1).bar ", "(call (fcall foo 1).bar )")];
    let (h, hc, hb) = *rng.pick(heads);
    let (b, be) = if rng.one_in(3) {
        if rng.one_in(4) { (format!("{h}[1]"), format!("(index {hb} 1)")) } else if rng.one_in(6) && h != "super" && !h.ends_with('?') && h != "K" && h != "foo.bar" {
            (format!("{h}(1) + 2"), format!("(+ {hc}1) 2)"))
        } else { bin(rng, h, hb) }
    } else {
        let args: &[(&str, &str)] = &[("-1", "-1"), ("+1", "(+@ 1)"), ("-@w", "(-@ ivar:@w)"), ("*@w", "*ivar:@w !splat"), ("&@w", " &ivar:@w"), ("~@w", "(~ ivar:@w)"), ("**@w", " **ivar:@w"), ("[1]", "[1 const]"), ("::K", "(const :: K)"), ("%w(a b)", "[\"a\" \"b\" const]"),
            ("/x/", "(regexp \"x\" \"m\" const)"), (":a", ":\"a\""), ("!@w", "(! ivar:@w)"), ("->{ 1 }", "(lambda {|| <> 1})"), ("1", "1"), ("2.5", "f:2.5"), ("@w", "ivar:@w"), ("$g", "gvar:$g"), ("'s'", "\"s\""), ("\"s\"", "\"s\""), ("nil", "nil"), ("self", "self"),
            ("b", "ident:b"), ("L", "(const L)"), ("(1)", "1"), ("(1) + 2", "(+ 1 2)"), ("[1][0]", "(index [1 const] 0)"), ("@@c", "cvar:@@c"), ("true", "true"), ("-1 + 2", "(+ -1 2)"), ("*@w, 3", "*ivar:@w 3 !splat"), ("[1], -2", "[1 const] -2"), ("b.c", "(call (fcall b ).c )"), ("yield", "(yield )"), ("12345678901234567890", "big:12345678901234567890")];
        let (a, ae) = *rng.pick(args);
        (format!("{h}{gap}{a}"), format!("{hc}{ae})"))
    };
    let (s, e) = match rng.below(8) {
        0 => (format!("({b})"), format!("<> {be}")),
        1 => (format!("f {{ {b} }}"), format!("<> (fcall f  &(lambda {{|| <> {be}}}))")),
        2 => (format!("def m\n{b}\nend"), format!("<> (def m {{|| <> (begin {be} - -)}})")),
        3 => (format!("@q = {b}"), format!("<> (= (ivar:@q) ({be}))")),
        4 => (format!("{b} if 3"), format!("<> (if 3 {be} (do ))")),
        5 => (format!("3\n{b}\n4"), format!("<> (do 3 {be} 4)")),
        _ => (b, format!("<> {be}")),
    };
    case(s, e)
}

// ---------------------------------------------------------------- C23
/// A block where no call can take it: at the start of a line, after what is no
/// call, after a call that has one.
fn no_block(rng: &mut Rng) -> String {
    let b = *rng.pick(&["do end", "do 1 end", "do |q| q end", "do\n2\nend"]);
    let call = *rng.pick(&["foo", "foo()", "foo(1)", "foo 1", "@v.foo", "@v.foo(1)", "@v.foo 1", "@v&.foo", "foo @w, 2", "foo(*@v)", "foo?", "@v.foo!", "super(1)", "super 1", "self.foo", "foo.bar", "foo[1].bar", "K.new", "@w = foo", "1 + foo(2)"]);
    let other = *rng.pick(&["1", "@v", "'s'", "[1]", "(1)", "nil", "self", "$g", "2.5", ":s", "->{ }", "-> do end", "{ }", "@v[1]", "foo[1]", "@v + 1", "@v.foo[1]", "@v = 2", "def f; end", "begin; end", "if @v; end", "case @v; when 1; end"]);
    let a = match rng.below(4) {
        0 | 1 => format!("{call}{}{b}", rng.pick(&["\n", "\n  ", ";", " # c\n"])),
        2 => format!("{other} {b}"),
        _ => {
            let h = *rng.pick(&["foo", "foo()", "foo(1)", "@v.foo", "@v.foo(1)", "foo.bar", "super(1)", "self.foo"]);
            format!("{h} {} {}", rng.pick(&["{ }", "{ 1 }", "do end", "do |q| 1 end", "{ |q| 2 }"]), rng.pick(&["do end", "{ }", "{ |z| 1 }", "do |z| 2 end"]))
        }
    };
    let s = match rng.below(6) {
        0 => format!("({a})"),
        1 => format!("g {{ {a} }}"),
        2 => format!("def m\n{a}\nend"),
        3 => format!("if 1\n{a}\nend"),
        4 => format!("while 1 do\n{a}\nend"),
        _ => a,
    };
    case(s, "ERR")
}

// ---------------------------------------------------------------- C24
/// What is not assignable, as a target of every form of assignment.
fn refused(rng: &mut Rng) -> String {
    let (x, place) = if rng.one_in(3) {
        // a constant in a method
        (*rng.pick(&["A", "@v::A", "A"]), 1 + rng.below(4))
    } else {
        (*rng.pick(&["1", "'s'", ":s", "nil", "self", "true", "[1]", "(@v + 1)", "foo(1)", "@v.foo(1)", "foo?", "foo!", "@v.foo?", "@v.foo!", "2.5", "\"a\"", "super", "foo { }", "@v.foo { }", "->{ }", "{ }", "(1; 2)", "%w(a)", "/x/"]), rng.below(7))
    };
    let x = if x == "@v::A" { "A" } else { x };
    let a = match rng.below(7) {
        0 | 1 => format!("{x} = 2"),
        2 => format!("{x}, @w = 1, 2"),
        3 => format!("@w, {x} = 1, 2"),
        4 => format!("@w, *{x} = 1, 2"),
        5 => format!("*{x}, @w = 1, 2"),
        _ => format!("@w = {x} = 2"),
    };
    let s = match place {
        0 => a,
        1 => format!("def f\n{a}\nend"),
        2 => format!("def f\ng {{ {a} }}\nend"),
        3 => format!("def f\nfor i in @v\n{a}\nend\nend"),
        4 => format!("def self.f\n1\nif @v\n[1].each do |q|\n{a}\nend\nend\nend"),
        5 => format!("g {{ {a} }}"),
        _ => format!("if @v\n{a}\nend"),
    };
    case(s, "ERR")
}

// ---------------------------------------------------------------- C05
/// The digits of `d` (to the base `r`) as decimal text, by long multiplication.
fn decimal(d: &[u32], r: u32) -> String {
    let mut v: Vec<u32> = vec![0];
    for x in d {
        let mut carry = *x;
        for c in v.iter_mut() {
            let n = *c * r + carry;
            *c = n % 10;
            carry = n / 10;
        }
        while carry > 0 { v.push(carry % 10); carry /= 10; }
    }
    v.iter().rev().map(|c| char::from_digit(*c, 10).unwrap()).collect()
}
fn int_text(dec: &str, neg: bool) -> String {
    let dec = if neg && dec != "0" { format!("-{dec}") } else { dec.to_string() };
    match dec.parse::<i64>() { Ok(_) => dec, Err(_) => format!("big:{dec}") }
}
fn digits(rng: &mut Rng, r: u32) -> Vec<u32> {
    let n = match rng.below(4) { 0 => 1 + rng.below(3), 1 => 1 + rng.below(12), 2 => [8, 15, 16, 17, 18, 19, 20, 21, 22, 62, 63, 64, 65][rng.below(13)], _ => 1 + rng.below(90) };
    let edge = rng.below(6);
    (0..n).map(|i| match edge { 0 => r - 1, 1 => if i == 0 { 1 } else { 0 }, 2 => if i == 0 { r / 2 } else { 0 }, _ => rng.below(r as usize) as u32 }).collect()
}
fn spelt(rng: &mut Rng, d: &[u32], r: u32) -> String {
    let up = rng.one_in(2);
    let us = rng.one_in(3);
    let mut s = String::new();
    for (i, x) in d.iter().enumerate() {
        if i > 0 && us && rng.one_in(4) { s.push('_'); }
        let c = char::from_digit(*x, r).unwrap();
        s.push(if up { c.to_ascii_uppercase() } else { c });
    }
    s
}
/// A number literal in some place, with its value.
fn numbers(rng: &mut Rng) -> String {
    let mut neg = rng.one_in(3);
    let dec = |rng: &mut Rng| {
        // around the ends of the 64-bit range, powers of ten, anything
        let s: String = match rng.below(4) {
            0 => { let k = (1i128 << *rng.pick(&[31, 32, 52, 53, 62, 63, 64])) + rng.below(5) as i128 - 2; k.to_string() }
            _ => { let d = digits(rng, 10); let d = decimal(&d, 10); let t = d.trim_start_matches('0'); if t.is_empty() { "0".to_string() } else { t.to_string() } }
        };
        s.chars().map(|c| c.to_digit(10).unwrap()).collect::<Vec<u32>>()
    };
    let (text, val) = match rng.below(8) {
        0 | 1 => { let d = dec(rng); (spelt(rng, &d, 10), int_text(&decimal(&d, 10), neg)) }
        2 => { let d = digits(rng, 16); (format!("0x{}", spelt(rng, &d, 16)), int_text(&decimal(&d, 16), neg)) }
        3 => { let d = digits(rng, 8); (format!("0o{}", spelt(rng, &d, 8)), int_text(&decimal(&d, 8), neg)) }
        4 => { let d = digits(rng, 2); (format!("0b{}", spelt(rng, &d, 2)), int_text(&decimal(&d, 2), neg)) }
        k => {
            let d = dec(rng);
            let mut t = spelt(rng, &d, 10);
            let point = rng.one_in(2);
            if point { let f = digits(rng, 10); t.push('.'); let f = spelt(rng, &f[..f.len().min(18)], 10); t.push_str(&f); }
            let exp = !point && k < 7 || rng.one_in(3);
            if exp {
                t.push(*rng.pick(&['e', 'E']));
                t.push_str(rng.pick(&["", "+", "-", ""]));
                t.push_str(rng.pick(&["0", "1", "2", "5", "10", "1_0", "22", "100", "05"]));
            }
            let plain: String = t.chars().filter(|c| *c != '_').collect();
            let v = if point || exp {
                let f: f64 = plain.parse().unwrap();
                format!("f:{:?}", if neg && k < 7 { -f } else { f })
            } else { int_text(&plain, neg && k < 7) };
            if k == 7 { neg = false; t.push('i'); (t, format!("im:{v}")) } else { (t, v) }
        }
    };
    let text = if neg { format!("-{text}") } else { text };
    let (a, b) = *rng.pick(&[("", ""), ("", ""), ("@v = ", ""), ("[1, ", "]"), ("[", ", @v]"), ("foo(", ")"), ("foo(:a, ", ")"), ("{ :a => ", " }"), ("(", ")"), ("", " + 1"), ("@v * ", ""), ("", " == @v"), ("def m; ", "; end"), ("@v[", "]"), ("if 1 then ", " end"), ("", ";"), ("", "\n"), (" ", " # c"), ("return ", ""), ("x = ", "\nx")]);
    let (t, w) = if val.starts_with("im:") { ("777i", "im:777") } else if val.starts_with("f:") { ("777.5", "f:777.5") } else { ("777", "777") };
    let e = render(&format!("{a}{t}{b}")).replace(w, &val);
    case(format!("{a}{text}{b}"), e)
}

// ---------------------------------------------------------------- C06
/// The text a literal means: characters, single bytes, interpolated numbers.
#[derive(Clone)]
enum Tx { Ch(char), By(u8), In(usize) }

/// A string, or an interpolated one, as the tree shows it.
fn shown(v: &[Tx], interp: bool) -> String {
    let mut parts: Vec<String> = vec![];
    let (mut bytes, mut raw, mut any): (Vec<u8>, bool, bool) = (vec![], false, false);
    let mut flush = |bytes: &mut Vec<u8>, raw: &mut bool, parts: &mut Vec<String>, keep: bool| {
        if *raw { parts.push(format!("bytes:{:?}", bytes)); }
        else if !bytes.is_empty() || keep { parts.push(format!("{:?}", std::str::from_utf8(bytes).unwrap())); }
        bytes.clear();
        *raw = false;
    };
    for x in v {
        match x {
            Tx::Ch(c) => { let mut b = [0; 4]; bytes.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); }
            Tx::By(b) => { bytes.push(*b); if *b > 0x7f { raw = true; } }
            Tx::In(n) => { any = true; flush(&mut bytes, &mut raw, &mut parts, false); parts.push(n.to_string()); }
        }
    }
    let dstr = any || interp;
    flush(&mut bytes, &mut raw, &mut parts, !dstr);
    if dstr { format!("(dstr {})", parts.join(" ")) } else { parts.concat() }
}
const PLAIN: &[char] = &['a', 'b', 'n', 'x', 'u', '7', '0', ' ', ' ', '.', ',', ';', '-', '=', '%', '&', '?', ':', '/', '$', '@', '~', '^', '+', '*', 'é', 'あ', '😀', '\u{7f}', '\t', 'Z', '_', '!'];
const DELIMS: &[char] = &['(', ')', '[', ']', '{', '}', '<', '>', '"', '\'', '|', '`'];
/// An escape, valid between double quotes.
fn escape(rng: &mut Rng, bytes: bool, out: &mut Vec<Tx>) -> String {
    match rng.below(8) {
        0 | 1 => {
            let (c, v) = *rng.pick(&[('n', '\n'), ('t', '\t'), ('r', '\r'), ('a', '\x07'), ('b', '\x08'), ('e', '\x1b'), ('f', '\x0c'), ('s', ' '), ('v', '\x0b'), ('\\', '\\'), ('"', '"'), ('\'', '\''), ('#', '#'), ('?', '?'), ('q', 'q'), ('z', 'z'), ('Z', 'Z'), ('.', '.'), ('9', '9'), ('8', '8'), ('é', 'é'), (' ', ' '), ('}', '}'), ('(', '('), ('|', '|'), ('@', '@'), ('$', '$')]);
            out.push(Tx::Ch(v));
            format!("\\{c}")
        }
        2 | 3 => {
            let v = if bytes { rng.below(256) } else { rng.below(128) } as u8;
            out.push(Tx::By(v));
            let v = v as u32;
            if v < 16 && rng.one_in(2) { out.push(Tx::Ch('g')); format!("\\x{v:x}g") }
            else if rng.one_in(2) { format!("\\x{v:02x}") } else { format!("\\x{v:02X}") }
        }
        4 | 5 => {
            let top = if !bytes { 128 } else if rng.one_in(10) { 512 } else { 256 };
            let v = rng.below(top);
            out.push(Tx::By(v as u8));
            if v < 64 && rng.one_in(2) { let c = *rng.pick(&['8', '9', 'g', ' ', '-']); out.push(Tx::Ch(c)); format!("\\{v:o}{c}") } else { format!("\\{v:03o}") }
        }
        _ => {
            let ch = |rng: &mut Rng| *rng.pick(&['a', '\n', '\0', '\x7f', '\u{80}', 'é', '\u{7ff}', '\u{800}', 'あ', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '"', '#', '\\', '\u{100}', '\u{ff}']);
            if rng.one_in(2) {
                let c = ch(rng);
                if c as u32 <= 0xffff {
                    out.push(Tx::Ch(c));
                    return if rng.one_in(2) { format!("\\u{:04x}", c as u32) } else { format!("\\u{:04X}", c as u32) };
                }
            }
            let mut s = "\\u{".to_string();
            for i in 0..1 + rng.below(3) {
                let c = ch(rng);
                out.push(Tx::Ch(c));
                if i > 0 { s.push_str(rng.pick(&[" ", "  "])); }
                s.push_str(&if rng.one_in(2) { format!("{:x}", c as u32) } else { format!("{:06X}", c as u32) });
            }
            s.push_str(rng.pick(&["}", "}", " }"]));
            s
        }
    }
}
/// What stands between the delimiters of a literal with escapes.
fn lit_body(rng: &mut Rng, open: Option<char>, term: Option<char>, n: usize, interp: bool, bytes: bool, out: &mut Vec<Tx>) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match rng.below(12) {
            0..=3 => {
                let c = *rng.pick(PLAIN);
                if s.ends_with('#') && (c == '$' || c == '@') || Some(c) == term { continue; }
                s.push(c);
                out.push(Tx::Ch(c));
            }
            4 => {
                let c = *rng.pick(DELIMS);
                if Some(c) == open {
                    // a bracket and its partner
                    s.push(c);
                    out.push(Tx::Ch(c));
                    let m = rng.below(4);
                    let t = lit_body(rng, open, term, m, interp, bytes, out);
                    s.push_str(&t);
                    s.push(term.unwrap());
                    out.push(Tx::Ch(term.unwrap()));
                } else if Some(c) == term {
                    s.push('\\');
                    s.push(c);
                    out.push(Tx::Ch(c));
                } else {
                    if c == '{' && s.ends_with('#') { continue; }
                    s.push(c);
                    out.push(Tx::Ch(c));
                }
            }
            5 => {
                let c = *rng.pick(&['x', ' ', '#', '1']);
                if c == '#' { s.push_str("#-"); out.extend([Tx::Ch('#'), Tx::Ch('-')]); }
                else { s.push('#'); s.push(c); out.extend([Tx::Ch('#'), Tx::Ch(c)]); }
            }
            6 if rng.one_in(2) => { s.push('\n'); out.push(Tx::Ch('\n')); }
            6 => s.push_str("\\\n"),
            7 | 8 if interp => {
                let k = rng.below(100);
                s.push_str(&if rng.one_in(3) { format!("#{{ {k} }}") } else { format!("#{{{k}}}") });
                out.push(Tx::In(k));
            }
            9 => {
                if let Some(t) = term { let c = if rng.one_in(2) { open.unwrap_or(t) } else { t }; s.push('\\'); s.push(c); out.push(Tx::Ch(c)); }
            }
            _ => { let e = escape(rng, bytes, out); s.push_str(&e); }
        }
    }
    s
}
/// The same without escapes.
fn raw_body(rng: &mut Rng, open: Option<char>, term: char, n: usize, out: &mut Vec<Tx>) -> String {
    let mut s = String::new();
    for _ in 0..n {
        match rng.below(8) {
            0 => { s.push_str("\\\\"); out.push(Tx::Ch('\\')); }
            1 => { let c = if rng.one_in(2) { open.unwrap_or(term) } else { term }; s.push('\\'); s.push(c); out.push(Tx::Ch(c)); }
            2 => {
                let c = *rng.pick(&['n', 't', 'x', '1', 'u', 'é', 'あ', '#', '\n', ' ', 'e', '0']);
                s.push('\\');
                s.push(c);
                out.extend([Tx::Ch('\\'), Tx::Ch(c)]);
            }
            3 if open.is_some() => {
                s.push(open.unwrap());
                out.push(Tx::Ch(open.unwrap()));
                let m = rng.below(4);
                let t = raw_body(rng, open, term, m, out);
                s.push_str(&t);
                s.push(term);
                out.push(Tx::Ch(term));
            }
            4 => { let c = *rng.pick(DELIMS); if c != term && Some(c) != open { s.push(c); out.push(Tx::Ch(c)); } }
            5 => { s.push_str("#{1}"); if open == Some('{') || term == '{' { s.truncate(s.len() - 4); } else { out.extend("#{1}".chars().map(Tx::Ch)); } }
            _ => { let c = if rng.one_in(8) { '\n' } else { *rng.pick(PLAIN) }; if c != term { s.push(c); out.push(Tx::Ch(c)); } }
        }
    }
    s
}
const BRACKETS: &[(Option<char>, char)] = &[(Some('('), ')'), (Some('['), ']'), (Some('{'), '}'), (Some('<'), '>')];
/// One literal, and whether it has parts.
fn literal(rng: &mut Rng, quotes: bool, out: &mut Vec<Tx>) -> (String, bool) {
    let n = if rng.one_in(8) { rng.below(40) } else { rng.below(7) };
    let interp = rng.one_in(3);
    let bytes = !interp && rng.one_in(2);
    let has = |o: &[Tx]| o.iter().any(|x| matches!(x, Tx::In(_)));
    match if quotes { rng.below(2) } else { rng.below(4) } {
        0 => { let s = raw_body(rng, None, '\'', n, out); (format!("'{s}'"), false) }
        1 => { let k = out.len(); let s = lit_body(rng, None, Some('"'), n, interp, bytes, out); (format!("\"{s}\""), has(&out[k..])) }
        2 => {
            let (o, c) = if rng.one_in(4) { (None, *rng.pick(&['|', '/', '!', '-'])) } else { *rng.pick(BRACKETS) };
            let s = raw_body(rng, o, c, n, out);
            (format!("%q{}{s}{c}", o.unwrap_or(c)), false)
        }
        _ => {
            let (o, c) = if rng.one_in(4) { (None, *rng.pick(&['|', '/', '!'])) } else { *rng.pick(BRACKETS) };
            let k = out.len();
            let s = lit_body(rng, o, Some(c), n, interp, bytes, out);
            (format!("%{}{}{s}{c}", if o.is_none() || rng.one_in(2) { "Q" } else { "" }, o.unwrap_or(c)), has(&out[k..]))
        }
    }
}
fn word(rng: &mut Rng) -> String {
    (0..1 + rng.below(4)).map(|_| *rng.pick(&['a', 'B', '7', '-', '.', 'é', '#', '"', '\'', ':', '@', '$', '+', '?', 'あ'])).collect()
}
/// A string literal in some place, with its text.
fn strings(rng: &mut Rng) -> String {
    let mut out: Vec<Tx> = vec![];
    if rng.one_in(6) {
        // here documents
        let kind = rng.below(3);
        let n = rng.below(8);
        let (mut t, mut x): (String, Vec<Tx>);
        loop {
            x = vec![];
            t = if kind == 0 { (0..n).map(|_| { let c = *rng.pick(&['a', ' ', '\\', 'n', '\'', '"', '#', '\n', 'é', '{', '}']); x.push(Tx::Ch(c)); c }).collect() }
                else { let (i, b) = (rng.one_in(3), rng.one_in(3)); lit_body(rng, None, None, n, i, b && !i, &mut x) };
            if !t.ends_with('\\') && !t.lines().any(|l| l.trim() == "END") && !(kind > 0 && t.ends_with("\\\n")) { break; }
        }
        t.push('\n');
        x.push(Tx::Ch('\n'));
        let (m, end) = *rng.pick(&[("<<", "END"), ("<<-", "  END"), ("<<-", "END")]);
        let q = match kind { 0 => "'END'", 1 => "\"END\"", _ => "END" };
        let (a, b) = *rng.pick(&[("", ""), ("@v = ", ""), ("foo(", ")"), ("[1, ", "]"), ("", " + 1"), ("foo(:a, ", ", 2)")]);
        let dstr = x.iter().any(|x| matches!(x, Tx::In(_)));
        let (p, w) = if dstr { ("\"777#{1}\"", "(dstr \"777\" 1)") } else { ("\"777\"", "\"777\"") };
        let e = render(&format!("{a}{p}{b}\n:z\n")).replace(w, &shown(&x, dstr));
        return case(format!("{a}{m}{q}{b}\n{t}{end}\n:z\n"), e);
    }
    let (a, b) = *rng.pick(&[("", ""), ("", ""), ("@v = ", ""), ("[1, ", "]"), ("[", ", @v]"), ("foo(", ")"), ("foo(:a, ", ")"), ("{ :a => ", " }"), ("(", ")"), ("", " + 1"), ("@v * ", ""), ("", " == @v"), ("def m; ", "; end"), ("@v[", "]"), ("if 1 then ", " end"), ("", ";"), ("", "\n:z"), (" ", " # c"), ("return ", ""), ("x = ", "\nx"), ("", ".foo"), ("\"", "\"")]);
    let (a, b) = if a == "\"" { ("\"a#{ ", " }b\"") } else { (a, b) };
    let (text, p, w, val) = match rng.below(10) {
        0 => {
            // ?c
            let s = if rng.one_in(3) { let c = *rng.pick(&['a', 'Z', '7', 'é', '+', '(', ']', '"', '\'', '#', '{', 'あ', ';', '?', '_', '.']); out.push(Tx::Ch(c)); c.to_string() }
                else { loop { out.clear(); let e = escape(rng, true, &mut out); if out.len() == 1 { break e; } } };
            (format!("?{s}"), "\"777\"".to_string(), "\"777\"".to_string(), shown(&out, false))
        }
        1 => {
            // words
            let sym = rng.one_in(2);
            let (o, c) = *rng.pick(BRACKETS);
            let words: Vec<String> = (0..rng.below(5)).map(|_| word(rng)).filter(|x| !x.contains("#{")).collect();
            let mut t = rng.pick(&["", "", " ", "\n"]).to_string();
            for (i, x) in words.iter().enumerate() { if i > 0 { t.push_str(rng.pick(&[" ", "  ", "\n", " \n"])); } t.push_str(x); }
            t.push_str(rng.pick(&["", "", " ", "\n"]));
            let v: Vec<String> = words.iter().map(|x| if sym { format!(":{x:?}") } else { format!("{x:?}") }).collect();
            let p = format!("%{}(777)", if sym { "i" } else { "w" });
            let w = if sym { "[:\"777\" const]" } else { "[\"777\" const]" };
            let val = format!("[{} const]", v.join(" "));
            (format!("%{}{}{t}{c}", if sym { "i" } else { "w" }, o.unwrap()), p, w.to_string(), val)
        }
        2 => {
            // symbols
            let (s, _) = { let n = 1 + rng.below(6); if rng.one_in(2) { (format!("'{}'", raw_body(rng, None, '\'', n, &mut out)), false) } else { (format!("\"{}\"", lit_body(rng, None, Some('"'), n, false, false, &mut out)), false) } };
            (format!(":{s}"), ":s777".to_string(), ":\"s777\"".to_string(), format!(":{}", shown(&out, false)))
        }
        3 | 4 => {
            // side by side
            let mut dstr = false;
            let mut s = String::new();
            for i in 0..2 + rng.below(3) {
                let (t, d) = literal(rng, true, &mut out);
                if i > 0 { s.push_str(rng.pick(&[" ", "", "  "])); }
                s.push_str(&t);
                dstr |= d;
            }
            (s, if dstr { "\"777#{1}\"" } else { "\"777\"" }.to_string(), if dstr { "(dstr \"777\" 1)" } else { "\"777\"" }.to_string(), shown(&out, dstr))
        }
        _ => {
            let (s, dstr) = literal(rng, false, &mut out);
            (s, if dstr { "\"777#{1}\"" } else { "\"777\"" }.to_string(), if dstr { "(dstr \"777\" 1)" } else { "\"777\"" }.to_string(), shown(&out, dstr))
        }
    };
    // (an empty text is no part of an interpolated string)
    let (a, b) = if val == "\"\"" && a.starts_with('"') { ("", "") } else { (a, b) };
    let e = render(&format!("{a}{p}{b}")).replace(&w, &val);
    case(format!("{a}{text}{b}"), e)
}
