//! Programs generated together with the tree they mean.
//!
//! The generator follows the grammar of the language (operator table,
//! constructs and their closers, parameter lists, argument lists, what a `do`
//! belongs to) and not the code of the parser: it prints a program and, next to
//! it, the rendering of the tree that program means.  Closers are followed by
//! the mark U+E001 (taken out again) so that a program can also be damaged.
use crate::Rng;

pub const MARK: char = '\u{E001}';

#[derive(Clone, Debug)]
pub struct T {
    pub s: String,
    pub e: String,
    /// binding strength of the outermost construct
    p: u8,
    /// a literal constant (for the constant flag of containers)
    k: bool,
    int: bool,
    /// an identifier that is no variable
    id: Option<String>,
}
fn t(s: impl Into<String>, e: impl Into<String>, p: u8) -> T {
    T { s: s.into(), e: e.into(), p, k: false, int: false, id: None }
}

struct Sc { kind: u8, names: Vec<String> } // 0 fresh, 1 block, 2 for

/// what a property looks at
#[derive(Clone, Copy, PartialEq)]
pub enum W { All, Ops, Params, Closers, Tokens, Command, Do, Assign, Nest }

pub struct G<'a> {
    rng: &'a mut Rng,
    st: Vec<Sc>,
    w: W,
    budget: usize,
    /// inside the heading of a loop: a `do` there starts the body
    no_do: bool,
    /// inside a method body (no class definition there)
    in_def: bool,
    /// no names are assigned (operands whose evaluation order is not the order of the text)
    still: bool,
    /// the last list had a splat
    splat: bool,
    names: Vec<String>,
}

const P_PRIM: u8 = 100;
const P_UN: u8 = 95;
const P_EXP: u8 = 90;
const P_NEG: u8 = 85;
const P_RANGE: u8 = 15;
const P_TERN: u8 = 13;
const P_ASGN: u8 = 10;
const P_ARG: u8 = 10;

/// operator, strength, left operand, right operand, rendering
const BIN: &[(&str, u8, u8, u8, &str)] = &[
    ("**", 90, 95, 90, "**"), ("*", 80, 80, 81, "*"), ("/", 80, 80, 81, "/"), ("%", 80, 80, 81, "%"), ("+", 70, 70, 71, "+"), ("-", 70, 70, 71, "-"),
    ("<<", 60, 60, 61, "<<"), (">>", 60, 60, 61, ">>"), ("&", 50, 50, 51, "&"), ("|", 40, 40, 41, "|"), ("^", 40, 40, 41, "^"),
    ("<", 30, 30, 31, "<"), ("<=", 30, 30, 31, "<="), (">", 30, 30, 31, ">"), (">=", 30, 30, 31, ">="),
    ("==", 20, 21, 21, "=="), ("!=", 20, 21, 21, "!="), ("===", 20, 21, 21, "==="), ("=~", 20, 21, 21, "=~"), ("!~", 20, 21, 21, "!~"), ("<=>", 20, 31, 31, "<=>"),
    ("&&", 18, 18, 19, "&&"), ("||", 17, 17, 18, "||"),
];

/// the text would be read as a modifier of what stands before it
fn modifier(s: &str) -> bool {
    ["if", "unless", "while", "until", "rescue"].iter().any(|k| s.strip_prefix(k).map_or(false, |r| !r.starts_with(|c: char| c.is_alphanumeric() || c == '_')))
}
const IDS: &[&str] = &["a", "b", "foo", "bar", "x1", "baz", "_u", "qux"];
/// names that begin, end or contain the text of a keyword or operator
const NEAR: &[&str] = &["endx", "iff", "if_", "do1", "xend", "doo", "_end", "class_a", "untill", "elsifx", "inx", "or2", "andy", "nextt", "returns", "redo_", "begin1", "ensured", "rescuee", "thenn", "whenn", "cases", "modulex", "aliased", "yields", "superb", "breaks", "defi", "definedx", "unlesss", "whilee", "forr", "e", "en", "i", "d", "wh", "nill", "truex", "selfs", "falsey", "nots"];
const CNEAR: &[&str] = &["END_", "End", "If", "Do", "BEGIN_", "Class", "Nil", "A", "Foo", "Bar"];
const KEYS: &[&str] = &["if", "end", "class", "def", "do", "while", "begin", "then", "else", "case", "when", "module", "return", "next", "break", "and", "or", "in", "rescue", "ensure", "yield", "alias", "for", "until", "unless", "super", "redo", "elsif"];

impl<'a> G<'a> {
    pub fn new(rng: &'a mut Rng, w: W) -> Self {
        let names = ["v", "w", "y", "z", "k2", "m_"].iter().map(|s| s.to_string()).collect();
        G { rng, st: vec![Sc { kind: 0, names: vec![] }], w, budget: 0, no_do: false, in_def: false, still: false, splat: false, names }
    }
    /// a program and its rendering
    pub fn program(mut self) -> (String, String) {
        self.budget = 3 + self.rng.below(14);
        let b = self.body(0);
        let table = self.st[0].names.join(",");
        (b.s, format!("<{table}> {}", b.e))
    }

    // ------------------------------------------------------------ names
    fn find(&self, n: &str) -> Option<usize> {
        let mut o = 0;
        for c in self.st.iter().rev() {
            if c.names.iter().any(|x| x == n) { return Some(o); }
            match c.kind { 1 => o += 1, 2 => {} _ => return None }
        }
        None
    }
    fn assign(&mut self, n: &str) -> usize {
        if let Some(o) = self.find(n) { return o; }
        for c in self.st.iter_mut().rev() { if c.kind != 2 { c.names.push(n.to_string()); return 0; } }
        0
    }
    fn name(&mut self) -> String {
        let i = self.rng.below(self.names.len());
        self.names[i].clone()
    }

    fn snap(&self) -> Vec<Vec<String>> { self.st.iter().map(|c| c.names.clone()).collect() }
    /// an expression was thrown away: so are the variables it introduced
    fn back(&mut self, s: Vec<Vec<String>>) { for (c, n) in self.st.iter_mut().zip(s) { c.names = n; } }
    // ------------------------------------------------------------ layout
    /// the space around a binary operator
    fn close(&self, c: &str) -> String { format!("{c}{MARK}") }
    fn nl(&mut self) -> String {
        match self.rng.below(5) { 0 | 1 => "\n".into(), 2 => ";".into(), 3 => " ; ".into(), _ => "\n  ".into() }
    }
    fn comma(&mut self) -> &'static str { if self.rng.one_in(12) { ",\n " } else if self.rng.one_in(8) { "," } else { ", " } }

    // ------------------------------------------------------------ expressions
    fn atom(&mut self) -> T {
        let near = self.w == W::Tokens;
        match self.rng.below(if near { 16 } else { 13 }) {
            0 | 1 => { let i = self.rng.below(120); T { k: true, int: true, ..t(format!("{i}"), format!("{i}"), P_PRIM) } }
            2 | 3 | 13 => {
                let n = if near && !self.rng.one_in(4) { *self.rng.pick(NEAR) } else { *self.rng.pick(IDS) };
                T { id: Some(n.into()), ..t(n, format!("ident:{n}"), P_PRIM) }
            }
            4 => t("@v", "ivar:@v", P_PRIM),
            5 => { let n = self.name(); match self.find(&n) { Some(o) => t(n.clone(), format!("lvar{o}:{n}"), P_PRIM), None => t("$g", "gvar:$g", P_PRIM) } }
            6 => { let n = if near { *self.rng.pick(CNEAR) } else { "K" }; t(n, format!("(const {n})"), P_PRIM) }
            7 => { let n = *self.rng.pick(&["nil", "true", "false"]); T { k: true, ..t(n, n, P_PRIM) } }
            8 => t("self", "self", P_PRIM),
            9 => T { k: true, ..t("'s'", "\"s\"", P_PRIM) },
            10 => { let n = if near && self.rng.one_in(2) { *self.rng.pick(KEYS) } else { "sy" }; T { k: true, ..t(format!(":{n}"), format!(":{n:?}"), P_PRIM) } }
            11 => t("@@c", "cvar:@@c", P_PRIM),
            14 => { let n = *self.rng.pick(KEYS); let a = *self.rng.pick(&["@v", "$g", "K"]); t(format!("{a}.{n}"), format!("(call {}.{n} )", match a { "@v" => "ivar:@v", "$g" => "gvar:$g", _ => "(const K)" }), P_PRIM) }
            15 => { let n = if self.rng.one_in(3) { *self.rng.pick(KEYS) } else { *self.rng.pick(NEAR) }; let q = *self.rng.pick(&["?", "!"]); T { id: Some(format!("{n}{q}")), ..t(format!("{n}{q}"), format!("ident:{n}{q}"), P_PRIM) } }
            _ => T { k: true, ..t("2.5", "f:2.5", P_PRIM) },
        }
    }
    /// an expression that binds at least as strongly as `min`
    fn e(&mut self, min: u8, d: usize) -> T {
        let x = self.e0(min, d);
        if x.p < min { self.paren(x) } else { x }
    }
    fn paren(&mut self, x: T) -> T {
        let c = self.close(")");
        let (a, b) = if self.rng.one_in(10) { ("\n", "\n") } else { ("", "") };
        T { s: format!("({a}{}{b}{c}", x.s), p: P_PRIM, ..x }
    }
    fn e0(&mut self, min: u8, d: usize) -> T {
        if self.budget == 0 || d > 5 || self.rng.one_in(3) { return self.atom(); }
        self.budget -= 1;
        let d = d + 1;
        let k = match self.w {
            W::Ops => if self.rng.one_in(4) { self.rng.below(30) } else { self.rng.below(10) },
            W::Assign => if self.rng.one_in(3) { 10 + self.rng.below(9) } else { self.rng.below(30) },
            W::Closers => 11 + self.rng.below(19),
            W::Command | W::Do | W::Nest => 9 + self.rng.below(21),
            _ => self.rng.below(30),
        };
        match k {
            0..=6 => self.binop(d),
            7 => {
                let o = *self.rng.pick(&["!", "~", "+"]);
                let x = self.e(P_UN, d);
                // a sign and digits would be one literal
                let x = if o == "+" && x.s.starts_with(|c: char| c.is_ascii_digit() || c == '+') { self.paren(x) } else { x };
                let x = if o == "!" && x.s.starts_with(['~', '=']) { self.paren(x) } else { x };
                t(format!("{o}{}", x.s), format!("({} {})", if o == "+" { "+@" } else { o }, x.e), P_UN)
            }
            8 => {
                // a minus in front of anything but a literal binds less than `**`
                let sn = self.snap();
                let x = self.e(P_EXP, d);
                if x.s.starts_with(|c: char| c.is_ascii_digit() || c == '-') {
                    self.back(sn);
                    let y = self.atom();
                    return if y.s.starts_with(|c: char| c.is_ascii_digit()) { y } else { t(format!("-{}", y.s), format!("(-@ {})", y.e), P_NEG) };
                }
                t(format!("-{}", x.s), format!("(-@ {})", x.e), P_NEG)
            }
            9 => {
                let (c, a, b) = (self.e(P_TERN + 1, d), self.e(P_ARG, d), self.e(P_TERN, d));
                t(format!("{} ? {} : {}", c.s, a.s, b.s), format!("(if {} {} {})", c.e, a.e, b.e), P_TERN)
            }
            10 => {
                let (a, b) = (self.e(17, d), self.e(17, d));
                let o = *self.rng.pick(&["..", "..."]);
                let sp = if a.s.ends_with(|c: char| c.is_ascii_digit()) || self.rng.one_in(2) { " " } else { "" };
                t(format!("{}{sp}{o}{sp}{}", a.s, b.s), format!("({o} {} {}{})", a.e, b.e, if a.int && b.int { " const" } else { "" }), P_RANGE)
            }
            11 | 12 | 13 => self.assignment(d),
            14 | 15 => self.array(d),
            16 | 17 => self.hash(d),
            18 | 19 | 20 => self.postfix(d),
            21 | 22 => self.fcall(d),
            23 => self.dstr(d),
            24 => {
                let x = self.e(P_ARG, d);
                let c = self.close(")");
                t(format!("defined?({}{c}", x.s), format!("(defined {})", x.e), P_PRIM)
            }
            25 | 26 => self.lambda(d),
            27 => { let x = self.stmts_in_parens(d); x }
            _ => if min <= P_PRIM { self.construct(d) } else { self.atom() },
        }
    }
    fn binop(&mut self, d: usize) -> T {
        let &(o, p, l, r, e) = &BIN[self.rng.below(BIN.len())];
        let a = self.e(l, d);
        let mut b = self.e(r, d);
        // the left operand of `**`: a sign binds less
        // the right operand cannot be a minus sign of its own unless it is an operand of `*`..
        if b.p == P_NEG || b.s.starts_with('-') { b = self.paren(b); }
        let a = if o == "**" && a.s.starts_with(['-', '+', '!', '~']) { self.paren(a) } else { a };
        let tight = ["+", "-", "*", "/", "|", "^", "&", "==", "&&", "||", "<=", ">=", "**", "!=", ">", "<", ">>", "===", "<=>"].contains(&o)
            && self.rng.one_in(if self.w == W::Tokens { 2 } else { 6 })
            && b.s.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '@' || c == '(' || c == '$')
            && a.s.ends_with(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == MARK);
        let sp = if tight { "" } else { " " };
        let br = if !tight && self.rng.one_in(12) { "\n  " } else { sp };
        let e = if o == "!~" { format!("(! (=~ {} {}))", a.e, b.e) } else { format!("({e} {} {})", a.e, b.e) };
        t(format!("{}{sp}{o}{br}{}", a.s, b.s), e, p)
    }
    /// what can stand to the left of an assignment, apart from local variables
    fn lhs(&mut self, d: usize) -> (String, String) {
        match self.rng.below(6) {
            0 => ("@v".into(), "ivar:@v".into()),
            1 => ("$g".into(), "gvar:$g".into()),
            2 => ("@@c".into(), "cvar:@@c".into()),
            3 => { let i = self.e(P_ARG, d + 2); let c = self.close("]"); (format!("@v[{}{c}", i.s), format!("(index ivar:@v {})", i.e)) }
            4 => ("foo.at".into(), "(call (fcall foo ).at )".into()),
            _ => ("self.at".into(), "(call self.at )".into()),
        }
    }
    fn assignment(&mut self, d: usize) -> T {
        let ops = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"];
        if self.rng.one_in(2) && !self.still {
            // a local variable: it exists after the right-hand side
            let n = self.name();
            let before = self.find(&n);
            if self.rng.one_in(4) && before.is_some() {
                let o = *self.rng.pick(&ops);
                let r = self.e(P_ASGN, d);
                let l = format!("lvar{}:{n}", self.assign(&n));
                return t(format!("{n} {o}= {}", r.s), format!("({o}= {l} {})", r.e), P_ASGN);
            }
            let r = self.e(P_ASGN, d);
            let l = format!("lvar{}:{n}", self.assign(&n));
            let sp = if self.rng.one_in(6) && !r.s.starts_with(['~', '=', '>']) { "" } else { " " };
            return t(format!("{n}{sp}={sp}{}", r.s), format!("(= ({l}) ({}))", r.e), P_ASGN);
        }
        let (ls, le) = self.lhs(d);
        let r = self.e(P_ASGN, d);
        match self.rng.below(4) {
            0 => { let o = *self.rng.pick(&ops); t(format!("{ls} {o}= {}", r.s), format!("({o}= {le} {})", r.e), P_ASGN) }
            1 => { let o = *self.rng.pick(&["&&", "||"]); t(format!("{ls} {o}= {}", r.s), format!("({o} {le} (= ({le}) ({})))", r.e), P_ASGN) }
            _ => t(format!("{ls} = {}", r.s), format!("(= ({le}) ({}))", r.e), P_ASGN),
        }
    }
    fn array(&mut self, d: usize) -> T {
        let n = self.rng.below(4);
        let (s, e, k) = self.items(n, d);
        let c = self.close("]");
        let (a, b) = if self.rng.one_in(10) { ("\n", "\n") } else { ("", "") };
        let tr = if n > 0 && self.rng.one_in(8) { "," } else { "" };
        t(format!("[{a}{s}{tr}{b}{c}"), format!("[{e}{}]", if k { " const" } else { "" }), P_PRIM)
    }
    /// elements (or arguments) separated by commas
    fn items(&mut self, n: usize, d: usize) -> (String, String, bool) {
        let (mut s, mut e, mut k) = (String::new(), vec![], true);
        let mut splat = false;
        for i in 0..n {
            let x = if self.rng.one_in(8) { splat = true; let x = self.e(P_PRIM, d); t(format!("*{}", x.s), format!("*{}", x.e), P_PRIM) } else { self.e(P_ARG, d) };
            if i > 0 { s += self.comma(); }
            s += &x.s;
            k &= x.k;
            e.push(x.e);
        }
        self.splat = splat;
        (s, e.join(" "), k)
    }
    fn hash(&mut self, d: usize) -> T {
        let n = self.rng.below(3);
        let (mut s, mut e, mut k) = (String::new(), String::new(), true);
        for i in 0..n {
            let (ks, ke, kk) = match self.rng.below(3) {
                0 => { let n = if self.w == W::Tokens { *self.rng.pick(NEAR) } else { "key" }; (format!("{n}: "), format!(":{n:?}"), true) }
                1 => { let a = self.atom(); let b = self.rng.below(3); if b == 0 { let x = self.binop(d); (format!("({}) => ", x.s), x.e, false) } else { (format!("{} => ", a.s), a.e, a.k) } }
                _ => { let a = self.e(P_PRIM, d + 1); let a = if a.s.starts_with(|c: char| c.is_ascii_lowercase()) && a.id.is_none() && !a.k { self.paren(a) } else { a }; (format!("{} => ", a.s), a.e, a.k) }
            };
            let v = self.e(P_ARG, d);
            if i > 0 { s += self.comma(); }
            s += &format!("{ks}{}", v.s);
            e += &format!(" {ke}=>{}", v.e);
            k &= kk && v.k;
        }
        let c = self.close("}");
        // in front of a statement it would be a block: always an operand here
        t(format!("{{ {s} {c}"), format!("(hash{e}{})", if k { " const" } else { "" }), P_PRIM)
    }
    /// arguments in parentheses: text and rendering
    fn args(&mut self, d: usize) -> (String, String) {
        let n = self.rng.below(4);
        let mut s: Vec<String> = vec![];
        let (mut pos, mut kw, mut hs, mut blk) = (vec![], String::new(), String::new(), String::new());
        let mut splat = false;
        for _ in 0..n {
            if self.rng.one_in(8) { let x = self.e(P_PRIM, d); s.push(format!("*{}", x.s)); pos.push(format!("*{}", x.e)); splat = true; }
            else { let x = self.e(P_ARG, d); let x = if x.id.is_some() && false { self.paren(x) } else { x }; s.push(x.s); pos.push(x.e); }
        }
        if self.rng.one_in(5) { let x = self.e(P_ARG, d); s.push(format!("key: {}", x.s)); kw += &format!(" key: {}", x.e); }
        if self.rng.one_in(9) { let x = self.e(P_PRIM, d); s.push(format!("**{}", x.s)); hs += &format!(" **{}", x.e); }
        if self.rng.one_in(9) { let x = self.e(P_PRIM, d); s.push(format!("&{}", x.s)); blk += &format!(" &{}", x.e); }
        let mut o = String::new();
        for (i, x) in s.iter().enumerate() { if i > 0 { o += self.comma(); } o += x; }
        (o, format!("{}{kw}{hs}{blk}{}", pos.join(" "), if splat { " !splat" } else { "" }))
    }
    /// (text, rendering) of the call part after a method name; `true` if it takes arguments in parentheses
    fn callargs(&mut self, d: usize) -> (String, String, bool) {
        match self.rng.below(4) {
            0 => (String::new(), String::new(), false),
            1 if !self.no_do || true => {
                let (s, e) = self.block(d);
                (s, format!(" &{e}"), true)
            }
            _ => {
                let (s, e) = self.args(d);
                let c = self.close(")");
                let (bs, be) = if self.rng.one_in(6) && !e.contains(" &") { let (s, e) = self.block(d); (s, format!(" &{e}")) } else { (String::new(), String::new()) };
                // the rendering puts the mark of a splat after the block
                let e = match e.strip_suffix(" !splat") { Some(x) => format!("{x}{be} !splat"), None => format!("{e}{be}") };
                (format!("({s}{c}{bs}"), e, true)
            }
        }
    }
    fn fcall(&mut self, d: usize) -> T {
        let n = *self.rng.pick(if self.w == W::Tokens { NEAR } else { IDS });
        if self.find(n).is_some() { return self.atom(); }
        let (s, e, some) = self.callargs(d);
        if !some { return T { id: Some(n.into()), ..t(n, format!("ident:{n}"), P_PRIM) }; }
        t(format!("{n}{s}"), format!("(fcall {n} {e})"), P_PRIM)
    }
    fn postfix(&mut self, d: usize) -> T {
        let x = self.e(P_PRIM, d);
        // a block or body that ends the receiver
        match self.rng.below(5) {
            0 => {
                if x.s.ends_with('}') || x.s.ends_with("end") { return x; }
                let n = 1 + self.rng.below(2);
                let (s, e, _) = self.items(n, d);
                let c = self.close("]");
                t(format!("{}[{s}{c}", x.s), format!("(index {} {e})", x.e), P_PRIM)
            }
            1 => { let nm = *self.rng.pick(CNEAR); let e = match x.e.strip_prefix("(const ") { Some(_) => format!("{}::{nm})", &x.e[..x.e.len() - 1]), None => format!("(const {} {nm})", x.e) };
                let xs = if x.int { format!("({})", x.s) } else { x.s.clone() };
                t(format!("{xs}::{nm}"), e, P_PRIM) }
            k => {
                let dot = if k == 2 { "&." } else { "." };
                let pool = if self.w == W::Tokens { if self.rng.one_in(2) { KEYS } else { NEAR } } else { IDS };
                let n = *self.rng.pick(pool);
                let (s, e, _) = self.callargs(d);
                let r = match &x.id { Some(n) => format!("(fcall {n} )"), None => x.e.clone() };
                let br = if dot == "." && self.rng.one_in(14) { "\n  " } else { "" };
                // digits and a dot
                let xs = if x.int { format!("({})", x.s) } else { x.s.clone() };
                t(format!("{xs}{br}{dot}{n}{s}"), format!("(call {r}{dot}{n} {e})"), P_PRIM)
            }
        }
    }
    fn dstr(&mut self, d: usize) -> T {
        let (mut s, mut e) = (String::new(), String::new());
        for _ in 0..1 + self.rng.below(2) {
            if self.rng.one_in(2) { s += "t "; e += " \"t \""; }
            let (bs, be) = self.inline(d);
            s += &format!("#{{{bs}}}");
            e += &format!(" {be}");
        }
        t(format!("\"{s}\""), format!("(dstr{e})"), P_PRIM)
    }
    fn inline(&mut self, d: usize) -> (String, String) {
        let old = std::mem::replace(&mut self.no_do, false);
        let x = if self.rng.one_in(4) { let x = self.body(d + 1); (x.s, x.e) } else { let x = self.e(P_ARG, d); (x.s, x.e) };
        self.no_do = old;
        // no marks inside a string
        (x.0.replace(MARK, ""), x.1)
    }
    fn stmts_in_parens(&mut self, d: usize) -> T {
        let old = std::mem::replace(&mut self.no_do, false);
        let x = self.body(d + 1);
        self.no_do = old;
        let c = self.close(")");
        let mut y = t(format!("({}{c}", x.s), x.e.clone(), P_PRIM);
        y.k = x.k; y.int = x.int; y.id = x.id;
        y
    }
    // ------------------------------------------------------------ blocks, lambdas, parameters
    fn scoped<R>(&mut self, kind: u8, names: Vec<String>, f: impl FnOnce(&mut Self) -> R) -> (R, String) {
        let old = std::mem::replace(&mut self.no_do, false);
        self.st.push(Sc { kind, names });
        let r = f(self);
        let t = self.st.pop().unwrap().names.join(",");
        self.no_do = old;
        (r, t)
    }
    /// ` { |..| .. }` or ` do |..| .. end`, and its rendering
    fn block(&mut self, d: usize) -> (String, String) {
        let dob = !self.no_do && self.rng.one_in(2);
        let old = std::mem::replace(&mut self.no_do, false);
        self.st.push(Sc { kind: 1, names: vec![] });
        let (ps, pe, extra) = if self.rng.one_in(if self.w == W::Params { 1 } else { 2 }) { let (s, e, x) = self.params(d, true); (format!(" |{s}|"), e, x) } else { (String::new(), String::new(), String::new()) };
        let b = self.body(d + 1);
        let tb = self.st.pop().unwrap().names.join(",");
        self.no_do = old;
        if dob {
            let c = self.close("end");
            let n = self.nl();
            (format!(" do{ps}{} {}{}{c}", if ps.is_empty() { "" } else { "" }, b.s, n), format!("(lambda {{|{pe}| <{tb}{extra}> (begin {} - -)}})", b.e))
        } else {
            let c = self.close("}");
            (format!(" {{{ps} {} {c}", b.s), format!("(lambda {{|{pe}| <{tb}{extra}> {}}})", b.e))
        }
    }
    fn lambda(&mut self, d: usize) -> T {
        self.st.push(Sc { kind: 1, names: vec![] });
        let old = std::mem::replace(&mut self.no_do, false);
        let (ps, pe, extra) = if self.rng.one_in(2) { let (s, e, x) = self.params(d, true); let c = self.close(")"); (format!("({s}{c}"), e, x) } else { (String::new(), String::new(), String::new()) };
        let b = self.body(d + 1);
        let tb = self.st.pop().unwrap().names.join(",");
        self.no_do = old;
        let e = format!("(lambda {{|{pe}| <{tb}{extra}> {}}})", b.e);
        if self.rng.one_in(2) || self.no_do { let c = self.close("}"); t(format!("->{ps} {{ {} {c}", b.s), e, P_PRIM) } else { let c = self.close("end"); let n = self.nl(); t(format!("->{ps} do {}{n}{c}", b.s), e, P_PRIM) }
    }
    /// A parameter list in its order: required, optional, rest, post, keyword, keyword rest, block.
    /// The names are entered into the innermost scope.
    fn params(&mut self, d: usize, block: bool) -> (String, String, String) {
        let pool = ["p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "q1", "q2", "q3", "q4"];
        let mut next = 0;
        let mut fresh = |g: &mut Self| -> String { let _ = g; next += 1; pool[next - 1].to_string() };
        let dense = self.w == W::Params;
        let some = |g: &mut Self| g.rng.one_in(if dense { 2 } else { 4 });
        let (mut s, mut e): (Vec<String>, Vec<String>) = (vec![], vec![]);
        let mut names: Vec<String> = vec![];
        let mut later: Vec<String> = vec![]; // variables of default values, after the parameters
        let nreq = self.rng.below(3);
        for _ in 0..nreq {
            if dense && self.rng.one_in(5) {
                let (a, b) = (fresh(self), fresh(self));
                s.push(format!("({a}, {b})")); e.push(format!("destruct:({a},{b})"));
                names.push(a); names.push(b);
            } else { let n = fresh(self); s.push(n.clone()); e.push(format!("req:{n}")); names.push(n); }
        }
        let mut post = false;
        let dflt = |g: &mut Self, later: &mut Vec<String>, names: &[String]| -> T {
            // default values see the parameters before them
            g.st.last_mut().unwrap().names = names.iter().chain(later.iter()).cloned().collect();
            let b = g.budget; g.budget = g.budget.min(3);
            // `|` ends the parameters of a block
            let sn = g.snap();
            let x = g.e(if block { 41 } else { P_ARG }, d + 2);
            g.budget = b.saturating_sub(1);
            let x = if x.s.contains('|') { g.back(sn); g.atom() } else { x };
            *later = g.st.last().unwrap().names.iter().filter(|n| !names.contains(n)).cloned().collect();
            x
        };
        if some(self) {
            for _ in 0..1 + self.rng.below(2) {
                let x = dflt(self, &mut later, &names);
                let n = fresh(self);
                s.push(format!("{n} = {}", x.s)); e.push(format!("opt:{n}={}", x.e)); names.push(n);
                post = true;
            }
        }
        if some(self) {
            if self.rng.one_in(4) { s.push("*".into()); e.push("rest:".into()); } else { let n = fresh(self); s.push(format!("*{n}")); e.push(format!("rest:{n}")); names.push(n); }
            post = true;
        }
        if post && some(self) {
            let n = fresh(self); s.push(n.clone()); e.push(format!("post:{n}")); names.push(n);
        }
        let mut kws = vec![];
        let mut extra = String::new();
        if some(self) {
            for _ in 0..1 + self.rng.below(2) {
                let x = if self.rng.one_in(2) { Some(dflt(self, &mut later, &names)) } else { None };
                let n = fresh(self);
                kws.push(names.len());
                match x { Some(x) => { s.push(format!("{n}: {}", x.s)); e.push(format!("key:{n}={}", x.e)); } None => { s.push(format!("{n}:")); e.push(format!("key:{n}")); } }
                names.push(n);
            }
        }
        if !kws.is_empty() { extra += &format!(" kw={kws:?}"); }
        if some(self) { let n = fresh(self); s.push(format!("**{n}")); e.push(format!("kwrest:{n}")); extra += &format!(" kwrest={}", names.len()); names.push(n); }
        if some(self) { let n = fresh(self); s.push(format!("&{n}")); e.push(format!("block:{n}")); extra += &format!(" block={}", names.len()); names.push(n); }
        if s.is_empty() { let n = fresh(self); s.push(n.clone()); e.push(format!("req:{n}")); names.push(n); }
        self.st.last_mut().unwrap().names = names.iter().chain(later.iter()).cloned().collect();
        (s.join(", "), e.join(" "), extra)
    }
    // ------------------------------------------------------------ statements
    /// statements; the rendering of their sequence
    fn body(&mut self, d: usize) -> T {
        let n = if self.budget == 0 { 1 } else { 1 + self.rng.below(3) };
        let mut v = vec![];
        for _ in 0..n { v.push(self.stmt(d)); }
        let mut s = String::new();
        for (i, x) in v.iter().enumerate() { if i > 0 { s += &self.nl(); } s += &x.s; }
        if v.len() == 1 { T { s, ..v.pop().unwrap() } } else { t(s, format!("(do {})", v.iter().map(|x| x.e.clone()).collect::<Vec<_>>().join(" ")), 0) }
    }
    fn stmt(&mut self, d: usize) -> T {
        let mut x = self.simple(d);
        if self.rng.one_in(if self.w == W::Command { 3 } else { 7 }) && self.budget > 0 {
            self.budget -= 1;
            let c = self.cond(d);
            let n = x.e.clone();
            let (k, e) = match self.rng.below(5) {
                0 => ("if", format!("(if {} {n} (do ))", c.e)),
                1 => ("unless", format!("(if {} (do ) {n})", c.e)),
                2 => ("while", format!("(while-post {} {n})", c.e)),
                3 => ("until", format!("(until-post {} {n})", c.e)),
                _ => ("rescue", format!("(begin {n} (rescue [] - {}) - -)", c.e)),
            };
            x = t(format!("{} {k} {}", x.s, c.s), e, 0);
        }
        x
    }
    /// an expression with `and` / `or`
    fn cond(&mut self, d: usize) -> T {
        let a = self.operand(d);
        if self.rng.one_in(5) {
            let b = self.operand(d);
            let (k, o) = *self.rng.pick(&[("and", "&&"), ("or", "||")]);
            if self.rng.one_in(3) {
                let c = self.operand(d);
                let (k2, o2) = *self.rng.pick(&[("and", "&&"), ("or", "||")]);
                return t(format!("{} {k} {} {k2} {}", a.s, b.s, c.s), format!("({o2} ({o} {} {}) {})", a.e, b.e, c.e), 1);
            }
            return t(format!("{} {k} {}", a.s, b.s), format!("({o} {} {})", a.e, b.e), 1);
        }
        a
    }
    /// an operand of `and`: an argument or a call without parentheses
    fn operand(&mut self, d: usize) -> T {
        let want = match self.w { W::Command | W::Do => 2, _ => 5 };
        if self.budget > 0 && self.rng.one_in(want) { self.budget -= 1; self.command(d) } else { self.e(P_ARG, d) }
    }
    /// a call without parentheses
    fn command(&mut self, d: usize) -> T {
        let n = 1 + self.rng.below(3);
        // an identifier with a block of its own: the `do` goes to the command, `{` to the argument
        let old = std::mem::replace(&mut self.no_do, true);
        let mut v: Vec<T> = vec![];
        for i in 0..n {
            let sn = self.snap();
            let x = self.e(P_ARG, d + 1);
            // the first argument must not look like something else
            let bad = i == 0 && (modifier(&x.s) || x.s.starts_with(['(', '[', '{', '-', '+', '*', '&', '/', '%', '<', ':', '?', '~', '!', '$', '.', '\'', '"'])) && !x.s.starts_with(":s");
            if bad { self.back(sn); }
            v.push(if bad { let a = *self.rng.pick(&["1", "@v", "K", ":sy", "bar"]); let e = match a { "1" => "1", "@v" => "ivar:@v", "K" => "(const K)", ":sy" => ":\"sy\"", _ => "ident:bar" }; T { k: false, ..t(a, e, P_PRIM) } } else { x });
        }
        self.no_do = old;
        let (mut s, mut e) = (String::new(), vec![]);
        for (i, x) in v.iter().enumerate() { if i > 0 { s += ", "; } s += &x.s; e.push(x.e.clone()); }
        let (bs, be) = if !self.no_do && self.rng.one_in(if self.w == W::Do { 2 } else { 4 }) {
            let r = self.do_block(d);
            (r.0, format!(" &{}", r.1))
        } else { (String::new(), String::new()) };
        let e = format!("{}{be}", e.join(" "));
        match self.rng.below(3) {
            0 => t(format!("self.run {s}{bs}"), format!("(call self.run {e})"), 2),
            1 => t(format!("@v.run {s}{bs}"), format!("(call ivar:@v.run {e})"), 2),
            _ => t(format!("puts {s}{bs}"), format!("(fcall puts {e})"), 2),
        }
    }
    fn do_block(&mut self, d: usize) -> (String, String) {
        self.st.push(Sc { kind: 1, names: vec![] });
        let old = std::mem::replace(&mut self.no_do, false);
        let (ps, pe, extra) = if self.rng.one_in(2) { let (s, e, x) = self.params(d, true); (format!(" |{s}|"), e, x) } else { (String::new(), String::new(), String::new()) };
        let b = self.body(d + 1);
        let tb = self.st.pop().unwrap().names.join(",");
        self.no_do = old;
        let c = self.close("end");
        let n = self.nl();
        (format!(" do{ps} {}{n}{c}", b.s), format!("(lambda {{|{pe}| <{tb}{extra}> (begin {} - -)}})", b.e))
    }
    fn simple(&mut self, d: usize) -> T {
        if self.budget == 0 || d > 6 { let a = self.atom(); return a; }
        self.budget -= 1;
        let k = match self.w {
            W::Command => if self.rng.one_in(2) { 4 + self.rng.below(4) } else { self.rng.below(14) },
            W::Do => if self.rng.one_in(2) { 8 + self.rng.below(3) } else { self.rng.below(14) },
            W::Assign => if self.rng.one_in(2) { 2 + self.rng.below(2) } else { self.rng.below(14) },
            W::Nest | W::Closers | W::Params => if self.rng.one_in(2) { 11 + self.rng.below(3) } else { self.rng.below(14) },
            _ => self.rng.below(14),
        };
        match k {
            0 | 1 => { let x = self.e(P_ARG, d); if x.s.starts_with('{') { self.paren(x) } else { x } }
            2 => {
                // several right-hand sides
                let (ls, le, n) = if self.rng.one_in(2) && !self.still { let n = self.name(); (n.clone(), String::new(), Some(n)) } else { let (a, b) = self.lhs(d); (a, b, None) };
                let m = 2 + self.rng.below(2);
                let (s, e, k) = self.items(m, d + 1);
                let le = match n { Some(n) => format!("lvar{}:{n}", self.assign(&n)), None => le };
                t(format!("{ls} = {s}"), format!("(= ({le}) ([{e}{}]))", if k { " const" } else { "" }), 3)
            }
            3 => {
                // several left-hand sides, one of them starred
                let n = 1 + self.rng.below(3);
                let star = if self.rng.one_in(3) { Some(self.rng.below(n)) } else { None };
                let tail = if n == 1 { star.is_none() || self.rng.one_in(4) } else { self.rng.one_in(5) };
                let mut v: Vec<(String, Option<String>)> = vec![];
                for _ in 0..n {
                    if !self.still && self.rng.one_in(2) { let n = self.name(); v.push((n, None)); } else { let (a, b) = self.lhs(d); v.push((a, Some(b))); }
                }
                let m = 1 + self.rng.below(3);
                let old = std::mem::replace(&mut self.still, true);
                let (s, e, k) = self.items(m, d + 1);
                self.still = old;
                let splat = self.splat;
                let (mut ts, mut te) = (vec![], vec![]);
                for (i, (x, y)) in v.into_iter().enumerate() {
                    let y = match y { Some(y) => y, None => format!("lvar{}:{x}", self.assign(&x)) };
                    let p = if star == Some(i) { "*" } else { "" };
                    ts.push(format!("{p}{x}"));
                    te.push(format!("{p}{y}"));
                }
                let mut ts = ts.join(if self.rng.one_in(5) { "," } else { ", " });
                if tail { ts += ","; te.push("_discard".into()); }
                let single = n == 1 && !tail;
                let e = if splat || single && m > 1 { format!("[{e}{}]", if k && single { " const" } else { "" }) } else { e };
                t(format!("{ts} = {s}"), format!("(= ({}) ({e}))", te.join(" ")), 3)
            }
            4 => self.command(d),
            5 => {
                let (k, e) = *self.rng.pick(&[("return", "return"), ("break", "break"), ("next", "next")]);
                if self.rng.one_in(3) { t(k, format!("({e} nil)"), 2) } else { let sn = self.snap(); let x = self.e(P_ARG, d); let x = if modifier(&x.s) || x.s.starts_with(['[', '{', '(', '-', '+', '*', '&', ':', '~', '!']) { self.back(sn); self.atom() } else { x }; t(format!("{k} {}", x.s), format!("({e} {})", x.e), 2) }
            }
            6 => {
                if self.rng.one_in(3) { t("yield", "(yield )", 2) } else {
                    let n = 1 + self.rng.below(2);
                    let (s, e) = self.plain(n, d);
                    if self.rng.one_in(3) { let c = self.close(")"); t(format!("yield({s}{c}"), format!("(yield {e})"), 2) } else { t(format!("yield {s}"), format!("(yield {e})"), 2) }
                }
            }
            7 => {
                if self.rng.one_in(3) { t("super", "super", 2) } else {
                    let n = 1 + self.rng.below(2);
                    let (s, e) = self.plain(n, d);
                    if self.rng.one_in(3) { let c = self.close(")"); t(format!("super({s}{c}"), format!("(super {e})"), 2) } else { t(format!("super {s}"), format!("(super {e})"), 2) }
                }
            }
            8 | 9 => self.construct(d),
            _ => self.construct(d),
        }
    }
    /// arguments that begin with a plain token
    fn plain(&mut self, n: usize, d: usize) -> (String, String) {
        let old = std::mem::replace(&mut self.no_do, true);
        let (mut s, mut e) = (String::new(), vec![]);
        for i in 0..n {
            let sn = self.snap();
            let x = self.e(P_ARG, d + 1);
            let x = if i == 0 && (modifier(&x.s) || !x.s.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '@')) { self.back(sn); t("@v", "ivar:@v", P_PRIM) } else { x };
            if i > 0 { s += ", "; }
            s += &x.s;
            e.push(x.e);
        }
        self.no_do = old;
        (s, e.join(" "))
    }
    /// the heading of a construct: terminated by a line end, `;` or its keyword
    fn head(&mut self, d: usize, kw: &str) -> T {
        let x = self.cond(d);
        let n = match self.rng.below(3) { 0 => format!(" {kw} "), 1 => self.nl(), _ if kw == "then" => format!("\n{kw} "), _ => format!(" {kw}\n") };
        T { s: format!("{}{n}", x.s), ..x }
    }
    fn opt_body(&mut self, d: usize) -> T {
        if self.rng.one_in(10) { t("", "(do )", 0) } else { let b = self.body(d); let n = self.nl(); T { s: format!("{}{n}", b.s), ..b } }
    }
    fn construct(&mut self, d: usize) -> T {
        let d = d + 1;
        let k = match self.w { W::Do => if self.rng.one_in(2) { 2 + self.rng.below(3) } else { self.rng.below(12) }, W::Params => if self.rng.one_in(2) { 7 } else { self.rng.below(12) }, _ => self.rng.below(12) };
        match k {
            0 => {
                let c = self.head_any(d, "then");
                let a = self.opt_body(d);
                let mut s = format!("if {}{}", c.s, a.s);
                let mut tail = vec![];
                for _ in 0..self.rng.below(3) {
                    let c = self.head_any(d, "then");
                    let b = self.opt_body(d);
                    s += &format!("elsif {}{}", c.s, b.s);
                    tail.push((c.e, b.e));
                }
                let mut els = "(do )".to_string();
                if self.rng.one_in(2) { let b = self.opt_body(d); s += &format!("else\n{}", b.s); els = b.e; }
                for (c, b) in tail.into_iter().rev() { els = format!("(if {c} {b} {els})"); }
                t(format!("{s}{}", self.close("end")), format!("(if {} {} {els})", c.e, a.e), P_PRIM)
            }
            1 => {
                let c = self.head_any(d, "then");
                let a = self.opt_body(d);
                let mut s = format!("unless {}{}", c.s, a.s);
                let mut els = "(do )".to_string();
                if self.rng.one_in(3) { let b = self.opt_body(d); s += &format!("else\n{}", b.s); els = b.e; }
                t(format!("{s}{}", self.close("end")), format!("(if {} {els} {})", c.e, a.e), P_PRIM)
            }
            2 | 3 => {
                let k = *self.rng.pick(&["while", "until"]);
                let old = std::mem::replace(&mut self.no_do, true);
                let c = self.head(d, "do");
                self.no_do = false;
                let b = self.opt_body(d);
                self.no_do = old;
                t(format!("{k} {}{}{}", c.s, b.s, self.close("end")), format!("({k} {} {})", c.e, b.e), P_PRIM)
            }
            4 => {
                let n = self.name();
                if self.still { return self.atom(); }
                let o = self.assign(&n);
                let old = std::mem::replace(&mut self.no_do, true);
                let c = self.head(d, "do");
                self.no_do = false;
                self.st.push(Sc { kind: 2, names: vec![] });
                let b = self.opt_body(d);
                self.st.pop();
                self.no_do = old;
                t(format!("for {n} in {}{}{}", c.s, b.s, self.close("end")), format!("(for [({o}, {n:?})] {} {{|| <> {}}})", c.e, b.e), P_PRIM)
            }
            5 => {
                let some = !self.rng.one_in(4);
                let (cs, ce) = if some { let c = self.head_nl(d); (format!("case {}", c.s), c.e) } else { ("case\n".to_string(), "-".to_string()) };
                let (mut s, mut e) = (cs, format!("(case {ce}"));
                for _ in 0..1 + self.rng.below(2) {
                    let m = 1 + self.rng.below(2);
                    let (ws, we, _) = self.items(m, d);
                    let old = std::mem::replace(&mut self.no_do, false);
                    let n = match self.rng.below(2) { 0 => " then ".to_string(), _ => "\n".into() };
                    let b = self.opt_body(d);
                    self.no_do = old;
                    s += &format!("when {ws}{n}{}", b.s);
                    e += &format!(" (when [{we}] {})", b.e);
                }
                let mut els = "(do )".to_string();
                if self.rng.one_in(2) { let b = self.in_body(d); s += &format!("else\n{}", b.s); els = b.e; }
                t(format!("{s}{}", self.close("end")), format!("{e} {els})"), P_PRIM)
            }
            6 => { let (s, e) = self.begin_body(d); t(format!("begin\n{s}{}", self.close("end")), e, P_PRIM) }
            7 | 8 => {
                let old = (std::mem::replace(&mut self.no_do, false), std::mem::replace(&mut self.in_def, true), std::mem::replace(&mut self.still, false));
                self.st.push(Sc { kind: 0, names: vec![] });
                let (ps, pe, extra) = match self.rng.below(4) {
                    0 => (if self.rng.one_in(2) { "\n".to_string() } else { ";".into() }, String::new(), String::new()),
                    1 => { let (s, e, x) = self.params(d, false); if s.starts_with('(') || s.ends_with('*') { let c = self.close(")"); (format!("({s}{c} "), e, x) } else { (format!(" {s}\n"), e, x) } }
                    _ => { let (s, e, x) = self.params(d, false); let c = self.close(")"); (format!("({s}{c}{}", if self.rng.one_in(2) { "\n" } else { "; " }), e, x) }
                };
                let (s, e) = self.begin_body(d);
                let tb = self.st.pop().unwrap().names.join(",");
                (self.no_do, self.in_def, self.still) = old;
                let name = match self.w { W::Tokens => *self.rng.pick(&["m", "endx", "if_", "==", "+", "[]", "<=>", "<<", "m?", "m!", "%", "*", "===", "-"]), _ => *self.rng.pick(&["m", "m?", "m!"]) };
                let info = format!("{{|{pe}| <{tb}{extra}> {e}}}");
                if self.rng.one_in(5) { t(format!("def self.m{ps}{s}{}", self.close("end")), format!("(sdef self m {info})"), P_PRIM) }
                else {
                    // the name and the parameters must not run together
                    let ps = if ps.starts_with('(') || ps.starts_with('\n') || ps.starts_with(' ') { ps } else { format!(" {ps}") };
                    t(format!("def {name}{ps}{s}{}", self.close("end")), format!("(def {name} {info})"), P_PRIM)
                }
            }
            9 | 10 => {
                if self.in_def { return self.array(d); }
                let old = (std::mem::replace(&mut self.no_do, false), std::mem::replace(&mut self.still, false));
                // the superclass stands outside the body
                let (hs, h) = match self.rng.below(4) {
                    0 => ("class Foo < Bar\n".to_string(), "(class - Foo < (const Bar) "),
                    1 => ("class Foo\n".to_string(), "(class - Foo < - "),
                    2 => ("module Foo; ".to_string(), "(module - Foo < - "),
                    _ => ("class << self\n".to_string(), "(sclass self "),
                };
                self.st.push(Sc { kind: 0, names: vec![] });
                let (s, e) = self.begin_body(d);
                let tb = self.st.pop().unwrap().names.join(",");
                (self.no_do, self.still) = old;
                t(format!("{hs}{s}{}", self.close("end")), format!("{h}{{|| <{tb}> {e}}})"), P_PRIM)
            }
            _ => self.lambda(d),
        }
    }
    /// a heading in which `do` may open a block again
    fn head_any(&mut self, d: usize, kw: &str) -> T { self.head(d, kw) }
    fn head_nl(&mut self, d: usize) -> T { let x = self.cond(d); let n = if self.rng.one_in(2) { "\n" } else { ";" }; T { s: format!("{}{n}", x.s), ..x } }
    fn in_body(&mut self, d: usize) -> T {
        let old = std::mem::replace(&mut self.no_do, false);
        let b = self.opt_body(d);
        self.no_do = old;
        b
    }
    /// statements with their rescue, else and ensure parts
    fn begin_body(&mut self, d: usize) -> (String, String) {
        let old = std::mem::replace(&mut self.no_do, false);
        let b = self.opt_body(d);
        let (mut s, mut e) = (b.s, format!("(begin {}", b.e));
        let mut els = "-".to_string();
        let mut ens = "-".to_string();
        if self.rng.one_in(4) {
            for _ in 0..1 + self.rng.below(2) {
                let (ls, le) = match self.rng.below(3) { 0 => (String::new(), ""), 1 => (" Err1".to_string(), "(const Err1)"), _ => (" Err1, Err2".to_string(), "(const Err1) (const Err2)") };
                let (vs, ve) = if self.rng.one_in(3) && !ls.is_empty() && !self.still { let n = self.name(); let o = self.assign(&n); (format!(" => {n}"), format!("lvar{o}:{n}")) } else { (String::new(), "-".into()) };
                let b = self.opt_body(d);
                s += &format!("rescue{ls}{vs}\n{}", b.s);
                e += &format!(" (rescue [{le}] {ve} {})", b.e);
            }
            if self.rng.one_in(3) { let b = self.opt_body(d); s += &format!("else\n{}", b.s); els = b.e; }
        }
        if self.rng.one_in(6) { let b = self.opt_body(d); s += &format!("ensure\n{}", b.s); ens = b.e; }
        self.no_do = old;
        (s, format!("{e} {els} {ens})"))
    }
}
/// A closer is taken away or exchanged for another one.
pub fn damage(rng: &mut Rng, s: &str) -> Option<String> {
    let marks: Vec<usize> = s.match_indices(MARK).map(|x| x.0).collect();
    if marks.is_empty() { return None; }
    let at = marks[rng.below(marks.len())];
    let head = &s[..at];
    // with one `end` more, the `do` of a loop can be read as a block's
    let word = |w: &str| s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| x == w);
    let loop_do = word("do") && (word("while") || word("until") || word("for"));
    let c = if head.ends_with("end") { "end" } else { &head[head.len() - 1..] };
    if rng.one_in(5) {
        // one closer too many
        let x = *rng.pick(&[" end", ")", "]", "}"]);
        if x == " end" && loop_do { return None; }
        return Some(format!("{head}{x}{}", &s[at..]).replace(MARK, ""));
    }
    let with = match rng.below(3) { 0 => "", _ => { let o: Vec<&str> = ["end", ")", "]", "}"].into_iter().filter(|x| *x != c).collect(); *rng.pick(&o) } };
    if with == "end" && loop_do { return None; }
    let with = if with == "end" { " end" } else { with };
    Some(format!("{}{with}{}", &head[..head.len() - c.len()], &s[at..]).replace(MARK, ""))
}
