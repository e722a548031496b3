use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct Contract {
    pub ret: Option<String>,
    pub class: Option<String>,             // class of default clauses to use
    pub sig: String,                       // raw signature text
    pub requires: String,
    pub ensures: String,
    pub decreases: String,
    pub level: Option<u32>,
    pub nodefault: bool,
    pub noensdefault: bool,
    pub nolevel: bool,
    pub trust: Option<String>,             // trusted wrapper postcondition
    pub default_loops: bool,
    pub attrs: Vec<String>,
    pub body: String,                      // ghost text at body start
    pub end: String,
    pub loops: BTreeMap<usize, String>,    // invariants
    pub loopbody: BTreeMap<usize, String>, // ghost text at loop body start
    pub loopend: BTreeMap<usize, String>,
    pub before: Vec<(usize, String, String)>, // (k, pattern, text)
    pub after: Vec<(usize, String, String)>,
    pub calls: Vec<(String, String)>, // (method of self, ghost text before its call)
    pub external: bool,
    pub src: String,
}

/// the functions declared at the top level of the specification modules
pub fn spec_fns(sdir: &Path) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(sdir).unwrap() {
        let p = e.unwrap().path();
        let (Some(stem), Some("rs")) = (p.file_stem().and_then(|x| x.to_str()), p.extension().and_then(|x| x.to_str())) else { continue };
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            if !l.starts_with("pub ") { continue; }
            let Some(i) = l.find("fn ") else { continue };
            let head = &l[..i];
            if !["spec", "proof", "axiom"].iter().any(|k| head.contains(k)) { continue; }
            let n: String = l[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            m.insert(n, stem.to_string());
        }
    }
    m
}

/// calls of specification functions by full path: a parameter or local
/// variable of the same name does not hide them
fn qualify(line: &str, names: &BTreeMap<String, String>) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut o = String::new();
    let mut w = String::new();
    let mut prev = ' ';
    for c in line.chars() {
        if id(c) { w.push(c); continue; }
        if !w.is_empty() {
            if c == '(' && prev != '.' && prev != ':' {
                if let Some(m) = names.get(&w) { o.push_str(&format!("crate::{m}::")); }
            }
            o.push_str(&w);
            w.clear();
        }
        o.push(c);
        prev = c;
    }
    o.push_str(&w);
    o
}

pub fn load_contracts(dir: &Path, names: &BTreeMap<String, String>) -> BTreeMap<String, Contract> {
    let mut m: BTreeMap<String, Contract> = BTreeMap::new();
    let mut fs: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    fs.sort();
    for f in fs {
        if f.extension().map_or(true, |e| e != "vc") {
            continue;
        }
        let t = std::fs::read_to_string(&f).unwrap();
        let mut cur: Option<String> = None;
        #[derive(Clone)]
        enum Dst { Sig, Req, Ens, Dec, Trust, Body, End, Loop(usize), LoopBody(usize), LoopEnd(usize), Before(usize), After(usize), Call(usize), None }
        let mut dst = Dst::None;
        for (ln, line) in t.lines().enumerate() {
            let tl = line.trim_start();
            if let Some(d) = tl.strip_prefix("//@") {
                let d = d.trim();
                let (w, rest) = d.split_once(' ').unwrap_or((d, ""));
                let rest = rest.trim();
                if w == "fn" {
                    let k: String = rest.chars().filter(|c| !c.is_whitespace()).collect();
                    if m.contains_key(&k) {
                        crate::die(&format!("duplicate contract {k}"));
                    }
                    m.insert(k.clone(), Contract { src: format!("{}:{}", f.file_name().unwrap().to_string_lossy(), ln + 1), ..Default::default() });
                    cur = Some(k);
                    dst = Dst::Sig;
                    continue;
                }
                let c = match &cur { Some(k) => m.get_mut(k).unwrap(), None => crate::die("directive before //@ fn") };
                match w {
                    "ret" => c.ret = Some(rest.to_string()),
                    "sig" => dst = Dst::Sig,
                    "requires" => dst = Dst::Req,
                    "ensures" => dst = Dst::Ens,
                    "decreases" => dst = Dst::Dec,
                    "trust" => { c.trust = Some(String::new()); dst = Dst::Trust }
                    "level" => c.level = Some(rest.parse().unwrap()),
                    "class" => c.class = Some(rest.to_string()),
                    "nodefault" => c.nodefault = true,
                    "noensdefault" => c.noensdefault = true,
                    "nolevel" => c.nolevel = true,
                    "attr" => c.attrs.push(rest.to_string()),
                    "external" => c.external = true,
                    "body" => dst = Dst::Body,
                    "end" => dst = Dst::End,
                    "loop" => dst = Dst::Loop(rest.parse().unwrap()),
                    "loopbody" => dst = Dst::LoopBody(rest.parse().unwrap()),
                    "loopend" => dst = Dst::LoopEnd(rest.parse().unwrap()),
                    "call" => { c.calls.push((rest.to_string(), String::new())); dst = Dst::Call(c.calls.len() - 1) }
                    "before" | "after" => {
                        let (k, pat) = rest.split_once(' ').unwrap_or_else(|| crate::die("before/after K PATTERN"));
                        let pat: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
                        let v = if w == "before" { &mut c.before } else { &mut c.after };
                        v.push((k.parse().unwrap(), pat, String::new()));
                        dst = if w == "before" { Dst::Before(v.len() - 1) } else { Dst::After(v.len() - 1) };
                    }
                    "#" | "" => {}
                    _ => crate::die(&format!("unknown directive {w} in {}", f.display())),
                }
                continue;
            }
            let c = match &cur { Some(k) => m.get_mut(k).unwrap(), None => continue };
            let d: &mut String = match dst.clone() {
                Dst::Sig => &mut c.sig,
                Dst::Req => &mut c.requires,
                Dst::Ens => &mut c.ensures,
                Dst::Dec => &mut c.decreases,
                Dst::Trust => c.trust.as_mut().unwrap(),
                Dst::Body => &mut c.body,
                Dst::End => &mut c.end,
                Dst::Loop(i) => c.loops.entry(i).or_default(),
                Dst::LoopBody(i) => c.loopbody.entry(i).or_default(),
                Dst::LoopEnd(i) => c.loopend.entry(i).or_default(),
                Dst::Before(i) => &mut c.before[i].2,
                Dst::After(i) => &mut c.after[i].2,
                Dst::Call(i) => &mut c.calls[i].1,
                Dst::None => continue,
            };
            d.push_str(&qualify(line, names));
            d.push('\n');
        }
    }
    m
}

impl Contract {
    /// every whole-word occurrence of `a` that is not a field or a path segment becomes `b`
    pub fn rename(&mut self, a: &str, b: &str) {
        let f = |s: &mut String| *s = rename_word(s, a, b);
        f(&mut self.requires);
        f(&mut self.ensures);
        f(&mut self.decreases);
        f(&mut self.body);
        f(&mut self.end);
        self.loops.values_mut().for_each(f);
        self.loopbody.values_mut().for_each(f);
        self.loopend.values_mut().for_each(f);
        for v in [&mut self.before, &mut self.after] {
            for (_, p, t) in v.iter_mut() {
                f(p);
                f(t);
            }
        }
        self.calls.iter_mut().for_each(|(_, t)| f(t));
        if let Some(t) = &mut self.trust { f(t); }
    }
}
pub fn rename_word(s: &str, a: &str, b: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut o = String::new();
    let mut rest = 0;
    for (i, _) in s.match_indices(a) {
        if i < rest { continue; }
        let before = s[..i].chars().next_back();
        let after = s[i + a.len()..].chars().next();
        let whole = before.map_or(true, |c| !id(c) && c != '.' && c != '$') && after.map_or(true, |c| !id(c));
        // `a:` in a pattern or struct literal names a field, `::a` a path
        let field = s[..i].ends_with("::") || (s[i + a.len()..].starts_with(": ") && !s[..i].trim_end().ends_with('|'));
        if whole && !field {
            o.push_str(&s[rest..i]);
            o.push_str(b);
            rest = i + a.len();
        }
    }
    o.push_str(&s[rest..]);
    o
}
