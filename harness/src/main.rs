//! Bounded search on the real code (the crate in /repo, public API only).
//!
//!   harness search PID SEED SECS CURFILE   exit 1 + "FAIL ..." when an input breaks PID
//!   harness check  PID FILE                the same for one recorded input
//!   harness sexpr  TEXT...                 prints the tree of each text
//!   harness golden-gen DIR                 rewrites DIR/*.exp from DIR/*.rb
use ruruby_parse::*;
use std::panic::AssertUnwindSafe;
mod gen;
mod oracle;
mod sexpr;
mod tree;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() >> 16) as usize % n }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

pub struct Ctx(pub Vec<(String, usize)>);
impl LocalsContext for Ctx {
    fn find_lvar(&self, id: &str) -> Option<usize> {
        self.0.iter().find(|x| x.0 == id).map(|x| x.1)
    }
}

pub fn parse(s: &str) -> Result<ParseResult, ParseErr> {
    Parser::<DummyContext>::parse_program(s.to_string(), "t.rb")
}

/// Golden cases of a property: (source, expected rendering).
pub fn goldens(pid: &str) -> Vec<(String, String)> {
    let d = concat!(env!("CARGO_MANIFEST_DIR"), "/golden");
    let rb = std::fs::read_to_string(format!("{d}/{pid}.rb")).unwrap_or_default();
    let ex = std::fs::read_to_string(format!("{d}/{pid}.exp")).unwrap_or_default();
    snippets(&rb).into_iter().zip(ex.lines().map(|l| l.to_string())).collect()
}
pub fn snippets(rb: &str) -> Vec<String> {
    rb.split("\n---\n").map(|s| s.strip_suffix("\n---").unwrap_or(s).trim_end_matches('\n').to_string()).filter(|s| !s.is_empty()).map(|s| s.replace("\\CR\\", "\r")).collect()
}
pub fn corpus() -> Vec<String> {
    let d = concat!(env!("CARGO_MANIFEST_DIR"), "/golden");
    let mut fs: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "rb")).collect();
    fs.sort();
    let mut v: Vec<String> = fs.iter().flat_map(|f| snippets(&std::fs::read_to_string(f).unwrap())).collect();
    // the statements of the snippets on their own
    for s in v.clone() {
        for t in s.split(|c| c == ';' || c == '\n') {
            let t = t.trim().to_string();
            if !t.is_empty() && !v.contains(&t) { v.push(t) }
        }
    }
    v
}
/// One-line rendering of the outcome of a parse.
pub fn render(s: &str) -> String {
    match parse(s) {
        Ok(r) => format!("{} {}", sexpr::lvar(&r.lvar_collector), sexpr::node(&r.node)),
        Err(e) => format!("ERR {}", match e.kind { ParseErrKind::UnexpectedEOF => "eof".to_string(), ParseErrKind::SyntaxError(_) => "syntax".to_string() }),
    }
}

fn run() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "sexpr" => {
            for s in &a[2..] {
                let r = std::panic::catch_unwind(|| render(s));
                println!("{s:?} => {}", r.unwrap_or("PANIC".into()));
                if let Ok(Err(e)) = std::panic::catch_unwind(|| parse(s)) { println!("    {:?} {:?}", e.kind, e.loc) }
            }
        }
        "golden-gen" => {
            for e in std::fs::read_dir(&a[2]).unwrap() {
                let p = e.unwrap().path();
                if p.extension().map_or(true, |e| e != "rb") { continue; }
                let t = std::fs::read_to_string(&p).unwrap();
                let o: String = snippets(&t).iter().map(|s| format!("{}\n", std::panic::catch_unwind(|| render(s)).unwrap_or("PANIC".into()))).collect();
                std::fs::write(p.with_extension("exp"), o).unwrap();
            }
        }
        "tree" => {
            // tree KIND N SEED: the generator against the parser
            let w = oracle::kind(&a[2]);
            let n: u64 = a[3].parse().unwrap();
            let mut bad = 0;
            let mut size = 0;
            for i in 0..n {
                let mut rng = Rng((a[4].parse::<u64>().unwrap() + i).wrapping_mul(0x9E3779B97F4A7C15) | 1);
                for _ in 0..8 { rng.next(); }
                let (s, e) = tree::G::new(&mut rng, w).program();
                let t = s.replace(tree::MARK, "");
                size += t.len();
                let got = std::panic::catch_unwind(|| render(&t)).unwrap_or("PANIC".into());
                if got != e { bad += 1; if bad <= 5 { println!("----- {i}\n{t}\n  want {e}\n  got  {got}"); } }
            }
            println!("{bad} of {n} differ, {} bytes on average", size / n as usize);
        }
        "damage" => {
            // damage N SEED: texts with a damaged closer that are accepted
            let mut bad = 0;
            for i in 0..a[2].parse::<u64>().unwrap() {
                let mut rng = Rng((a[3].parse::<u64>().unwrap() + i).wrapping_mul(0x9E3779B97F4A7C15) | 1);
                for _ in 0..8 { rng.next(); }
                let (s, _) = tree::G::new(&mut rng, tree::W::Closers).program();
                let t = match tree::damage(&mut rng, &s) { Some(t) => t, None => continue };
                let got = std::panic::catch_unwind(|| render(&t)).unwrap_or("PANIC".into());
                if !got.starts_with("ERR") { bad += 1; if bad <= 5 { println!("----- {i}\n{}\n  -----\n{t}\n  got  {got}", s.replace(tree::MARK, "")); } }
            }
            println!("{bad} accepted");
        }
        "check" => {
            let s = std::fs::read_to_string(&a[3]).unwrap();
            match guarded(&a[2], &s) {
                Ok(()) => println!("ok"),
                Err(e) => { println!("FAIL {e}"); std::process::exit(1) }
            }
        }
        "search" => {
            let seed: u64 = a[3].parse().unwrap();
            let secs: f64 = a[4].parse().unwrap();
            let mut rng = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
            for _ in 0..8 { rng.next(); }
            let t0 = std::time::Instant::now();
            let mut n = 0usize;
            let mut nontrivial = 0usize;
            let mut seen = std::collections::HashSet::new();
            let mut samples: Vec<String> = vec![];
            let mut cases = oracle::fixed(&a[2]);
            cases.reverse();
            loop {
                let s = match cases.pop() {
                    Some(s) => s,
                    None => {
                        if t0.elapsed().as_secs_f64() > secs { break; }
                        oracle::generate(&a[2], &mut rng)
                    }
                };
                std::fs::write(&a[5], &s).unwrap();
                n += 1;
                if s.len() > 3 && seen.len() < 2_000_000 {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    s.hash(&mut h);
                    if seen.insert(h.finish()) { nontrivial += 1; }
                }
                if n % 997 == 5 && samples.len() < 3 { samples.push(s.chars().take(160).collect()); }
                if let Err(e) = guarded(&a[2], &s) {
                    let s = shrink(&a[2], s);
                    std::fs::write(&a[5], &s).unwrap();
                    let e2 = guarded(&a[2], &s).err().unwrap_or(e);
                    println!("FAIL {e2}");
                    std::process::exit(1);
                }
            }
            println!("OK\t{n}\t{nontrivial}\t{samples:?}");
        }
        _ => panic!("usage"),
    }
}

/// The oracle, with a panic of the parser turned into an error for the
/// property about panics and ignored for every other one.
pub fn guarded(pid: &str, s: &str) -> Result<(), String> {
    match std::panic::catch_unwind(AssertUnwindSafe(|| oracle::check(pid, s))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if pid == "C01" || oracle::is_fixed(pid, s) { Err(format!("panic: {m}")) } else { Ok(()) }
        }
    }
}

/// Shorten a failing input (only where the oracle works on arbitrary text).
fn shrink(pid: &str, s: String) -> String {
    if !oracle::shrinkable(pid) { return s; }
    let mut cur: Vec<char> = s.chars().collect();
    let t0 = std::time::Instant::now();
    let mut step = cur.len() / 2;
    while step > 0 {
        let mut i = 0;
        while i < cur.len() && t0.elapsed().as_secs() < 5 {
            let mut c = cur.clone();
            c.drain(i..(i + step).min(cur.len()));
            let t: String = c.iter().collect();
            if guarded(pid, &t).is_err() { cur = c } else { i += step }
        }
        step /= 2;
    }
    cur.into_iter().collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap().join().ok();
}
