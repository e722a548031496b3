//! Mechanical extraction of /repo/src into a Verus crate.
//!
//! The generated text is the original text with a list of *edits* (byte-range
//! replacements) applied to it.  Every kind of edit is listed in EXTRACTION.md;
//! nothing else changes.  Contracts come from /verif/contracts/*.vc and are
//! inserted between signature and body (functions) or between loop header and
//! loop body (loops); ghost blocks are inserted at named anchors.
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

mod contract;
mod rules;
use contract::*;
use rules::*;

fn die(msg: &str) -> ! {
    eprintln!("EXTRACT-ERROR: {}", msg);
    std::process::exit(3);
}

#[derive(Clone)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub text: String,
    pub ord: usize,
}

pub fn br(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}

#[derive(Default)]
pub struct FnInfo {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub contract: bool,
    pub external: bool,
    pub degraded: bool,
    pub hash: u64,
    pub binders: Vec<String>,
    pub loops: usize,
    pub shape: String,
    pub gen: (usize, usize),
}

/// ghost facts made available in every module
const PRELUDE: &str = "broadcast use {crate::strmodel::group_str, crate::stdx::group_stdx, crate::strmodel::a_str_max};\n";

fn collect_rs(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            collect_rs(&p, out)
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p)
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        die("usage: extract SRC_DIR CONTRACT_DIR SPEC_DIR OUT_DIR [DEGRADED_LIST]");
    }
    let src = PathBuf::from(&args[1]);
    let cdir = PathBuf::from(&args[2]);
    let sdir = PathBuf::from(&args[3]);
    let out = PathBuf::from(&args[4]);
    let mut contracts = load_contracts(&cdir, &spec_fns(&sdir));
    let degraded: BTreeSet<String> = args.get(5).map(|p| std::fs::read_to_string(p).unwrap_or_default()).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
    let mut files = vec![];
    collect_rs(&src, &mut files);
    let mut infos: Vec<FnInfo> = vec![];
    let mut report = String::new();
    let mut lost: Vec<String> = vec![];
    let mut specs: Vec<String> = std::fs::read_dir(&sdir)
        .unwrap()
        .map(|e| e.unwrap().file_name().to_string_lossy().to_string())
        .filter(|n| n.ends_with(".rs"))
        .map(|n| n.trim_end_matches(".rs").to_string())
        .collect();
    specs.sort();
    std::fs::create_dir_all(&out).unwrap();
    let spec_text: String = specs.iter().map(|s| std::fs::read_to_string(sdir.join(format!("{s}.rs"))).unwrap()).collect();
    let mut asts = vec![];
    for f in &files {
        let text = std::fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{e}")));
        asts.push(syn::parse_file(&text).unwrap_or_else(|e| die(&format!("{}: {e}", f.display()))));
    }
    let mut exact = exact_types(&asts);
    // enums declared inside functions
    for n in ["Kind", "TermMode"] { exact.insert(n.to_string()); }
    let base_binders: BTreeMap<String, Vec<String>> = std::fs::read_to_string(cdir.join("../baseline/binders.tsv")).unwrap_or_default()
        .lines().filter_map(|l| l.split_once('\t').map(|(k, v)| (k.to_string(), v.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()))).collect();
    let levels = levels(&asts, &contracts);
    let rets = ret_kinds(&asts);
    let located = located_methods(&asts);
    for f in &files {
        let rel = f.strip_prefix(&src).unwrap().to_string_lossy().to_string();
        if rel == "main.rs" {
            let _ = writeln!(report, "dropped-file main.rs");
            continue;
        }
        let text = std::fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{rel}: {e}")));
        let ast = syn::parse_file(&text).unwrap_or_else(|e| die(&format!("{rel}: {e}")));
        let mut cx = Cx::new(&rel, &text, &mut contracts, exact.clone());
        cx.levels = levels.clone();
        cx.rets = rets.clone();
        cx.located = located.clone();
        cx.degraded = degraded.clone();
        cx.base_binders = base_binders.clone();
        cx.run(&ast);
        let Cx { edits, infos: fi, notes, lost: l, hoisted_mods, tail, .. } = cx;
        for n in notes {
            let _ = writeln!(report, "{n}");
        }
        lost.extend(l);
        let body = apply(&text, edits);
        let mut o = String::new();
        if rel == "lib.rs" {
            o.push_str("#![allow(unused, deprecated)]\n");
            for s in &specs {
                let _ = writeln!(o, "pub mod {s};");
            }
        }
        o.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n");
        if rel == "lib.rs" {
            for s in &specs {
                let _ = writeln!(o, "#[allow(unused_imports)] use crate::{s}::*;");
            }
        } else {
            for s in &specs {
                let _ = writeln!(o, "#[allow(unused_imports)] use crate::{s}::*;");
            }
        }
        for m in hoisted_mods {
            o.push_str(&m);
            o.push('\n');
        }
        o.push_str("verus!{\n");
        let pm = rel.starts_with("parser") && !rel.ends_with("lexer.rs");
        if rel != "lib.rs" { o.push_str(&if pm && rel.ends_with("literals.rs") { PRELUDE.replace("};", ", crate::parsespec::group_parse};") } else if pm { "broadcast use {crate::stdx::group_stdx, crate::parsespec::group_parse};\n".to_string() } else { PRELUDE.to_string() }); }
        o.push_str(&body);
        o.push_str(&tail);
        o.push_str(&from_specs(&ast, &spec_text));
        o.push_str("\n} // verus!\n");
        let dst = out.join(&rel);
        std::fs::create_dir_all(dst.parent().unwrap()).unwrap();
        std::fs::write(&dst, &o).unwrap();
        infos.extend(fi);
    }
    for s in &specs {
        std::fs::copy(sdir.join(format!("{s}.rs")), out.join(format!("{s}.rs"))).unwrap();
    }
    // every contract must have found its function
    let mut used: BTreeSet<String> = BTreeSet::new();
    for i in &infos {
        used.insert(i.key.clone());
    }
    for k in contracts.keys() {
        if !k.starts_with("class:") && !k.starts_with("callsite:") && !used.contains(k) {
            lost.push(format!("fn {k}"));
        }
    }
    let mut fl = String::new();
    for i in &infos {
        let _ = writeln!(
            fl,
            "{}\t{}\t{}\t{}\t{}\t{}\t{:016x}",
            i.key,
            i.file,
            i.line,
            if i.degraded { "degraded" } else if i.external { "external" } else if i.contract { "contract" } else { "plain" },
            i.loops,
            if i.shape.is_empty() { "-" } else { i.shape.as_str() },
            i.hash
        );
    }
    std::fs::write(out.join("functions.tsv"), fl).unwrap();
    std::fs::write(out.join("binders.tsv"), infos.iter().map(|i| format!("{}\t{}\n", i.key, i.binders.join(","))).collect::<String>()).unwrap();
    std::fs::write(out.join("extract-report.txt"), report).unwrap();
    std::fs::write(out.join("lost-anchors.txt"), lost.iter().map(|l| format!("{l}\n")).collect::<String>()).unwrap();
    println!("functions {} contracts {} lost {}", infos.len(), contracts.len(), lost.len());
    let _: BTreeMap<(), ()> = BTreeMap::new();
}

/// `impl From<A> for B`: vstd's own postcondition of `from` is switched off
/// unless the specification files state it.
fn from_specs(ast: &syn::File, spec: &str) -> String {
    let mut o = String::new();
    for i in &ast.items {
        if let syn::Item::Impl(i) = i {
            if let Some((_, p, _)) = &i.trait_ {
                let l = p.segments.last().unwrap();
                if l.ident != "From" { continue; }
                let a = match &l.arguments { syn::PathArguments::AngleBracketed(a) => { let x = &a.args; quote::quote!(#x).to_string() } _ => continue };
                let t = &i.self_ty;
                let t = quote::quote!(#t).to_string();
                let head = format!("FromSpecImpl<{a}> for {t}");
                if spec.contains(&head) { continue; }
                o.push_str(&format!("impl vstd::std_specs::convert::{head} {{ open spec fn obeys_from_spec() -> bool {{ false }} open spec fn from_spec(v: {a}) -> Self {{ arbitrary() }} }}\n"));
            }
        }
    }
    o
}

/// Apply non-overlapping edits. Insertions at the same place keep `ord` order.
/// An edit nested inside a replaced range is a bug of the rules: reported.
fn apply(text: &str, mut edits: Vec<Edit>) -> String {
    edits.sort_by(|a, b| (a.start, a.end, a.ord).cmp(&(b.start, b.end, b.ord)));
    let mut o = String::new();
    let mut pos = 0;
    for e in edits {
        if e.start < pos {
            die(&format!("overlapping edits at byte {} : {:?}", e.start, e.text));
        }
        o.push_str(&text[pos..e.start]);
        o.push_str(&e.text);
        pos = e.end;
    }
    o.push_str(&text[pos..]);
    o
}

#[allow(dead_code)]
fn _keep(_: &dyn Fn(&mut dyn FnMut())) {}
#[allow(unused)]
struct V;
impl<'a> Visit<'a> for V {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        visit::visit_expr(self, e);
        let _ = e.span();
    }
}
