use super::*;
use syn::visit::Visit;

pub struct Cx<'c> {
    pub rel: String,
    pub text: String,
    pub edits: Vec<Edit>,
    pub infos: Vec<FnInfo>,
    pub notes: Vec<String>,
    pub lost: Vec<String>,
    pub base_binders: BTreeMap<String, Vec<String>>,
    pub hoisted_mods: Vec<String>,
    pub tail: String,
    pub contracts: &'c mut BTreeMap<String, Contract>,
    pub exact: BTreeSet<String>,
    pub levels: BTreeMap<String, u32>,
    pub degraded: BTreeSet<String>,
    pub rets: BTreeMap<String, String>,
    pub located: BTreeSet<String>,
    ord: usize,
    nclo: usize,
}

fn nows(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && nows(&quote::quote!(#a).to_string()).contains("cfg(test)"))
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl<'c> Cx<'c> {
    pub fn new(rel: &str, text: &str, contracts: &'c mut BTreeMap<String, Contract>, exact: BTreeSet<String>) -> Self {
        Cx {
            rel: rel.to_string(),
            text: text.to_string(),
            edits: vec![],
            infos: vec![],
            notes: vec![],
            lost: vec![],
            base_binders: BTreeMap::new(),
            hoisted_mods: vec![],
            tail: String::new(),
            contracts,
            exact,
            levels: BTreeMap::new(),
            degraded: BTreeSet::new(),
            rets: BTreeMap::new(),
            located: BTreeSet::new(),
            ord: 0,
            nclo: 0,
        }
    }
    pub fn edit(&mut self, start: usize, end: usize, text: impl Into<String>) {
        self.ord += 1;
        let ord = self.ord;
        self.edits.push(Edit { start, end, text: text.into(), ord });
    }
    fn note(&mut self, sp: Span, what: &str) {
        self.notes.push(format!("{}:{} {}", self.rel, sp.start().line, what));
    }
    fn src(&self, sp: Span) -> String {
        let (a, b) = br(sp);
        self.text[a..b].to_string()
    }

    pub fn run(&mut self, f: &syn::File) {
        // paths to dependencies -> local stub modules
        for it in &f.items {
            self.item(it, "");
        }
        let text = self.text.clone();
        // dependency paths
        let _ = text;
    }

    fn vis(&mut self, v: &syn::Visibility, at: usize) {
        match v {
            syn::Visibility::Inherited => self.edit(at, at, "pub "),
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => {
                let (a, b) = br(r.span());
                self.edit(a, b, "pub");
            }
        }
    }

    /// R: derives.  `Sequence` is dropped; `Clone`, `PartialEq` and `PartialOrd`
    /// are replaced by explicit impls whose bodies are trusted and whose
    /// contracts state what the derive macros generate.
    fn derives(&mut self, attrs: &[syn::Attribute], name: &syn::Ident, gen: &syn::Generics, variants: Option<&syn::punctuated::Punctuated<syn::Variant, syn::Token![,]>>, fields: Option<&syn::Fields>) {
        let tail = derive_impls(attrs, name, gen, variants, fields, &self.exact);
        for a in attrs {
            if a.path().is_ident("derive") {
                let (x, y) = br(a.span());
                let n = kept_derives(a);
                self.edit(x, y, n);
                self.note(a.span(), &format!("derives of {name} made explicit"));
            }
        }
        self.tail.push_str(&tail);
    }

    fn item(&mut self, it: &syn::Item, self_ty: &str) {
        let _ = self_ty;
        match it {
            syn::Item::Mod(m) => {
                if is_cfg_test(&m.attrs) {
                    let (a, b) = br(m.span());
                    self.edit(a, b, "");
                    self.note(m.span(), "cfg(test) module dropped");
                } else if m.content.is_none() {
                    let (a, b) = br(m.span());
                    self.hoisted_mods.push(format!("pub mod {};", m.ident));
                    self.edit(a, b, "");
                } else {
                    die(&format!("{}: inline module {} not supported", self.rel, m.ident));
                }
            }
            syn::Item::Use(u) => {
                if is_cfg_test(&u.attrs) {
                    let (a, b) = br(u.span());
                    self.edit(a, b, "");
                    return;
                }
                let s = self.src(u.span());
                let mut n = s.clone();
                for d in ["num", "enum_iterator", "console"] {
                    n = n.replace(&format!("use {d}::"), &format!("use crate::dep_{d}::"));
                }
                if s.contains("enum_iterator") && s.contains("Sequence") {
                    n = n.replace("Sequence", "SequenceStub as _");
                }
                if n != s {
                    let (a, b) = br(u.span());
                    self.edit(a, b, n);
                    self.note(u.span(), "dependency path redirected to stub");
                }
            }
            syn::Item::Struct(s) => {
                if is_cfg_test(&s.attrs) {
                    let (a, b) = br(s.span());
                    self.edit(a, b, "");
                    self.note(s.span(), "cfg(test) item dropped");
                    return;
                }
                self.derives(&s.attrs, &s.ident, &s.generics, None, Some(&s.fields));
                self.vis(&s.vis, br(s.struct_token.span).0);
                for f in s.fields.iter() {
                    let at = match &f.ident { Some(i) => br(i.span()).0, None => br(f.ty.span()).0 };
                    self.vis(&f.vis, at);
                }
            }
            syn::Item::Enum(e) => {
                if is_cfg_test(&e.attrs) {
                    let (a, b) = br(e.span());
                    self.edit(a, b, "");
                    return;
                }
                self.derives(&e.attrs, &e.ident, &e.generics, Some(&e.variants), None);
                self.vis(&e.vis, br(e.enum_token.span).0);
            }
            syn::Item::Type(t) => self.vis(&t.vis, br(t.type_token.span).0),
            syn::Item::Const(t) => self.vis(&t.vis, br(t.const_token.span).0),
            syn::Item::Trait(t) => {
                self.vis(&t.vis, br(t.trait_token.span).0);
                let name = t.ident.to_string();
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        let key = format!("trait {}::{}", name, f.sig.ident);
                        self.func(&nows(&key), &f.attrs, &f.sig, f.default.as_ref(), f.span(), Some(br(f.semi_token.map(|s| s.span).unwrap_or(f.sig.span())).0));
                    }
                }
            }
            syn::Item::Impl(im) => {
                if is_cfg_test(&im.attrs) {
                    let (a, b) = br(im.span());
                    self.edit(a, b, "");
                    self.note(im.span(), "cfg(test) impl dropped");
                    return;
                }
                let ty = match &*im.self_ty {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    o => nows(&quote::quote!(#o).to_string()),
                };
                let tr = im.trait_.as_ref().map(|(_, p, _)| {
                    let s = p.segments.last().unwrap();
                    nows(&quote::quote!(#s).to_string())
                });
                let dbg = tr.as_deref() == Some("Debug") || tr.as_deref() == Some("Display");
                if dbg {
                    // formatting only: kept, but outside the verifier
                    let (a, _) = br(im.impl_token.span);
                    self.edit(a, a, "#[verifier::external] ");
                    self.note(im.span(), "Debug/Display impl marked external");
                    return;
                }
                let add = tr.as_deref().map_or(false, |t| t.starts_with("AddAssign<&"));
                if add {
                    // R: impl AddAssign<&T> -> impl AddX<T> (same body)
                    let p = &im.trait_.as_ref().unwrap().1;
                    let (a, b) = br(p.span());
                    let t = tr.as_deref().unwrap().trim_start_matches("AddAssign<&").trim_end_matches('>').to_string();
                    self.edit(a, b, format!("crate::stdx::AddX<{t}>"));
                    self.note(p.span(), "impl AddAssign<&T> -> impl AddX<T>");
                }
                for i in &im.items {
                    match i {
                        syn::ImplItem::Fn(f) => {
                            if add {
                                let (a, b) = br(f.sig.ident.span());
                                self.edit(a, b, "add_x");
                            }
                            let key = match &tr {
                                Some(t) => format!("<{} as {}>::{}", ty, t, f.sig.ident),
                                None => format!("{}::{}", ty, f.sig.ident),
                            };
                            if tr.is_none() && f.sig.ident == "is_empty" {
                                // R: the calls of this name are renamed
                                let (a, b) = br(f.sig.ident.span());
                                self.edit(a, b, "x_is_empty");
                                self.note(f.sig.ident.span(), "is_empty -> x_is_empty");
                            }
                            if tr.is_none() {
                                let at = br(f.sig.fn_token.span).0;
                                self.vis(&f.vis, at);
                            }
                            self.func(&nows(&key), &f.attrs, &f.sig, Some(&f.block), f.span(), None);
                        }
                        _ => {}
                    }
                }
            }
            syn::Item::Fn(f) => {
                if is_cfg_test(&f.attrs) {
                    let (a, b) = br(f.span());
                    self.edit(a, b, "");
                    return;
                }
                self.vis(&f.vis, br(f.sig.fn_token.span).0);
                let key = f.sig.ident.to_string();
                self.func(&key, &f.attrs, &f.sig, Some(&f.block), f.span(), None);
            }
            syn::Item::ExternCrate(_) => {}
            other => {
                let k = self.src(other.span());
                die(&format!("{}: unsupported item: {}", self.rel, k.chars().take(60).collect::<String>()));
            }
        }
    }

    /// The clauses of a function: the defaults of its class, the located
    /// parameters and result, and what its contract file says.
    fn clauses(&mut self, key: &str, sig: &syn::Signature, c: &Contract, has_contract: bool) -> (String, Vec<String>, String, String) {
        let self_ty = key.split("::").next().unwrap_or("").to_string();
        let is_method = key.contains("::") && !key.starts_with('<') && !key.starts_with("trait");
        let recv = sig.inputs.iter().find_map(|a| if let syn::FnArg::Receiver(r) = a { Some(r.clone()) } else { None });
        let kind = match &recv {
            Some(r) if r.reference.is_some() && r.mutability.is_some() => "mut",
            Some(_) => "ref",
            None => "static",
        };
        let mut cname = c.class.clone().unwrap_or_else(|| format!("class:{self_ty}:{kind}"));
        if !cname.starts_with("class:") { cname = format!("class:{cname}"); }
        let class = if c.nodefault || !is_method { None } else { self.contracts.get(&cname).cloned() };
        if c.class.is_some() && class.is_none() { die(&format!("no class {cname} for {key}")); }
        let out_ty = match &sig.output { syn::ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
        let r = c.ret.clone().unwrap_or_else(|| "r".into());
        let is_result = matches!(&out_ty, Some(syn::Type::Path(p)) if p.path.segments.last().unwrap().ident == "Result");
        let ok = if is_result { format!("({r} is Ok)") } else { "true".to_string() };
        let mut req = String::new();
        let mut ens = String::new();
        let mut loopinv = String::new();
        let mut measure = String::new();
        if let Some(k) = &class {
            req.push_str(&k.requires);
            ens.push_str(&k.ensures.replace("$OK", &ok));
            loopinv = k.loops.get(&0).cloned().unwrap_or_default();
            measure = k.decreases.trim().to_string();
        }
        // located parameters and result
        if !c.nodefault {
            let code = match (self_ty.as_str(), kind) {
                ("Lexer", "mut") => Some("old(self).code@"),
                ("Lexer", "ref") => Some("self.code@"),
                ("Parser", "mut") => Some("old(self).lexer.code@"),
                ("Parser", "ref") => Some("self.lexer.code@"),
                _ => None,
            };
            let located: Vec<(String, bool)> = sig.inputs.iter().filter_map(|a| match a {
                syn::FnArg::Typed(t) => {
                    let n = match &*t.pat { syn::Pat::Ident(i) => i.ident.to_string(), _ => return None };
                    let m = matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some());
                    if located_ty(&t.ty, &self_ty) { Some((n, m)) } else { None }
                }
                syn::FnArg::Receiver(_) => if is_located_name(&self_ty) && code.is_none() { Some(("self".into(), kind == "mut")) } else { None },
            }).collect();
            let res = out_ty.as_ref().map_or(false, |t| located_ty(t, &self_ty));
            if let Some(code) = code {
                if class.is_some() {
                    for (n, m) in &located {
                        if *m {
                            req.push_str(&format!("        old({n}).ok_in({code}),\n"));
                            ens.push_str(&format!("        /*@C03*/ final({n}).ok_in({code}),\n"));
                        } else {
                            req.push_str(&format!("        {n}.ok_in({code}),\n"));
                        }
                    }
                    if res {
                        ens.push_str(&format!("        /*@C03*/ {r}.ok_in({code}),\n"));
                    }
                }
            } else if res && !sig.generics.params.iter().any(|g| matches!(g, syn::GenericParam::Type(_))) && (is_method || !key.contains("::")) && !(self_ty == "Annot") {
                let pre: Vec<String> = located.iter().map(|(n, m)| if *m { format!("old({n}).ok_in(s)") } else { format!("{n}.ok_in(s)") }).collect();
                let pre = if pre.is_empty() { "true".to_string() } else { pre.join(" && ") };
                if !located.is_empty() {
                    let tr: String = located.iter().filter(|(n, _)| n != "when").map(|(n, m)| if *m { format!(" #![trigger old({n}).ok_in(s)]") } else { format!(" #![trigger {n}.ok_in(s)]") }).collect();
                    ens.push_str(&format!("        /*@C03*/ forall|s: Seq<char>| #![trigger {r}.ok_in(s)]{tr} ({pre}) ==> {r}.ok_in(s),\n"));
                }
            }
        }
        if c.noensdefault { ens.clear(); }
        req.push_str(&c.requires);
        ens.push_str(&c.ensures);
        let mut dec = c.decreases.clone();
        if dec.trim().is_empty() && !c.nolevel && self_ty == "Parser" && kind == "mut" {
            if let Some(l) = self.levels.get(sig.ident.to_string().as_str()) {
                if !measure.is_empty() {
                    dec = format!("        {measure}, {l}int\n");
                }
            }
        }
        let mut o = String::new();
        if !req.trim().is_empty() { o.push_str(&format!("    requires\n{req}")); }
        if !ens.trim().is_empty() {
            o.push_str(&format!("    ensures\n{ens}"));
            if out_ty.is_some() && c.ret.is_none() { /* result named r */ }
        }
        if !dec.trim().is_empty() { o.push_str(&format!("    decreases\n{dec}")); }
        o.push_str(&c.sig);
        let _ = has_contract;
        let invs: Vec<String> = loopinv.lines().filter(|l| !l.trim().is_empty()).map(|l| l.to_string()).collect();
        let body = class.map(|k| k.body).unwrap_or_default();
        (o, invs, measure.replace("old(self)", "self"), body)
    }

    fn func(&mut self, key: &str, attrs: &[syn::Attribute], sig: &syn::Signature, block: Option<&syn::Block>, span: Span, semi: Option<usize>) {
        let line = sig.ident.span().start().line;
        let mut info = FnInfo { key: key.to_string(), file: self.rel.clone(), line, ..Default::default() };
        if let Some(b) = block {
            // markers that let the driver map a verifier message to its function
            let ne = br(sig.ident.span()).1;
            self.edit(ne, ne, format!("/*@@fn {key}*/"));
            let be = br(b.span()).1;
            self.edit(be, be, "/*@@end*/".to_string());
            info.shape = loop_shape(b);
        }
        info.hash = fnv(&nows(&self.src(span)));
        let has = self.contracts.get(key).is_some();
        let mut c = self.contracts.get(key).cloned().unwrap_or_default();
        // the contract speaks of parameters and local variables by the names they had when
        // it was written
        info.binders = binders(sig, block);
        if let Some(old) = self.base_binders.get(key) {
            for (i, (a, b)) in rename_map(old, &info.binders).iter().enumerate() {
                if a != b {
                    c.rename(a, &format!("__ren{i}__"));
                }
            }
            for (i, (a, b)) in rename_map(old, &info.binders).iter().enumerate() {
                if a != b {
                    c.rename(&format!("__ren{i}__"), b);
                    self.note(span, &format!("contract of {key}: {a} is now {b}"));
                }
            }
        }
        if self.degraded.contains(key) {
            c.external = true;
            c.trust = None;
            info.degraded = true;
        }
        // R: a parameter converted by `let X = P.into()` is known to loops as its conversion;
        // where X shadows it, the parameter gets another name
        let conv = if c.external { vec![] } else { block.map_or(vec![], |b| converted(sig, b)) };
        for (p, x, ..) in &conv {
            if p == x {
                let q = format!("{p}__p");
                for t in [&mut c.requires, &mut c.ensures, &mut c.decreases, &mut c.body] {
                    *t = contract::rename_word(t, p, &q);
                }
            }
        }
        let (clauses, mut loopinv, measure, classbody) = self.clauses(key, sig, &c, has);
        for (p, x, at, ty) in &conv {
            let q = if p == x { format!("{p}__p") } else { p.clone() };
            if p == x {
                self.edit(at.0, at.1, q.clone());
                let bs = br(block.unwrap().span()).0;
                self.edit(bs + 1, bs + 1, format!(" let {p} = {q};"));
                self.note(sig.ident.span(), "a shadowed parameter gets another name");
            }
            loopinv.push(format!("{x} == crate::stdx::conv::<_, {}>({q}),", self.text[ty.0..ty.1].to_string()));
        }
        info.contract = !clauses.trim().is_empty();
        info.external = c.external;
        let mut a = String::new();
        for x in &c.attrs {
            a.push_str(x);
            a.push(' ');
        }
        if c.external {
            a.push_str("#[verifier::external_body] ");
        } else if block.map_or(false, has_loop) && !a.contains("loop_isolation") {
            a.push_str("#[verifier::loop_isolation(false)] ");
        }
        if !a.is_empty() {
            // before visibility / fn keyword, on a line of its own (a doc comment may precede)
            let s = br(sig.span()).0;
            let (fs, _) = br(span);
            let after_attrs = attrs.iter().map(|a| br(a.span()).1).max().unwrap_or(fs);
            let at = if after_attrs <= s { after_attrs.max(fs) } else { s };
            // ord 0: in front of an inserted `pub`
            self.edits.push(Edit { start: at, end: at, text: format!("\n    {a}"), ord: 0 });
        }
        let rname = c.ret.clone().unwrap_or_else(|| "r".into());
        if !clauses.trim().is_empty() {
            if let syn::ReturnType::Type(_, t) = &sig.output {
                let (x, y) = br(t.span());
                self.edit(x, x, format!("({rname}: "));
                self.edit(y, y, ")");
            }
        }
        if let Some(b) = block {
            let (bs, be) = br(b.span());
            if let (Some(tr), false) = (&c.trust, c.external) {
                // R: trusted wrapper (see EXTRACTION.md)
                let name = sig.ident.to_string();
                let (ns, ne) = br(sig.ident.span());
                self.edit(ns, ne, format!("{name}__x"));
                let st = br(sig.span());
                let mut s = sig.clone();
                let _ = &mut s;
                let hdr = self.text[st.0..bs].to_string();
                let ty = match &sig.output { syn::ReturnType::Type(_, t) => self.src(t.span()), _ => String::new() };
                let hdr = hdr.replace(&format!("-> {ty}"), &format!("-> ({rname}: {ty})"));
                let cl = clauses.replacen("    ensures\n", &format!("    ensures\n{tr}"), 1);
                let cond: String = tr.replace("final(self)", "self");
                let conj: Vec<String> = cond.lines().map(|l| l.trim().trim_end_matches(',').to_string()).filter(|l| !l.is_empty()).collect();
                let call: Vec<String> = sig.inputs.iter().filter_map(|a| match a { syn::FnArg::Typed(t) => { let p = &t.pat; Some(quote::quote!(#p).to_string().replace("mut ", "")) } _ => None }).collect();
                let wrapper = format!("\n    pub {hdr}\n{cl} {{ let {rname} = self.{name}__x({}); proof {{ assume({}); }} {rname} }}\n", call.join(", "), conj.join(" && "));
                let (_, fe) = br(span);
                self.edit(fe, fe, wrapper);
                self.note(sig.ident.span(), &format!("trusted postcondition of {key}"));
            }
            if !clauses.trim().is_empty() {
                // a where clause, if any, is already before the block
                self.edit(bs, bs, format!("\n{clauses}"));
            }
            if !c.external {
                let bt = format!("{}{}", classbody, c.body);
                if !bt.trim().is_empty() {
                    self.edit(bs + 1, bs + 1, format!("\n{bt}"));
                }
                if !c.end.trim().is_empty() {
                    self.edit(be - 1, be - 1, format!("\n{}", c.end));
                }
            }
            if c.external {
                self.edit(bs + 1, be - 1, " unimplemented!() ");
                self.note(sig.ident.span(), &format!("body of {key} not verified ({})", if info.degraded { "degraded to a bounded check" } else { "trusted contract" }));
            } else {
                let pm = key.starts_with("Parser::") && !measure.is_empty();
                let muts: Vec<String> = sig.inputs.iter().filter_map(|a| match a {
                    syn::FnArg::Typed(t) => match &*t.pat { syn::Pat::Ident(i) if i.mutability.is_some() && located_ty(&t.ty, "Parser") => Some(i.ident.to_string()), _ => None },
                    _ => None,
                }).collect();
                let bodysrc = self.src(b.span()).to_string();
                let mut v = BodyV { pm, direct: false, vars: vec![muts], nonempty: vec![], bodysrc, cx: self, nloop: 0, floats: vec![], c: Some(c.clone()), key: key.to_string(), hits: BTreeMap::new(), used: BTreeSet::new(), calls_done: BTreeSet::new(), loopinv, measure, touch: touch_text(sig) };
                v.visit_block(b);
                info.loops = v.nloop;
                let nloop = v.nloop;
                let used = v.used.clone();
                for k in c.loops.keys().chain(c.loopbody.keys()).chain(c.loopend.keys()) {
                    if *k >= nloop {
                        self.lost.push(format!("loop {k} of {key}"));
                    }
                }
                for (i, (k, p, _)) in c.before.iter().enumerate() {
                    if !used.contains(&(0, i)) { self.lost.push(format!("before {k} `{p}` in {key}")); }
                }
                for (i, (p, _)) in c.calls.iter().enumerate() {
                    if !used.contains(&(2, i)) { self.lost.push(format!("call {p} in {key}")); }
                }
                for (i, (k, p, _)) in c.after.iter().enumerate() {
                    if !used.contains(&(1, i)) { self.lost.push(format!("after {k} `{p}` in {key}")); }
                }
            }
        } else if let Some(s) = semi {
            if !clauses.trim().is_empty() {
                self.edit(s, s, format!("\n{clauses}"));
            }
        }
        self.infos.push(info);
    }
}

/// the parameters of an `impl Into<_>` type that are converted by a statement
/// `let X = P.into();` ahead of every loop: (P, X, span of P)
fn converted(sig: &syn::Signature, b: &syn::Block) -> Vec<(String, String, (usize, usize), (usize, usize))> {
    let mut v = vec![];
    for a in &sig.inputs {
        let syn::FnArg::Typed(t) = a else { continue };
        let syn::Pat::Ident(i) = &*t.pat else { continue };
        let syn::Type::ImplTrait(it) = &*t.ty else { continue };
        let Some(syn::TypeParamBound::Trait(tb)) = it.bounds.first() else { continue };
        let sg = tb.path.segments.last().unwrap();
        let syn::PathArguments::AngleBracketed(ab) = &sg.arguments else { continue };
        if sg.ident != "Into" || ab.args.len() != 1 { continue; }
        let ty = br(ab.args[0].span());
        let p = i.ident.to_string();
        for s in &b.stmts {
            if has_loop(&syn::Block { brace_token: b.brace_token, stmts: vec![s.clone()] }) { break; }
            let syn::Stmt::Local(l) = s else { continue };
            let lp = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
            let (syn::Pat::Ident(x), Some(init)) = (lp, &l.init) else { continue };
            let syn::Expr::MethodCall(m) = &*init.expr else { continue };
            let syn::Expr::Path(r) = &*m.receiver else { continue };
            if m.method == "into" && m.args.is_empty() && r.path.is_ident(&p) && x.mutability.is_none() {
                v.push((p.clone(), x.ident.to_string(), br(i.ident.span()), ty));
                break;
            }
        }
    }
    v
}
/// the names bound by the parameters and in the body, in order
fn binders(sig: &syn::Signature, block: Option<&syn::Block>) -> Vec<String> {
    struct B(Vec<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            let n = p.ident.to_string();
            // constants and unit variants look like bindings
            if n.starts_with(|c: char| c.is_lowercase() || c == '_') { self.0.push(n); }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut b = B(vec![]);
    b.visit_signature(sig);
    if let Some(x) = block { b.visit_block(x); }
    b.0
}
/// old names that are gone, with the new names found at their places
fn rename_map(old: &[String], new: &[String]) -> Vec<(String, String)> {
    // longest common subsequence; in the gaps between, names correspond one to one
    let (n, m) = (old.len(), new.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if old[i] == new[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let mut r: Vec<(String, String)> = vec![];
    let (mut i, mut j) = (0, 0);
    let mut ga: Vec<&String> = vec![];
    let mut gb: Vec<&String> = vec![];
    loop {
        let meet = i < n && j < m && old[i] == new[j];
        if meet || (i == n && j == m) {
            if ga.len() == gb.len() {
                for (a, b) in ga.iter().zip(gb.iter()) {
                    if !new.contains(a) && !r.iter().any(|(x, _)| &x == a) { r.push(((*a).clone(), (*b).clone())); }
                }
            }
            ga.clear();
            gb.clear();
            if !meet { break; }
            i += 1;
            j += 1;
        } else if j == m || (i < n && t[i + 1][j] >= t[i][j + 1]) {
            ga.push(&old[i]);
            i += 1;
        } else {
            gb.push(&new[j]);
            j += 1;
        }
    }
    r
}

/// no-op uses of the function's `&mut` parameters (see EXTRACTION.md, `touch`)
fn touch_text(sig: &syn::Signature) -> String {
    let mut t = String::new();
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_some() => t.push_str("crate::stdx::touch(self); "),
            syn::FnArg::Typed(p) => if let (syn::Type::Reference(r), syn::Pat::Ident(i)) = (&*p.ty, &*p.pat) {
                if r.mutability.is_some() { t.push_str(&format!("crate::stdx::touch({}); ", i.ident)); }
            },
            _ => {}
        }
    }
    t
}

fn is_located_name(n: &str) -> bool {
    ["Node", "Token", "FormalParam", "Loc", "LexerErr", "ArgList", "CaseBranch", "RescueEntry", "BlockInfo"].contains(&n)
}

/// Does a value of this type carry source locations (and only known parts)?
fn located_ty(t: &syn::Type, self_ty: &str) -> bool {
    fn go(t: &syn::Type, self_ty: &str, any: &mut bool) -> bool {
        match t {
            syn::Type::Reference(r) => go(&r.elem, self_ty, any),
            syn::Type::Paren(r) => go(&r.elem, self_ty, any),
            syn::Type::Tuple(t) => t.elems.len() <= 3 && t.elems.iter().all(|e| go(e, self_ty, any)),
            syn::Type::Path(p) => {
                let s = p.path.segments.last().unwrap();
                let mut n = s.ident.to_string();
                if n == "Self" { n = self_ty.to_string(); }
                if is_located_name(&n) { *any = true; return true; }
                match n.as_str() {
                    "Box" | "Option" | "Vec" | "Result" => match &s.arguments {
                        syn::PathArguments::AngleBracketed(a) => a.args.iter().all(|x| match x { syn::GenericArgument::Type(t) => go(t, self_ty, any), _ => true }),
                        _ => false,
                    },
                    "bool" | "usize" | "u8" | "u32" | "i64" | "char" | "String" | "str" | "LvarId" | "BinOp" | "Punct" | "ParseMode" => true,
                    _ => false,
                }
            }
            _ => false,
        }
    }
    let mut any = false;
    go(t, self_ty, &mut any) && any
}

/// The kinds of the loops of a function, in source order.
fn loop_shape(b: &syn::Block) -> String {
    struct L(String);
    impl<'a> Visit<'a> for L {
        fn visit_expr(&mut self, e: &'a syn::Expr) {
            match e {
                syn::Expr::Loop(_) => self.0.push('L'),
                syn::Expr::While(w) => self.0.push(if let syn::Expr::Let(_) = &*w.cond { 'M' } else { 'W' }),
                syn::Expr::ForLoop(_) => self.0.push('F'),
                syn::Expr::MethodCall(m) if ["position", "all", "any", "fold", "for_each", "count", "collect", "find", "map", "filter"].contains(&m.method.to_string().as_str()) => {
                    self.0.push_str(&format!("<{}>", m.method))
                }
                syn::Expr::Closure(_) => self.0.push('c'),
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut l = L(String::new());
    l.visit_block(b);
    if l.0.is_empty() { "-".into() } else { l.0 }
}

fn has_loop(b: &syn::Block) -> bool {
    struct L(bool);
    impl<'a> Visit<'a> for L {
        fn visit_expr(&mut self, e: &'a syn::Expr) {
            match e {
                syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_) => self.0 = true,
                syn::Expr::MethodCall(m) if ["position", "all", "any", "fold", "for_each", "count", "collect"].contains(&m.method.to_string().as_str()) => self.0 = true,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut l = L(false);
    l.visit_block(b);
    l.0
}

/// Names of Parser methods called (through `self.` or `parser.`) in a block.
pub fn calls(b: &syn::Block) -> BTreeSet<String> {
    struct L(BTreeSet<String>);
    impl<'a> Visit<'a> for L {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if let syn::Expr::Path(p) = &*m.receiver {
                if p.path.is_ident("self") || p.path.is_ident("parser") {
                    self.0.insert(m.method.to_string());
                }
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut l = L(BTreeSet::new());
    l.visit_block(b);
    l.0
}

/// Termination levels of the mutually recursive Parser methods: given in the
/// contracts, otherwise one below the lowest caller.
pub fn levels(asts: &[syn::File], contracts: &BTreeMap<String, Contract>) -> BTreeMap<String, u32> {
    let mut g: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for f in asts {
        for it in &f.items {
            if let syn::Item::Impl(im) = it {
                if im.trait_.is_some() || is_cfg_test(&im.attrs) { continue; }
                if let syn::Type::Path(p) = &*im.self_ty {
                    if p.path.segments.last().unwrap().ident == "Parser" {
                        for i in &im.items {
                            if let syn::ImplItem::Fn(f) = i {
                                g.insert(f.sig.ident.to_string(), calls(&f.block));
                            }
                        }
                    }
                }
            }
        }
    }
    let reach = |from: &str| -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut st: Vec<String> = g.get(from).into_iter().flatten().cloned().collect();
        while let Some(x) = st.pop() {
            if g.contains_key(&x) && seen.insert(x.clone()) {
                st.extend(g[&x].iter().cloned());
            }
        }
        seen
    };
    let rec: BTreeSet<String> = g.keys().filter(|k| reach(k).contains(*k)).cloned().collect();
    let mut lv: BTreeMap<String, u32> = BTreeMap::new();
    for k in &rec {
        if let Some(l) = contracts.get(&format!("Parser::{k}")).and_then(|c| c.level) {
            lv.insert(k.clone(), l);
        }
    }
    // the others: below their callers
    for _ in 0..rec.len() + 1 {
        for k in &rec {
            if contracts.get(&format!("Parser::{k}")).map_or(false, |c| c.level.is_some()) { continue; }
            let m = rec.iter().filter(|c| *c != k && g[*c].contains(k)).filter_map(|c| lv.get(c)).min();
            if let Some(m) = m {
                let n = m.saturating_sub(1);
                lv.entry(k.clone()).and_modify(|x| *x = (*x).min(n)).or_insert(n);
            }
        }
    }
    for k in &rec { lv.entry(k.clone()).or_insert(0); }
    lv
}

/// Parser methods whose result carries locations.
pub fn located_methods(asts: &[syn::File]) -> BTreeSet<String> {
    let mut m = BTreeSet::new();
    for f in asts {
        for it in &f.items {
            if let syn::Item::Impl(im) = it {
                if im.trait_.is_some() || is_cfg_test(&im.attrs) { continue; }
                if let syn::Type::Path(p) = &*im.self_ty {
                    if p.path.segments.last().unwrap().ident == "Parser" {
                        for i in &im.items {
                            if let (syn::ImplItem::Fn(f), ) = (i, ) {
                                if let syn::ReturnType::Type(_, t) = &f.sig.output {
                                    if located_ty(t, "Parser") { m.insert(f.sig.ident.to_string()); }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    m
}

/// Crate functions whose name always means a function returning Option (or
/// always Result); names shared with std methods are left out.
pub fn ret_kinds(asts: &[syn::File]) -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, Option<String>> = BTreeMap::new();
    for f in asts {
        for it in &f.items {
            if let syn::Item::Impl(im) = it {
                if is_cfg_test(&im.attrs) { continue; }
                for i in &im.items {
                    if let syn::ImplItem::Fn(f) = i {
                        let k = match &f.sig.output {
                            syn::ReturnType::Type(_, t) => match &**t {
                                syn::Type::Path(p) => {
                                    let n = p.path.segments.last().unwrap().ident.to_string();
                                    if n == "Option" || n == "Result" { Some(n) } else { None }
                                }
                                _ => None,
                            },
                            _ => None,
                        };
                        m.entry(f.sig.ident.to_string()).and_modify(|x| if *x != k { *x = None }).or_insert(k);
                    }
                }
            }
        }
    }
    m.into_iter().filter_map(|(k, v)| v.map(|v| (k, v))).filter(|(k, _)| !["get", "next", "last", "first", "pop", "insert", "parse", "find", "iter", "map", "chars", "as_ref"].contains(&k.as_str())).collect()
}

struct BodyV<'x, 'c> {
    cx: &'x mut Cx<'c>,
    nloop: usize,
    floats: Vec<String>,
    c: Option<Contract>,
    key: String,
    hits: BTreeMap<(usize, usize), usize>,
    used: BTreeSet<(usize, usize)>,
    calls_done: BTreeSet<usize>,
    loopinv: Vec<String>,
    measure: String,
    touch: String,
    /// a `&mut self` method of the parser: loops get a ghost copy of the state
    pm: bool,
    /// the loop about to be visited is a statement of a block
    direct: bool,
    /// mutable variables known to carry locations, per block
    vars: Vec<Vec<String>>,
    /// vectors built non-empty and never shrunk in the body, per block
    nonempty: Vec<Vec<String>>,
    bodysrc: String,
}

/// Does the body contain nothing that could make the vector `n` shorter?
fn never_shrunk(body: &str, n: &str) -> bool {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    for (i, _) in body.match_indices(n) {
        let b = &body[..i];
        let a = &body[i + n.len()..];
        if b.chars().next_back().map_or(false, id) || a.chars().next().map_or(false, id) { continue; }
        let at = a.trim_start();
        if at.starts_with('=') && !at.starts_with("==") && !b.trim_end().ends_with("mut") { return false; }
        if let Some(m) = at.strip_prefix('.') {
            let m: String = m.trim_start().chars().take_while(|c| id(*c)).collect();
            if !["push", "len", "iter", "iter_mut", "is_empty", "last", "first", "loc", "get", "into_iter", "clone"].contains(&m.as_str()) { return false; }
        }
        if b.trim_end().ends_with("&mut") && !b.trim_end().ends_with("in &mut") { return false; }
    }
    true
}

impl<'x, 'c> BodyV<'x, 'c> {
    /// Is the value of this initializer of a type that carries locations?
    fn loc_init(&self, e: &syn::Expr) -> bool {
        let tail = |b: &syn::Block| matches!(b.stmts.last(), Some(syn::Stmt::Expr(e, None)) if self.loc_init(e));
        match e {
            syn::Expr::Try(x) => self.loc_init(&x.expr),
            syn::Expr::Paren(x) => self.loc_init(&x.expr),
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                ["loc", "merge", "prev_loc"].contains(&n.as_str()) || self.cx.located.contains(&n)
            }
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) if p.path.segments.len() == 2 => {
                    let a = p.path.segments[0].ident.to_string();
                    is_located_name(&a) || (a == "Vec" && p.path.segments[1].ident == "new") || (a == "Box" && c.args.len() == 1 && self.loc_init(&c.args[0]))
                }
                _ => false,
            },
            syn::Expr::Macro(m) => m.mac.path.is_ident("vec"),
            syn::Expr::Field(f) => matches!(&f.member, syn::Member::Named(n) if n == "loc"),
            syn::Expr::Match(m) => m.arms.iter().any(|a| self.loc_init(&a.body)),
            syn::Expr::If(i) => tail(&i.then_branch),
            syn::Expr::Block(b) => tail(&b.block),
            _ => false,
        }
    }
    /// R: `format!(LIT, args)` -> `format_x(LIT, (&(arg),..))`; the arguments of
    /// the other expression macros are visited.
    fn mac(&mut self, m: &syn::Macro, sp: (usize, usize)) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
        let args: Vec<syn::Expr> = match args { Ok(a) => a.into_iter().collect(), Err(_) => return };
        if name == "format" && !args.is_empty() {
            let (ls, le) = br(args[0].span());
            self.cx.edit(sp.0, ls, "crate::stdx::format_x(");
            let mut at = le;
            let mut pre = ", (".to_string();
            for a in &args[1..] {
                let a = match a { syn::Expr::Assign(x) => &*x.right, o => o };
                let (x, y) = br(a.span());
                self.cx.edit(at, x, format!("{pre}&("));
                self.visit_expr(a);
                at = y;
                pre = "), ".to_string();
            }
            let close = if args.len() > 1 { "),))" } else { ", ())" };
            self.cx.edit(at, sp.1, close);
            self.cx.notes.push(format!("{}: format! -> format_x (text of the result not modelled)", self.cx.rel));
            return;
        }
        for a in &args { self.visit_expr(a); }
    }
    /// number of the next loop and the contract's invariants for it
    fn next_loop(&mut self) -> (usize, String) {
        let k = self.nloop;
        self.nloop += 1;
        let t = self.c.as_ref().and_then(|c| c.loops.get(&k).cloned()).unwrap_or_default();
        (k, t)
    }
    fn ghost(&self, k: usize, which: u8) -> String {
        self.c.as_ref().and_then(|c| match which { 0 => c.loopbody.get(&k).cloned(), _ => c.loopend.get(&k).cloned() }).unwrap_or_default()
    }
    /// R: `X.iter().position/all/any(|p| E)`, `X.iter().fold(I, |a, p| E)`,
    ///    `X.iter_mut().for_each(|p| E)`, `X.filter(|p| E).count()`,
    ///    `X.split(C).filter(|p| F).map(|q| M).collect()`
    /// become the loop that std documents for them.
    fn iter_chain(&mut self, m: &syn::ExprMethodCall) -> bool {
        let meth = m.method.to_string();
        let recv = match &*m.receiver { syn::Expr::MethodCall(r) => r, _ => return false };
        let rm = recv.method.to_string();
        let clo = |e: &syn::Expr| -> Option<(Vec<(usize, usize)>, (usize, usize), Box<syn::Expr>)> {
            if let syn::Expr::Closure(c) = e {
                Some((c.inputs.iter().map(|p| br(p.span())).collect(), br(c.span()), c.body.clone()))
            } else { None }
        };
        let txt = |cx: &Cx, r: (usize, usize)| cx.text[r.0..r.1].to_string();
        let (ms, me) = br(m.span());
        let place = |e: &syn::Expr| matches!(e, syn::Expr::Path(_) | syn::Expr::Field(_));
        if rm == "iter" && recv.args.is_empty() && ["position", "all", "any"].contains(&meth.as_str()) && m.args.len() == 1 && place(&recv.receiver) {
            let (ps, cs, body) = match clo(&m.args[0]) { Some(x) if x.0.len() == 1 => x, _ => return false };
            let (k, inv) = self.next_loop();
            let x = recv.receiver.span();
            let (xs, xe) = br(x);
            let xt = txt(self.cx, (xs, xe));
            let pt = txt(self.cx, ps[0]);
            let (bs, be) = br(body.span());
            let (init, going, upd0, upd1) = match meth.as_str() {
                "position" => ("None::<usize>", format!("__r{k}.is_none()"), "if ".to_string(), format!(") {{ __r{k} = Some(__k{k}); }}")),
                "all" => ("true", format!("__r{k}"), format!("__r{k} = "), ");".to_string()),
                _ => ("false", format!("!__r{k}"), format!("__r{k} = "), ");".to_string()),
            };
            let extra = if meth == "position" { format!("__r{k} matches Some(__x) ==> __x < {xt}.len(),") } else { String::new() };
            self.cx.edit(ms, xs, format!("({{ let mut __k{k}: usize = 0; let mut __r{k} = {init}; while {going} && __k{k} < "));
            self.visit_expr(&recv.receiver);
            let gb = self.ghost(k, 0);
            let ge = self.ghost(k, 1);
            self.cx.edit(xe, bs, format!(".len() invariant __k{k} <= {xt}.len(), {extra} {inv} decreases {xt}.len() - __k{k} {{ {gb} let {pt} = &{xt}[__k{k}]; {upd0}("));
            self.visit_expr(&body);
            self.cx.edit(be, me, format!("{upd1} {ge} __k{k} += 1; }} __r{k} }})"));
            let _ = cs;
            self.cx.note(m.span(), &format!("iter().{meth}() desugared to a loop"));
            return true;
        }
        if rm == "iter" && recv.args.is_empty() && meth == "fold" && m.args.len() == 2 && place(&recv.receiver) {
            let (ps, _, body) = match clo(&m.args[1]) { Some(x) if x.0.len() == 2 => x, _ => return false };
            let (k, inv) = self.next_loop();
            let (xs, xe) = br(recv.receiver.span());
            let xt = txt(self.cx, (xs, xe));
            let (is, ie) = br(m.args[0].span());
            let (bs, be) = br(body.span());
            let (acc, pt) = (txt(self.cx, ps[0]), txt(self.cx, ps[1]));
            self.cx.edit(ms, xs, format!("({{ let mut __k{k}: usize = 0; let __n{k} = "));
            self.visit_expr(&recv.receiver);
            self.cx.edit(xe, is, format!(".len(); let mut {acc} = "));
            self.visit_expr(&m.args[0]);
            let gb = self.ghost(k, 0);
            self.cx.edit(ie, bs, format!("; while __k{k} < __n{k} invariant __k{k} <= __n{k}, __n{k} == {xt}.len(), {inv} decreases __n{k} - __k{k} {{ {gb} let {pt} = &{xt}[__k{k}]; {acc} = "));
            self.visit_expr(&body);
            self.cx.edit(be, me, format!("; __k{k} += 1; }} {acc} }})"));
            self.cx.note(m.span(), "iter().fold() desugared to a loop");
            return true;
        }
        if rm == "iter_mut" && recv.args.is_empty() && meth == "for_each" && m.args.len() == 1 {
            let (ps, _, body) = match clo(&m.args[0]) { Some(x) if x.0.len() == 1 => x, _ => return false };
            let (k, inv) = self.next_loop();
            let (xs, xe) = br(recv.receiver.span());
            let (bs, be) = br(body.span());
            let pt = txt(self.cx, ps[0]);
            let xt = txt(self.cx, (xs, xe));
            let gb = self.ghost(k, 0);
            let ge = self.ghost(k, 1);
            self.cx.edit(ms, xs, format!("({{ let mut __k{k}: usize = 0; while __k{k} < "));
            self.visit_expr(&recv.receiver);
            self.cx.edit(xe, bs, format!(".len() invariant __k{k} <= {xt}.len(), {inv} decreases {xt}.len() - __k{k} {{ {gb} let {pt} = &mut {xt}[__k{k}]; "));
            self.visit_expr(&body);
            self.cx.edit(be, me, format!("; {ge} __k{k} += 1; }} }})"));
            self.cx.note(m.span(), "iter_mut().for_each() desugared to a loop");
            return true;
        }
        if rm == "filter" && meth == "collect" && m.args.is_empty() && recv.args.len() == 1 {
            let it = match &*recv.receiver { syn::Expr::MethodCall(i) if i.method == "into_iter" && i.args.is_empty() && place(&i.receiver) => i, _ => return false };
            let (ps, _, body) = match clo(&recv.args[0]) { Some(x) if x.0.len() == 1 => x, _ => return false };
            let (k, inv) = self.next_loop();
            let (xs, xe) = br(it.receiver.span());
            let (bs, be) = br(body.span());
            let pt = txt(self.cx, ps[0]);
            let gb = self.ghost(k, 0);
            let ge = self.ghost(k, 1);
            self.cx.edit(ms, xs, format!("({{ let mut __r{k} = vec![]; let mut __v{k} = "));
            self.visit_expr(&it.receiver);
            self.cx.edit(xe, bs, format!("; while __v{k}.len() > 0 invariant {inv} decreases __v{k}.len() {{ {gb} let __e{k} = __v{k}.remove(0); let __y{k} = {{ let {pt} = &__e{k}; "));
            self.visit_expr(&body);
            self.cx.edit(be, me, format!(" }}; if __y{k} {{ __r{k}.push(__e{k}); }} {ge} }} __r{k} }})"));
            self.cx.note(m.span(), "into_iter().filter().collect() desugared to a loop");
            return true;
        }
        if rm == "filter" && meth == "count" && m.args.is_empty() && recv.args.len() == 1 {
            let (ps, _, body) = match clo(&recv.args[0]) { Some(x) if x.0.len() == 1 => x, _ => return false };
            let (k, inv) = self.next_loop();
            let (xs, xe) = br(recv.receiver.span());
            let (bs, be) = br(body.span());
            let pt = txt(self.cx, ps[0]);
            let inv = if inv.trim().is_empty() { String::new() } else { format!("invariant {inv}") };
            self.cx.edit(ms, xs, format!("({{ let mut __r{k}: usize = 0; for __x{k} in __it{k}: "));
            self.visit_expr(&recv.receiver);
            let gb = self.ghost(k, 0);
            self.cx.edit(xe, bs, format!(" {inv} {{ {gb} let {pt} = &__x{k}; if "));
            self.visit_expr(&body);
            self.cx.edit(be, me, format!(" {{ __r{k} += 1; }} }} __r{k} }})"));
            self.cx.note(m.span(), "filter().count() desugared to a loop");
            return true;
        }
        if rm == "map" && meth == "collect" && m.args.is_empty() && recv.args.len() == 1 {
            let f = match &*recv.receiver { syn::Expr::MethodCall(f) if f.method == "filter" && f.args.len() == 1 => f, _ => return false };
            let sp = match &*f.receiver { syn::Expr::MethodCall(f) if f.method == "split" && f.args.len() == 1 => f, _ => return false };
            let (fp, _, fb) = match clo(&f.args[0]) { Some(x) if x.0.len() == 1 => x, _ => return false };
            let (mp, _, mb) = match clo(&recv.args[0]) { Some(x) if x.0.len() == 1 => x, _ => return false };
            let (k, inv) = self.next_loop();
            let (xs, xe) = br(sp.receiver.span());
            let (fs, fe) = br(fb.span());
            let (bs, be) = br(mb.span());
            let (fpt, mpt) = (txt(self.cx, fp[0]), txt(self.cx, mp[0]));
            let inv = if self.pm && self.loc_init(&mb) { format!("{inv} __r{k}.ok_in(self.lexer.code@),") } else { inv };
            self.cx.edit(ms, xs, format!("({{ let mut __k{k}: usize = 0; let mut __r{k} = vec![]; let __s{k} = crate::stdx::str_split(&"));
            self.visit_expr(&sp.receiver);
            self.cx.edit(xe, fs, format!("); while __k{k} < __s{k}.len() invariant __k{k} <= __s{k}.len(), {inv} decreases __s{k}.len() - __k{k} {{ let {fpt} = &__s{k}[__k{k}]; if "));
            self.visit_expr(&fb);
            self.cx.edit(fe, bs, format!(" {{ let {mpt} = __s{k}[__k{k}]; let __e{k} = "));
            self.visit_expr(&mb);
            self.cx.edit(be, me, format!("; __r{k}.push(__e{k}); }} __k{k} += 1; }} __r{k} }})"));
            self.cx.note(m.span(), "split().filter().map().collect() desugared to a loop; the separator closure is dropped (pieces arbitrary)");
            return true;
        }
        false
    }
    /// R: range indexing / range `get` of text, renamed std methods
    fn str_rules(&mut self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Reference(r) if r.mutability.is_none() => {
                if let syn::Expr::Index(ix) = &*r.expr {
                    if self.is_str_index(ix) {
                        let (a, _) = br(r.and_token.span);
                        self.cx.edit(a, a + 1, "");
                        self.visit_expr(&r.expr);
                        return true;
                    }
                }
                false
            }
            syn::Expr::Index(ix) if self.is_str_index(ix) => {
                self.visit_expr(&ix.expr);
                let (_, xe) = br(ix.expr.span());
                let (_, end) = br(ix.span());
                match &*ix.index {
                    syn::Expr::Range(r) => {
                        let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                        let n = match (&r.start, &r.end, incl) {
                            (Some(_), Some(_), false) => "x_slice",
                            (Some(_), Some(_), true) => "x_slice_incl",
                            (Some(_), None, _) => "x_slice_from",
                            (None, Some(_), false) => "x_slice_to",
                            _ => return false,
                        };
                        let (rs, re) = br(ix.index.span());
                        self.cx.edit(xe, rs, format!(".{n}("));
                        let (ls, le) = br(r.limits.span());
                        let (ls, le) = if le > ls { (ls, le) } else { (ls, ls + 2) };
                        let _ = le;
                        let w = if incl { 3 } else { 2 };
                        self.cx.edit(ls, ls + w, if r.start.is_some() && r.end.is_some() { ", " } else { "" });
                        if let Some(x) = &r.start { self.visit_expr(x); }
                        if let Some(x) = &r.end { self.visit_expr(x); }
                        self.cx.edit(re, end, ")");
                    }
                    o => {
                        let (rs, re) = br(o.span());
                        self.cx.edit(xe, rs, ".x_slice_range(");
                        self.visit_expr(o);
                        self.cx.edit(re, end, ")");
                    }
                }
                self.cx.note(ix.span(), "range index of text -> x_slice*");
                true
            }
            syn::Expr::MethodCall(m) => {
                let meth = m.method.to_string();
                let (a, b) = br(m.method.span());
                if meth == "get" && m.args.len() == 1 {
                    if let syn::Expr::Range(r) = &m.args[0] {
                        let n = match (&r.start, &r.end, matches!(r.limits, syn::RangeLimits::Closed(_))) {
                            (Some(_), Some(_), false) => "x_get",
                            (Some(_), None, _) => "x_get_from",
                            _ => return false,
                        };
                        self.visit_expr(&m.receiver);
                        self.cx.edit(a, b, n);
                        let (ls, _) = br(r.limits.span());
                        self.cx.edit(ls, ls + 2, if r.end.is_some() { ", " } else { "" });
                        if let Some(x) = &r.start { self.visit_expr(x); }
                        if let Some(x) = &r.end { self.visit_expr(x); }
                        self.cx.note(m.span(), "range get of text -> x_get*");
                        return true;
                    }
                    return false;
                }
                // R: `(A..=B).contains(&c)` with character literals -> char_in
                if meth == "contains" && m.args.len() == 1 {
                    if let syn::Expr::Paren(p) = &*m.receiver {
                        if let syn::Expr::Range(r) = &*p.expr {
                            let lit = |x: &Option<Box<syn::Expr>>| x.as_ref().map_or(false, |x| matches!(&**x, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_))));
                            if lit(&r.start) && lit(&r.end) && matches!(r.limits, syn::RangeLimits::Closed(_)) {
                                let (xs, _) = br(m.receiver.span());
                                let (av, _) = br(m.args[0].span());
                                let t = format!("crate::stdx::char_in({}, {}, ", self.cx.src(r.start.as_ref().unwrap().span()), self.cx.src(r.end.as_ref().unwrap().span()));
                                self.cx.edit(xs, av, t);
                                self.cx.note(m.span(), "contains of a character range -> char_in");
                                self.visit_expr(&m.args[0]);
                                return true;
                            }
                        }
                    }
                    return false;
                }
                if meth == "ends_with" && m.args.len() == 1 && matches!(&*m.receiver, syn::Expr::Path(_)) {
                    // R: ends_with(&['a', 'b'][..]) -> a disjunction
                    if let syn::Expr::Reference(r) = &m.args[0] {
                        let arr = match &*r.expr {
                            syn::Expr::Index(ix) if matches!(&*ix.index, syn::Expr::Range(g) if g.start.is_none() && g.end.is_none()) => Some(&*ix.expr),
                            o => Some(o),
                        };
                        if let Some(syn::Expr::Array(a)) = arr {
                            if !a.elems.is_empty() && a.elems.iter().all(|x| matches!(x, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_)))) {
                                let rs = self.cx.src(m.receiver.span()).to_string();
                                let t: Vec<String> = a.elems.iter().map(|x| format!("{rs}.x_ends_with({})", self.cx.src(x.span()))).collect();
                                let (s0, e0) = br(m.span());
                                self.cx.edit(s0, e0, format!("({})", t.join(" || ")));
                                self.cx.note(m.span(), "ends_with of one of several characters -> a disjunction");
                                return true;
                            }
                        }
                    }
                }
                let ren = match (meth.as_str(), m.args.len()) {
                    ("starts_with", 1) if matches!(&m.args[0], syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_))) => "x_starts_with",
                    ("ends_with", 1) if matches!(&m.args[0], syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_))) => "x_ends_with",
                    ("trim_start", 0) => "x_trim_start",
                    ("is_empty", 0) => "x_is_empty",
                    ("ends_with", 1) if matches!(&m.args[0], syn::Expr::Reference(_)) => "x_ends_with_any",
                    ("parse", 0) if m.turbofish.as_ref().map_or(false, |t| nows(&quote::quote!(#t).to_string()).contains("f64")) => {
                        let (xs, xe) = br(m.receiver.span());
                        let (_, e) = br(m.span());
                        self.cx.edit(xs, xs, "crate::stdx::str_parse_f64(&");
                        self.cx.edit(xe, e, ")");
                        self.cx.note(m.span(), "parse::<f64>() -> str_parse_f64");
                        return true;
                    }
                    ("into", 0) => {
                        let (xs, xe) = br(m.receiver.span());
                        let (_, e) = br(m.span());
                        self.cx.edit(xs, xs, "crate::stdx::into_x(");
                        self.visit_expr(&m.receiver);
                        self.cx.edit(xe, e, ")");
                        self.cx.note(m.span(), ".into() -> into_x");
                        return true;
                    }
                    ("to_string", 0) => {
                        if let syn::Expr::MethodCall(i) = &*m.receiver {
                            if i.method == "to_string_lossy" {
                                let (xs, xe) = br(i.receiver.span());
                                let (_, e) = br(m.span());
                                self.cx.edit(xs, xs, "crate::stdx::path_lossy(&");
                                self.cx.edit(xe, e, ")");
                                self.cx.note(m.span(), "to_string_lossy().to_string() -> path_lossy");
                                return true;
                            }
                        }
                        return false;
                    }
                    _ => return false,
                };
                self.visit_expr(&m.receiver);
                self.cx.edit(a, b, ren);
                for x in &m.args { self.visit_expr(x); }
                self.cx.note(m.span(), &format!("{meth} -> {ren}"));
                true
            }
            _ => false,
        }
    }
    fn is_str_index(&self, ix: &syn::ExprIndex) -> bool {
        let code = match &*ix.expr {
            syn::Expr::Field(f) => matches!(&f.member, syn::Member::Named(n) if n == "code"),
            syn::Expr::Path(p) => p.path.is_ident("code"),
            _ => false,
        };
        if matches!(&*ix.expr, syn::Expr::Array(_)) { return false; }
        match &*ix.index {
            syn::Expr::Range(r) => r.start.is_some() || r.end.is_some(),
            syn::Expr::Lit(_) => false,
            _ => code,
        }
    }
    /// The header clauses of loop `k`: `extra` (known from the desugaring), the
    /// class defaults and the contract's text.
    fn loop_header(&mut self, k: usize, extra_except: &str, extra: &str, dec: Option<&str>) -> String {
        let user = self.c.as_ref().and_then(|c| c.loops.get(&k).cloned()).unwrap_or_default();
        let mut exc = extra_except.to_string();
        let mut inv = extra.to_string();
        let mut ens = String::new();
        let mut d = dec.map(|s| s.to_string());
        if !user.contains("nodefault") {
            for l in &self.loopinv {
                inv.push_str(&format!("\n            {}", l.trim()));
            }
            if self.pm {
                for v in self.vars.iter().flatten() {
                    inv.push_str(&format!("\n            {v}.ok_in(self.lexer.code@),"));
                }
            }
            for v in self.nonempty.iter().flatten() {
                inv.push_str(&format!("\n            {v}@.len() >= 1,"));
            }
        }
        if d.is_none() && !self.measure.is_empty() { d = Some(self.measure.clone()); }
        for l in user.lines() {
            let t = l.trim();
            if t.is_empty() || t == "nodefault" { continue; }
            if let Some(x) = t.strip_prefix("except_break ") { exc.push_str(&format!("\n            {x}")); }
            else if let Some(x) = t.strip_prefix("ensures ") { ens.push_str(&format!("\n            {x}")); }
            else if let Some(x) = t.strip_prefix("decreases ") { d = Some(x.trim_end_matches(',').to_string()); }
            else { inv.push_str(&format!("\n            {t}")); }
        }
        let mut o = String::new();
        if !exc.trim().is_empty() { o.push_str(&format!("\n        invariant_except_break {exc}")); }
        if !inv.trim().is_empty() { o.push_str(&format!("\n        invariant {inv}")); }
        if !ens.trim().is_empty() { o.push_str(&format!("\n        ensures {ens}")); }
        if let Some(d) = d { if d.trim() != "none" { o.push_str(&format!("\n        decreases {d}")); } }
        o.push_str("\n        ");
        if self.pm {
            o = if self.direct { o.replace("$L", &format!("__l{k}")) } else { o.lines().filter(|l| !l.contains("$L")).map(|l| format!("{l}\n")).collect() };
        }
        self.direct = false;
        o
    }
    fn do_loop(&mut self, body: &syn::Block, is_for: bool, extra: &str, dec: Option<&str>, first: &str) {
        let k = self.nloop;
        self.nloop += 1;
        let (s, e) = br(body.span());
        let mut h = self.loop_header(k, "", extra, if is_for { Some("none") } else { dec });
        if is_for { h = h.replace("decreases none", ""); }
        self.cx.edit(s, s, h);
        let gb = self.ghost(k, 0);
        let ge = self.ghost(k, 1);
        self.cx.edit(s + 1, s + 1, format!("{first}\n{gb}"));
        if !ge.trim().is_empty() { self.cx.edit(e - 1, e - 1, format!("\n{ge}")); }
    }
    /// R: `for p in X.iter()/iter_mut()[.rev()][.skip(n)]`, `for p in &X / &mut X`
    /// over a place X (a Vec) become index loops.
    fn for_index(&mut self, f: &syn::ExprForLoop) -> bool {
        let mut e = &*f.expr;
        let mut skip: Option<(usize, usize)> = None;
        let mut rev = false;
        let mut mutable = None;
        let mut nocall = false;
        loop {
            match e {
                syn::Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 && skip.is_none() && !nocall => { skip = Some(br(m.args[0].span())); e = &m.receiver; }
                syn::Expr::MethodCall(m) if m.method == "rev" && m.args.is_empty() && !rev => { rev = true; nocall = true; e = &m.receiver; }
                syn::Expr::MethodCall(m) if (m.method == "iter" || m.method == "iter_mut") && m.args.is_empty() && mutable.is_none() => { mutable = Some(m.method == "iter_mut"); e = &m.receiver; break; }
                syn::Expr::Reference(r) if mutable.is_none() && skip.is_none() && !rev => { mutable = Some(r.mutability.is_some()); e = &r.expr; break; }
                _ => return false,
            }
        }
        let mutable = match mutable { Some(m) => m, None => return false };
        let mut root = e;
        while let syn::Expr::Field(x) = root { root = &x.base; }
        if !matches!(root, syn::Expr::Path(_)) { return false; }
        if skip.is_some() && !rev { return false; }
        let k = self.nloop;
        let (xs, xe) = br(e.span());
        let xt = self.cx.text[xs..xe].to_string();
        let (ps, pe) = br(f.pat.span());
        let pt = self.cx.text[ps..pe].to_string();
        let (fs, _) = br(f.for_token.span);
        let (_, ee) = br(f.expr.span());
        let r = if mutable { "&mut " } else { "&" };
        let (head, first, inv, dec);
        if rev {
            let init = match skip {
                Some((a, b)) => { let n = self.cx.text[a..b].to_string(); format!("{{ let __n{k} = {xt}.len(); let __m{k}: usize = {n}; if __n{k} > __m{k} {{ __n{k} - __m{k} }} else {{ 0 }} }}") }
                None => format!("{xt}.len()"),
            };
            head = format!("let mut __k{k}: usize = {init}; while __k{k} > 0 ");
            first = format!(" __k{k} -= 1; let {pt} = {r}{xt}[__k{k}];");
            inv = format!("__k{k} <= {xt}.len(),");
            dec = format!("__k{k}");
        } else {
            head = format!("let mut __k{k}: usize = 0; while __k{k} < {xt}.len() ");
            first = format!(" let {pt} = {r}{xt}[__k{k}]; __k{k} += 1;");
            inv = format!("__k{k} <= {xt}.len(),");
            dec = format!("{xt}.len() - __k{k}");
        }
        let head = match &f.label { Some(_) => return false, None => head };
        self.cx.edit(fs, ee, head);
        self.do_loop(&f.body, false, &inv, Some(&dec), &first);
        self.visit_block(&f.body);
        self.cx.note(f.for_token.span, "for over a vector's iter()/iter_mut() [rev, skip] -> index loop");
        true
    }
    /// R: `E.map_err(|p| B)`, `E.ok_or_else(|| B)`, and `E.map(f)` where E is a
    /// call of a function of this crate that returns Option / Result, become
    /// the `match` that std documents.
    /// R: a call of a constructor that has a call-site contract
    /// (`//@ fn callsite:PATH`) inside a method of the parser: the arguments
    /// are bound in order, the contract is asserted over them and the
    /// parser's state, and the call is made with the bound values.
    fn callsite(&mut self, c: &syn::ExprCall) -> bool {
        if !self.pm { return false; }
        let p = match &*c.func { syn::Expr::Path(p) => nows(&self.cx.src(p.span())), _ => return false };
        let k = match self.cx.contracts.get(&format!("callsite:{p}")) { Some(k) => k.clone(), None => return false };
        let n = c.args.len();
        if n == 0 { return false; }
        let (cs, ce) = br(c.span());
        let mut prev = cs;
        for (i, a) in c.args.iter().enumerate() {
            let (x, y) = br(a.span());
            self.cx.edit(prev, x, format!("{}let __cs{i} = ", if i == 0 { "{ " } else { "; " }));
            self.visit_expr(a);
            prev = y;
        }
        let mut t = k.requires.clone();
        for i in 0..n { t = t.replace(&format!("${i}"), &format!("__cs{i}")); }
        let clauses: String = t.lines().map(|l| l.trim().trim_end_matches(',')).filter(|l| !l.is_empty()).map(|l| {
            match l.split_once("*/") { Some((lab, c)) if lab.starts_with("/*@") => format!("{lab}*/ assert({});\n", c.trim()), _ => format!("assert({l});\n") }
        }).collect();
        let f = self.cx.src(c.func.span()).to_string();
        let call: Vec<String> = (0..n).map(|i| format!("__cs{i}")).collect();
        self.cx.edit(prev, ce, format!(";\n proof {{\n{clauses}}} {f}({}) }}", call.join(", ")));
        self.cx.note(c.span(), &format!("call-site contract of {p}"));
        true
    }

    fn opt_rules(&mut self, m: &syn::ExprMethodCall) -> bool {
        let meth = m.method.to_string();
        if m.args.len() != 1 { return false; }
        let (ms, me) = br(m.span());
        let (rs, re) = br(m.receiver.span());
        let _ = rs;
        let n = self.cx.nclo;
        let ret = match &*m.receiver {
            // `.get(a..)`: indexing a text or a slice, an Option whatever the receiver
            syn::Expr::MethodCall(r) if r.method == "get" && r.args.len() == 1 && matches!(r.args[0], syn::Expr::Range(_)) => Some("Option".to_string()),
            syn::Expr::MethodCall(r) => self.cx.rets.get(&r.method.to_string()).cloned(),
            syn::Expr::Call(c) => if let syn::Expr::Path(p) = &*c.func { self.cx.rets.get(&p.path.segments.last().unwrap().ident.to_string()).cloned() } else { None },
            _ => None,
        };
        let (pat, bodyspan, body): (String, (usize, usize), Option<Box<syn::Expr>>) = match &m.args[0] {
            syn::Expr::Closure(c) => {
                if c.inputs.len() > 1 { return false; }
                let p = c.inputs.first().map(|p| self.cx.src(p.span())).unwrap_or_default();
                (p, br(c.body.span()), Some(c.body.clone()))
            }
            syn::Expr::Path(p) => (String::new(), br(p.span()), None),
            _ => return false,
        };
        let (pre, mid, post) = match (meth.as_str(), ret.as_deref()) {
            ("map_err", _) if body.is_some() => (
                "(match ".to_string(),
                format!(" {{ Ok(__v{n}) => Ok(__v{n}), Err({pat}) => Err("),
                ") })".to_string(),
            ),
            ("ok_or_else", _) if body.is_some() => ("(match ".into(), format!(" {{ Some(__v{n}) => Ok(__v{n}), None => Err("), ") })".into()),
            ("map", Some("Result")) | ("map", Some("Option")) => {
                let (okc, rest) = if ret.as_deref() == Some("Result") { ("Ok", format!("Err(__e{n}) => Err(__e{n})")) } else { ("Some", "None => None".to_string()) };
                match &body {
                    Some(_) => ("(match ".into(), format!(" {{ {rest}, {okc}({pat}) => {okc}("), ") })".into()),
                    None => {
                        let t = self.cx.text[bodyspan.0..bodyspan.1].to_string();
                        self.cx.nclo += 1;
                        self.cx.edit(ms, ms, "(match ");
                        self.visit_expr(&m.receiver);
                        self.cx.edit(re, me, format!(" {{ {rest}, {okc}(__v{n}) => {okc}({t}(__v{n})) }})"));
                        self.cx.note(m.span(), "Option/Result::map -> match");
                        return true;
                    }
                }
            }
            _ => return false,
        };
        let body = body.unwrap();
        self.cx.nclo += 1;
        self.cx.edit(ms, ms, pre);
        self.visit_expr(&m.receiver);
        self.cx.edit(re, bodyspan.0, mid);
        self.visit_expr(&body);
        self.cx.edit(bodyspan.1, me, post);
        self.cx.note(m.span(), &format!("{meth} with a closure -> match"));
        true
    }
}

/// an operand that only `AddAssign<&_>` accepts: a text literal, `&E`, or an `if` of such
fn text_rhs(e: &syn::Expr) -> bool {
    fn blk(b: &syn::Block) -> bool {
        matches!(b.stmts.last(), Some(syn::Stmt::Expr(e, None)) if text_rhs(e))
    }
    match e {
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
        syn::Expr::Reference(r) => r.mutability.is_none(),
        syn::Expr::Paren(p) => text_rhs(&p.expr),
        syn::Expr::MethodCall(m) => m.method == "as_str" && m.args.is_empty(),
        syn::Expr::If(i) => blk(&i.then_branch) && match &i.else_branch { Some((_, e)) => match &**e { syn::Expr::Block(b) => blk(&b.block), o => text_rhs(o) }, None => false },
        _ => false,
    }
}

fn dep_path(p: &syn::Path) -> Option<(usize, usize, String)> {
    if p.leading_colon.is_none() && p.segments.len() > 1 {
        let s = &p.segments[0];
        let n = s.ident.to_string();
        if ["num", "enum_iterator", "console"].contains(&n.as_str()) {
            let (a, b) = br(s.ident.span());
            return Some((a, b, format!("crate::dep_{n}")));
        }
    }
    None
}

impl<'x, 'c, 'a> Visit<'a> for BodyV<'x, 'c> {
    fn visit_path(&mut self, p: &'a syn::Path) {
        if let Some((a, b, t)) = dep_path(p) {
            self.cx.edit(a, b, t);
        }
        visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let sp = (br(m.path.span()).0, br(m.delimiter.span().close()).1);
        self.mac(m, sp);
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        if let Some(c) = self.c.clone() {
            let t = nows(&self.cx.src(s.span()));
            for (i, (k, p, txt)) in c.before.iter().enumerate() {
                if t.starts_with(p.as_str()) {
                    let h = self.hits.entry((0, i)).or_insert(0);
                    if *h == *k {
                        self.used.insert((0, i));
                        let (a, _) = br(s.span());
                        self.cx.edit(a, a, format!("\n{txt}\n"));
                    }
                    *self.hits.get_mut(&(0, i)).unwrap() += 1;
                }
            }
            for (i, (k, p, txt)) in c.after.iter().enumerate() {
                if t.starts_with(p.as_str()) {
                    let h = self.hits.entry((1, i)).or_insert(0);
                    if *h == *k {
                        self.used.insert((1, i));
                        let (_, b) = br(s.span());
                        self.cx.edit(b, b, format!("\n{txt}\n"));
                    }
                    *self.hits.get_mut(&(1, i)).unwrap() += 1;
                }
            }
        }
        if let syn::Stmt::Item(it) = s {
            match it {
                syn::Item::Use(_) => {
                    // R: a `use` local to a body is hoisted to the module
                    let (a, b) = br(it.span());
                    let t = self.cx.src(it.span());
                    let t = t.replace("use std::cmp::*;", "use std::cmp::{min, max};");
                    self.cx.edit(a, b, "");
                    self.cx.tail.push_str(&format!("\n#[allow(unused_imports)] {t}\n"));
                    self.cx.note(it.span(), "local use hoisted to the module");
                    return;
                }
                syn::Item::Enum(e) => {
                    let (a, b) = br(it.span());
                    let t = self.cx.src(it.span());
                    let k = t.find("enum ").unwrap();
                    let ds: String = e.attrs.iter().filter(|a| a.path().is_ident("derive")).map(kept_derives).collect();
                    let t = format!("{ds} pub {}", &t[k..]);
                    let imp = derive_impls(&e.attrs, &e.ident, &e.generics, Some(&e.variants), None, &self.cx.exact);
                    self.cx.edit(a, b, "");
                    self.cx.tail.push_str(&format!("\n{t}\n{imp}"));
                    self.cx.note(e.span(), "local enum hoisted to the module");
                    return;
                }
                _ => {}
            }
        }
        if self.pm {
            if let syn::Stmt::Expr(syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_), _) = s {
                let (a, _) = br(s.span());
                let k = self.nloop;
                self.cx.edit(a, a, format!("let ghost __l{k} = *self; "));
                self.direct = true;
            }
        }
        visit::visit_stmt(self, s);
        if let syn::Stmt::Local(l) = s {
            let p = match &l.pat { syn::Pat::Type(t) => &*t.pat, p => p };
            if let (syn::Pat::Ident(i), Some(init)) = (p, &l.init) {
                if i.mutability.is_some() && self.loc_init(&init.expr) {
                    let n = i.ident.to_string();
                    if let Some(f) = self.vars.last_mut() { f.push(n); }
                }
                if let (true, syn::Expr::Macro(m)) = (i.mutability.is_some(), &*init.expr) {
                    let n = i.ident.to_string();
                    if m.mac.path.is_ident("vec") && !m.mac.tokens.is_empty() && !m.mac.tokens.to_string().contains(';') && never_shrunk(&self.bodysrc, &n) {
                        if let Some(f) = self.nonempty.last_mut() { f.push(n); }
                    }
                }
            }
        }
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        self.vars.push(vec![]);
        self.nonempty.push(vec![]);
        visit::visit_block(self, b);
        self.vars.pop();
        self.nonempty.pop();
    }
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if let syn::Expr::MethodCall(m) = e {
            // R: ghost text before every call `self.NAME(..)` (`//@ call NAME`)
            if self.c.is_some() && nows(&self.cx.src(m.receiver.span())) == "self" {
                let name = m.method.to_string();
                let (a, b) = br(e.span());
                let c = self.c.clone().unwrap();
                if let Some(i) = c.calls.iter().position(|x| x.0 == name) {
                    if self.calls_done.insert(a) {
                        self.used.insert((2, i));
                        self.cx.edit(a, a, format!("({{\n{}\n", c.calls[i].1));
                        self.visit_expr(e);
                        self.cx.edit(b, b, " })");
                        return;
                    }
                }
            }
            if self.iter_chain(m) { return; }
            if self.opt_rules(m) { return; }
        }
        if self.str_rules(e) { return; }
        if let syn::Expr::Call(c) = e {
            if self.callsite(c) { return; }
        }
        if let syn::Expr::Macro(m) = e {
            self.mac(&m.mac, br(m.span()));
            return;
        }
        match e {
            syn::Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_)) && text_rhs(&b.right) => {
                // R: `X += TEXT` (a call of AddAssign<&_>) -> add_x
                let (xs, xe) = br(b.left.span());
                let (rs, re) = br(b.right.span());
                self.cx.edit(xs, xs, "crate::stdx::AddX::add_x(&mut ");
                self.visit_expr(&b.left);
                self.cx.edit(xe, rs, ", ");
                self.visit_expr(&b.right);
                self.cx.edit(re, re, ")");
                self.cx.note(b.span(), "+= on text -> add_x");
                return;
            }
            syn::Expr::Match(m) if !self.touch.is_empty() => {
                // R: arms reached when a guard failed start with a no-op use of the
                // `&mut` parameters (works around a Verus resolution gap)
                if let Some(g) = m.arms.iter().position(|a| a.guard.is_some()) {
                    for a in m.arms.iter().skip(g + 1) {
                        let (x, y) = br(a.body.span());
                        match &*a.body {
                            syn::Expr::Block(b) if b.label.is_none() => self.cx.edit(x + 1, x + 1, format!(" {}", self.touch)),
                            _ => {
                                self.cx.edit(x, x, format!("{{ {}", self.touch));
                                self.cx.edit(y, y, " }");
                            }
                        }
                        self.cx.note(a.pat.span(), "no-op touch in an arm after a guarded arm");
                    }
                }
            }
            syn::Expr::Loop(l) => {
                self.do_loop(&l.body, false, "", None, "");
            }
            syn::Expr::While(w) => {
                self.do_loop(&w.body, false, "", None, "");
            }
            syn::Expr::ForLoop(f) => {
                if self.for_index(f) { return; }
                let (a, _) = br(f.expr.span());
                let k = self.nloop;
                self.cx.edit(a, a, format!("__it{k}: "));
                self.do_loop(&f.body, true, "", None, "");
            }
            syn::Expr::Closure(c) if matches!(c.output, syn::ReturnType::Default) && c.inputs.len() == 1 && matches!(&*c.body, syn::Expr::Call(f) if f.args.len() == 1
                && matches!(&*f.func, syn::Expr::Path(p) if p.path.segments.len() > 1)
                && matches!((&f.args[0], &c.inputs[0]), (syn::Expr::Path(a), syn::Pat::Ident(b)) if a.path.is_ident(&b.ident))) => {
                // ghost: a closure that calls a function with its parameter has the function's contract
                if let syn::Expr::Call(f) = &*c.body {
                    let t = self.cx.src(f.func.span());
                    let a = self.cx.src(f.args[0].span());
                    let (x, y) = br(c.body.span());
                    self.cx.edit(x, x, format!("-> (__o: _) ensures call_ensures({t}, ({a},), __o) {{ "));
                    self.cx.edit(y, y, " }");
                }
                return;
            }
            syn::Expr::Closure(c) => {
                // R: closure parameter patterns become variables + let
                let mut lets = String::new();
                for p in &c.inputs {
                    let simple = matches!(p, syn::Pat::Ident(_)) || matches!(p, syn::Pat::Type(_));
                    if !simple {
                        let n = format!("__p{}", self.cx.nclo);
                        self.cx.nclo += 1;
                        let (a, b) = br(p.span());
                        let pt = self.cx.src(p.span());
                        self.cx.edit(a, b, n.clone());
                        if !matches!(p, syn::Pat::Wild(_)) {
                            lets.push_str(&format!("let {pt} = {n}; "));
                        }
                        self.cx.note(p.span(), "closure parameter pattern -> variable + let");
                    }
                }
                if !lets.is_empty() {
                    match &*c.body {
                        syn::Expr::Block(b) => {
                            let (a, _) = br(b.block.span());
                            self.cx.edit(a + 1, a + 1, format!(" {lets}"));
                        }
                        b => {
                            let (a, z) = br(b.span());
                            self.cx.edit(a, a, format!("{{ {lets}"));
                            self.cx.edit(z, z, " }");
                        }
                    }
                }
            }
            syn::Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => {
                if let syn::Expr::Path(p) = &*u.expr {
                    let id = p.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                    if self.floats.contains(&id) {
                        let (x, y) = br(u.span());
                        self.cx.edit(x, y, format!("crate::std_float::f64_neg({id})"));
                        self.cx.note(u.span(), "f64 negation -> f64_neg");
                        return;
                    }
                }
            }
            syn::Expr::MethodCall(m) => {
                // R: constructor passed as a function value
                for a in &m.args {
                    if let syn::Expr::Path(p) = a {
                        let last = p.path.segments.last().unwrap().ident.to_string();
                        let up = last.chars().next().unwrap().is_uppercase();
                        let meth = m.method.to_string();
                        if (meth == "map" || meth == "and_then") && (up || p.path.segments.len() > 1) {
                            let t = self.cx.src(p.span());
                            let (x, y) = br(p.span());
                            if p.path.segments.len() > 1 {
                                self.cx.edit(x, y, format!("|__c| -> (__o: _) ensures call_ensures({t}, (__c,), __o) {{ {t}(__c) }}"));
                            } else {
                                self.cx.edit(x, y, format!("|__c| {t}(__c)"));
                            }
                            self.cx.note(p.span(), "function value eta-expanded");
                            self.visit_expr(&m.receiver);
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_arm(&mut self, a: &'a syn::Arm) {
        // R: in an arm `FloatLit(x) => ..`, `-x` is f64 negation
        let mut n = 0;
        if let syn::Pat::TupleStruct(t) = &a.pat {
            if t.path.segments.last().unwrap().ident == "FloatLit" {
                if let Some(syn::Pat::Ident(i)) = t.elems.first() {
                    self.floats.push(i.ident.to_string());
                    n = 1;
                }
            }
        }
        visit::visit_arm(self, a);
        if n == 1 {
            self.floats.pop();
        }
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
#[allow(unused)]
fn _u(b: &BodyV) -> String { b.key.clone() }

fn derive_list(a: &syn::Attribute) -> Vec<String> {
    let mut v = vec![];
    let _ = a.parse_nested_meta(|m| {
        v.push(m.path.segments.last().unwrap().ident.to_string());
        Ok(())
    });
    v
}
fn kept_derives(a: &syn::Attribute) -> String {
    let v: Vec<String> = derive_list(a).into_iter().filter(|d| !["Sequence", "Clone", "PartialEq", "PartialOrd", "Default"].contains(&d.as_str())).collect();
    if v.is_empty() { String::new() } else { format!("#[derive({})]", v.join(", ")) }
}
fn type_idents(t: &syn::Type) -> Vec<String> {
    struct I(Vec<String>);
    impl<'a> Visit<'a> for I {
        fn visit_path_segment(&mut self, s: &'a syn::PathSegment) {
            self.0.push(s.ident.to_string());
            visit::visit_path_segment(self, s);
        }
    }
    let mut i = I(vec![]);
    i.visit_type(t);
    i.0
}
/// types whose derived `==` is the mathematical equality (no float inside)
pub fn exact_types(files: &[syn::File]) -> BTreeSet<String> {
    let mut ex: BTreeSet<String> = ["usize", "u8", "u32", "i64", "bool", "char", "String", "Option", "Vec", "Box"].iter().map(|s| s.to_string()).collect();
    loop {
        let n = ex.len();
        for f in files {
            for it in &f.items {
                let (name, fs): (String, Vec<&syn::Type>) = match it {
                    syn::Item::Struct(s) if s.generics.params.is_empty() => (s.ident.to_string(), s.fields.iter().map(|f| &f.ty).collect()),
                    syn::Item::Enum(e) if e.generics.params.is_empty() => (e.ident.to_string(), e.variants.iter().flat_map(|v| v.fields.iter().map(|f| &f.ty)).collect()),
                    _ => continue,
                };
                if fs.iter().all(|t| type_idents(t).iter().all(|i| ex.contains(i) || i == "crate")) {
                    ex.insert(name);
                }
            }
        }
        if ex.len() == n { return ex; }
    }
}
pub fn derive_impls(attrs: &[syn::Attribute], name: &syn::Ident, gen: &syn::Generics, variants: Option<&syn::punctuated::Punctuated<syn::Variant, syn::Token![,]>>, fields: Option<&syn::Fields>, exact: &BTreeSet<String>) -> String {
    let mut ds = vec![];
    for a in attrs {
        if a.path().is_ident("derive") { ds.extend(derive_list(a)); }
    }
    let mut o = String::new();
    let (_, tg, wc) = gen.split_for_impl();
    let ty = quote::quote!(#name #tg #wc).to_string();
    let bounded = |b: &str| {
        let mut g = gen.clone();
        for p in g.params.iter_mut() {
            if let syn::GenericParam::Type(t) = p {
                t.bounds.push(syn::parse_str(b).unwrap());
            }
        }
        let (ig, _, _) = g.split_for_impl();
        quote::quote!(#ig).to_string()
    };
    if ds.iter().any(|d| d == "Clone") {
        let ig = bounded("Clone");
        o.push_str(&format!("\nimpl {ig} Clone for {ty} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
    }
    if ds.iter().any(|d| d == "Default") {
        // what the macro generates: every field is the default of its type
        let ig = bounded("Default");
        let mut en = String::new();
        if let Some(fs) = fields {
            for (i, f) in fs.iter().enumerate() {
                let fname = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string());
                let fty = &f.ty;
                let last = match fty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => String::new() };
                let tt = quote::quote!(#fty).to_string();
                en.push_str(&match last.as_str() {
                    "Vec" | "String" => format!("r.{fname}@.len() == 0, "),
                    "Option" => format!("r.{fname} is None, "),
                    "usize" | "u8" | "u32" | "i32" | "i64" | "u64" => format!("r.{fname} == 0, "),
                    "bool" => format!("!r.{fname}, "),
                    "PathBuf" => String::new(),
                    _ => format!("call_ensures(<{tt} as Default>::default, (), r.{fname}), "),
                });
            }
        }
        let en = if en.is_empty() { String::new() } else { format!("ensures {en}") };
        o.push_str(&format!("impl {ig} Default for {ty} {{ #[verifier::external_body] fn default() -> (r: Self) {en} {{ unimplemented!() }} }}\n"));
    }
    if ds.iter().any(|d| d == "PartialEq") {
        let ig = bounded("PartialEq");
        o.push_str(&format!("impl {ig} PartialEq for {ty} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n"));
        if gen.params.is_empty() {
            let body = if exact.contains(&name.to_string()) {
                "*self == *o".to_string()
            } else if let Some(vs) = variants {
                let mut arms = String::new();
                for v in vs {
                    let vn = &v.ident;
                    let ok = v.fields.iter().all(|f| type_idents(&f.ty).iter().all(|i| exact.contains(i)));
                    let n = v.fields.len();
                    let (pa, pb) = match &v.fields {
                        syn::Fields::Unit => (String::new(), String::new()),
                        syn::Fields::Unnamed(_) => (
                            format!("({})", (0..n).map(|i| format!("a{i}")).collect::<Vec<_>>().join(",")),
                            format!("({})", (0..n).map(|i| format!("b{i}")).collect::<Vec<_>>().join(",")),
                        ),
                        syn::Fields::Named(f) => (
                            format!("{{{}}}", f.named.iter().enumerate().map(|(i, f)| format!("{}: a{i}", f.ident.as_ref().unwrap())).collect::<Vec<_>>().join(",")),
                            format!("{{{}}}", f.named.iter().enumerate().map(|(i, f)| format!("{}: b{i}", f.ident.as_ref().unwrap())).collect::<Vec<_>>().join(",")),
                        ),
                    };
                    let val = if ok {
                        if n == 0 { "true".to_string() } else { (0..n).map(|i| format!("a{i} == b{i}")).collect::<Vec<_>>().join(" && ") }
                    } else { "crate::stdx::eq_unknown(*self, *o)".to_string() };
                    arms.push_str(&format!("({name}::{vn}{pa}, {name}::{vn}{pb}) => {val}, "));
                }
                format!("match (*self, *o) {{ {arms} _ => false }}")
            } else {
                "crate::stdx::eq_unknown(*self, *o)".to_string()
            };
            o.push_str(&format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ {body} }} }}\n"));
        }
    }
    if ds.iter().any(|d| d == "PartialOrd") && gen.params.is_empty() {
        if let Some(vs) = variants {
            if vs.iter().all(|v| v.fields.is_empty()) {
                let arms: String = vs.iter().enumerate().map(|(i, v)| format!("{name}::{} => {i}, ", v.ident)).collect();
                o.push_str(&format!("impl {name} {{ pub open spec fn ord_idx(self) -> int {{ match self {{ {arms} }} }} }}\n"));
                o.push_str(&format!("impl PartialOrd for {name} {{ #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<std::cmp::Ordering>) {{ unimplemented!() }} }}\n"));
                o.push_str(&format!("impl vstd::std_specs::cmp::PartialOrdSpecImpl for {name} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &Self) -> Option<std::cmp::Ordering> {{ if self.ord_idx() < o.ord_idx() {{ Some(std::cmp::Ordering::Less) }} else if self.ord_idx() == o.ord_idx() {{ Some(std::cmp::Ordering::Equal) }} else {{ Some(std::cmp::Ordering::Greater) }} }} }}\n"));
            }
        }
    }
    o
}
