//! vx: extracts the crate's real source into one Verus file, splicing in the contracts.
//!   vx gen --src DIR --contracts DIR --out FILE --map FILE [--baseline FILE] [--external k,k] [--module-order m,m]
//!   vx shapes --src DIR            (writes the names/control shape of each function: the alignment baseline)
mod anchor;
mod contracts;
mod inline;
mod rewrite;
use contracts::*;
use quote::ToTokens;
use rewrite::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

struct Ctx {
    left_out: BTreeSet<String>,
    traits: BTreeSet<String>,
    texts: Vec<String>,
    external: BTreeSet<String>,
    baseline: Value,
    new_fields: BTreeSet<String>,
    fns: Vec<Value>,
    problems: Vec<Value>,
    seen: BTreeMap<String, usize>,
    derived: BTreeSet<String>,
    probe: bool,
}

fn is_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") && txt(&a.meta).contains("test")) }
fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta { for t in l.tokens.to_string().split(',') { v.push(t.trim().to_string()); } }
        }
    }
    v
}

fn ty_head(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", ty_head(&r.elem)),
        Type::Slice(_) => "slice".into(),
        Type::Tuple(_) => "tuple".into(),
        Type::TraitObject(o) => format!("dyn {}", o.bounds.iter().filter_map(|b| if let TypeParamBound::Trait(t) = b { Some(t.path.segments.last().unwrap().ident.to_string()) } else { None }).next().unwrap_or_default()),
        _ => txt(t).replace(' ', ""),
    }
}
fn impl_key(i: &ItemImpl) -> String {
    match &i.trait_ {
        Some((_, p, _)) => format!("{} for {}", p.segments.last().unwrap().ident, ty_head(&i.self_ty)),
        None => ty_head(&i.self_ty),
    }
}

/// `recv.METHOD(.., |x| .., ..)` with the receiver and the closures named first (building a closure does nothing)
struct Hoist<'a> { method: &'a str, ty: Option<Type>, done: bool }
impl<'a> VisitMut for Hoist<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.done { return; }
        if let Expr::MethodCall(m) = e {
            if m.method != self.method { return; }
            self.done = true;
            let recv = m.receiver.clone();
            let mut lets: Vec<Stmt> = vec![if matches!(*recv, Expr::Path(_)) { parse_quote!(let vx_recv = &#recv;) } else { parse_quote!(let vx_recv = #recv;) }];
            m.receiver = parse_quote!(vx_recv);
            for (k, a) in m.args.iter_mut().enumerate() {
                if let Expr::Closure(c) = a {
                    if let (Some(t), Some(p)) = (&self.ty, c.inputs.first_mut()) { if !matches!(p, Pat::Type(_)) { let q = p.clone(); *p = Pat::Type(PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(t.clone()) }); } }
                    let n = id(&format!("vx_f{}", k));
                    let c = c.clone();
                    lets.push(parse_quote!(let #n = #c;));
                    *a = parse_quote!(#n);
                }
            }
            let call = m.clone();
            *e = parse_quote!({ #(#lets)* #call });
        }
    }
}

/// `Self::NAME` of an associated type, written out
struct SelfTypes<'a> { types: &'a [(String, Type)] }
impl<'a> VisitMut for SelfTypes<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some((_, r)) = self.types.iter().find(|(n, _)| p.path.segments[1].ident == n) { *t = r.clone(); return; }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// the names of the fields of every structure, in order
fn fields_of(files: &[(String, File)]) -> BTreeMap<String, Vec<String>> {
    let mut r = BTreeMap::new();
    for (m, f) in files { for it in &f.items { if let Item::Struct(s) = it { r.insert(format!("{}::{}", m, s.ident), s.fields.iter().filter_map(|x| x.ident.as_ref().map(|i| i.to_string())).collect()); } } }
    r
}
/// fields that were given another name: those gone and those new of one structure, in order, when there are as many of both
fn renamed_fields(base: &Value, now: &BTreeMap<String, Vec<String>>) -> BTreeMap<String, BTreeMap<String, String>> {
    let mut r: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    for (k, n) in now {
        let old: Vec<String> = match base[k.as_str()].as_array() { Some(a) => a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(), None => continue };
        let gone: Vec<&String> = old.iter().filter(|x| !n.contains(x)).collect();
        let new: Vec<&String> = n.iter().filter(|x| !old.contains(x)).collect();
        if old.len() != n.len() || gone.len() != new.len() { continue; }
        let module = k.split("::").next().unwrap().to_string();
        for (g, w) in gone.iter().zip(&new) {
            // the name must not mean a field of another structure as well
            if now.iter().any(|(o, f)| o.starts_with(&format!("{}::", module)) && f.contains(g)) { continue; }
            r.entry(module.clone()).or_default().insert(g.to_string(), w.to_string());
            if !now.values().any(|f| f.contains(g)) { r.entry("*".into()).or_default().insert(g.to_string(), w.to_string()); }
        }
    }
    r
}
/// the same contract, for structures whose fields have another name
fn rename_fields(t: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() { return t.to_string(); }
    let b: Vec<char> = t.chars().collect();
    let (mut out, mut i) = (String::new(), 0);
    while i < b.len() {
        if b[i].is_alphabetic() || b[i] == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            let w: String = b[s..i].iter().collect();
            let field = s > 0 && b[s - 1] == '.' && !(s > 1 && b[s - 2] == '.') && b.get(i) != Some(&'(');
            out.push_str(if field { m.get(&w).unwrap_or(&w) } else { &w });
        } else { out.push(b[i]); i += 1; }
    }
    out
}
/// does the code name one of these fields
struct Names<'a> { of: &'a BTreeSet<String>, hit: bool }
impl<'ast, 'a> syn::visit::Visit<'ast> for Names<'a> {
    fn visit_expr_field(&mut self, e: &'ast ExprField) {
        if let Member::Named(i) = &e.member { if self.of.contains(&i.to_string()) { self.hit = true; } }
        syn::visit::visit_expr_field(self, e);
    }
}

fn shape_of(sig: &Signature, b: Option<&Block>) -> (Vec<String>, String) {
    let mut s = Shape { binders: vec![], skel: String::new() };
    for i in &sig.inputs { s.visit_fn_arg(i); }
    if let Some(b) = b { s.visit_block(b); }
    (s.binders, s.skel)
}

/// baseline name -> current name, by aligning the two lists of binders
fn align(base: &[String], cur: &[String]) -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    if base == cur { return m; }
    let curset: BTreeSet<&String> = cur.iter().collect();
    let baseset: BTreeSet<&String> = base.iter().collect();
    // longest common subsequence, then pair up equally long gaps
    let (n, k) = (base.len(), cur.len());
    let mut t = vec![vec![0usize; k + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..k).rev() {
        t[i][j] = if base[i] == cur[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
    } }
    let (mut i, mut j) = (0, 0);
    let mut gap: (Vec<String>, Vec<String>) = (vec![], vec![]);
    let flush = |g: &mut (Vec<String>, Vec<String>), m: &mut BTreeMap<String, String>| {
        if g.0.len() == g.1.len() {
            for (a, b) in g.0.iter().zip(g.1.iter()) {
                if !curset.contains(a) && !baseset.contains(b) { m.entry(a.clone()).or_insert(b.clone()); }
            }
        }
        g.0.clear();
        g.1.clear();
    };
    while i < n || j < k {
        if i < n && j < k && base[i] == cur[j] { flush(&mut gap, &mut m); i += 1; j += 1; }
        else if j >= k || (i < n && t[i + 1][j] >= t[i][j + 1]) { gap.0.push(base[i].clone()); i += 1; }
        else { gap.1.push(cur[j].clone()); j += 1; }
    }
    flush(&mut gap, &mut m);
    m
}

/// replaces identifiers (not fields / methods / path tails) in contract text
fn rename_text(t: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() { return t.to_string(); }
    let b: Vec<char> = t.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_alphabetic() || c == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            let w: String = b[s..i].iter().collect();
            let prev = b[..s].iter().rev().find(|c| !c.is_whitespace()).copied();
            let prev2 = if s >= 2 { Some(b[s - 2]) } else { None };
            let dot = prev == Some('.') && !(prev2 == Some('.'));
            let path = prev == Some(':') && s >= 2 && b[s - 1] == ':' && b[s - 2] == ':';
            if !dot && !path { if let Some(r) = m.get(&w) { out.push_str(r); continue; } }
            out.push_str(&w);
        } else { out.push(c); i += 1; }
    }
    out
}

impl Ctx {
    fn text(&mut self, t: &str) -> usize { self.texts.push(t.to_string()); self.texts.len() - 1 }

    fn emit_fn(&mut self, module: &str, key: &str, fnc: Option<&FnContract>, sig: &mut Signature, mut block: Option<&mut Block>, attrs: &mut Vec<Attribute>, line: usize, generic_dyn: bool) {
        let full = format!("{}::{}", module, key);
        attrs.clear();
        let mut written_into = false;
        if let Some(b) = block.as_deref_mut() { if inline::was_written_into(b) { b.stmts.remove(0); written_into = true; } }
        let empty = FnContract::default();
        let c = fnc.unwrap_or(&empty);
        let (binders, skel) = shape_of(sig, block.as_deref());
        let base = &self.baseline[&full];
        let base_b: Vec<String> = base["binders"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or(binders.clone());
        let base_skel = base["skel"].as_str().unwrap_or(&skel).to_string();
        let known = !base.is_null();
        // code using a field the structures did not have cannot lean on an invariant about it
        let new_state = match (&block, self.new_fields.is_empty()) { (Some(b), false) => { let mut n = Names { of: &self.new_fields, hit: false }; syn::visit::Visit::visit_block(&mut n, b); n.hit } _ => false };
        let map = align(&base_b, &binders);
        let rn = |t: &str| rename_text(t, &map);
        // what is trusted of a derived implementation is not trusted of one written by hand
        let imp = full.rsplitn(2, "::").last().unwrap_or("").to_string();
        if c.flags.iter().any(|f| f == "external_body") && !self.derived.contains(&imp) { self.problems.push(json!({"key": full, "lost": ["derived implementation"]})); }
        let external = self.external.contains(&full) || c.flags.iter().any(|f| f == "external_body");
        if generic_dyn && !c.flags.iter().any(|f| f == "keep_dyn") { dyn_params_to_generics(sig); }
        // a type parameter that is only iterated over: the trait that states what iterating does
        for r in &c.rewrites { if r[0] == "bound" { Bound { old: &r[1], new: &r[2] }.visit_generics_mut(&mut sig.generics); } }
        for a in &c.attrs { let at: Attribute = { let f: ItemFn = parse_str(&format!("{} fn f() {{}}", a)).expect("attr"); f.attrs[0].clone() }; attrs.push(at); }
        if let Some(r) = &c.ret {
            if let ReturnType::Type(_, t) = &sig.output {
                let r = id(r);
                let t = t.clone();
                sig.output = parse_quote!(-> vx_ret!(#r, #t));
            }
        }
        let mut unused: Vec<String> = vec![];
        let spec = rn(&c.spec);
        let n = self.text(&format!("/*VXFN:{}*/{}", full, spec));
        let lit = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
        if let Some(b) = block {
            if external {
                attrs.push(parse_quote!(#[verifier::external_body]));
                *b = parse_quote!({ vx_spec!(#lit); unimplemented!() });
            } else {
                LowerPipes::new().visit_block_mut(b);
                FixPatterns.visit_block_mut(b);
                let mut tc: Vec<String> = vec!["*.transitions[*]".into(), "this_transit".into()];
                for r in &c.rewrites { if r[0] == "hoist" { Hoist { method: &r[1], ty: r.get(2).map(|_| parse_str(&r[2..].join(" ")).expect("type")), done: false }.visit_block_mut(b); } }
                let (mut methods, mut args, mut callees) = (vec![], vec![], vec![]);
                for r in &c.rewrites {
                    if r[0] == "type" { LetType { name: rn(&r[1]), ty: parse_str(&rn(&r[2..].join(" "))).expect("type") }.visit_block_mut(b); }
                    if r[0] == "tuple_clone" { tc.push(r[1].clone()); }
                    if r[0] == "arg" { args.push((r[1].clone(), r[2].clone())); }
                    if r[0] == "callee" { callees.push((r[1].clone(), r[2].clone())); }
                    if r[0] == "method" { methods.push((r[1].clone(), r[2].clone())); }
                }
                Small { panic_fn: if c.flags.iter().any(|f| f == "may_panic") { "vx_refuse" } else { "vx_panic" }, tuple_clone: tc, methods, args, callees }.visit_block_mut(b);
                let mut an = anchor::Anchors::new(c, &mut self.texts, &rn);
                an.function(b);
                let used = an.used.clone();
                for (k, _) in &c.marks { if !used.contains(k) { unused.push(k.clone()); } }
                for k in c.loops.keys() { if !used.contains(&format!("loop {}", k)) { unused.push(format!("loop {}", k)); } }
                for k in c.closures.keys() { if !used.contains(&format!("closure {}", k)) { unused.push(format!("closure {}", k)); } }
                if self.probe {
                    let pn = self.text("proof { assert(false); }");
                    let pl = LitInt::new(&pn.to_string(), proc_macro2::Span::call_site());
                    b.stmts.insert(0, parse_quote!(vx_mark!(#pl);));
                }
                b.stmts.insert(0, parse_quote!(vx_spec!(#lit);));
            }
        }
        self.fns.push(json!({"key": full, "module": module, "line": line, "contract": !c.spec.trim().is_empty(), "external": external,
            "known": known, "same_shape": skel == base_skel && !written_into && !new_state, "same_names": base_b == binders, "lost_anchors": unused,
            "has_body": true, "loops": c.loops.len()}));
        if !unused.is_empty() && !external { self.problems.push(json!({"key": full, "lost": unused})); }
    }

    fn derive_impls(&self, ds: &[String], name: &Ident, generics: &Generics, item: &Item, rec: &[String]) -> Vec<ItemImpl> {
        let mut out = vec![];
        let recursive = rec.iter().any(|r| name == r);
        let mk = |tr: &str| -> Generics {
            let mut g = generics.clone();
            let t: Path = parse_str(tr).unwrap();
            for p in g.params.iter_mut() { if let GenericParam::Type(tp) = p { tp.default = None; tp.bounds.push(parse_quote!(#t)); } }
            g
        };
        let (_, ty, _) = generics.split_for_impl();
        for d in ds {
            match d.as_str() {
                "Clone" if recursive => {
                    // the derived implementation, with the clones of the parts that are of the type itself written out as calls of this function
                    let g = mk("Clone");
                    let (ig, _, wc) = g.split_for_impl();
                    let body: Block = match item {
                        Item::Struct(s) => {
                            let mut pre: Vec<Stmt> = vec![];
                            let fs: Vec<FieldValue> = s.fields.iter().map(|f| {
                                let n = f.ident.clone().unwrap();
                                let e = copy_of(&f.ty, parse_quote!(self.#n), rec, &format!("vx_{}", n), &mut pre);
                                parse_quote!(#n: #e)
                            }).collect();
                            parse_quote!({ #(#pre)* #name { #(#fs),* } })
                        }
                        Item::Enum(e) => {
                            let mut arms: Vec<Arm> = vec![];
                            for v in &e.variants {
                                let vn = &v.ident;
                                match &v.fields {
                                    Fields::Unit => arms.push(parse_quote!(#name::#vn => { #name::#vn })),
                                    Fields::Unnamed(u) => {
                                        let xs: Vec<Ident> = (0..u.unnamed.len()).map(|i| id(&format!("x{}", i))).collect();
                                        let mut pre: Vec<Stmt> = vec![];
                                        let es: Vec<Expr> = u.unnamed.iter().zip(xs.iter()).map(|(f, x)| copy_of(&f.ty, parse_quote!(#x), rec, &format!("vx_{}", x), &mut pre)).collect();
                                        arms.push(parse_quote!(#name::#vn(#(#xs),*) => { #(#pre)* #name::#vn(#(#es),*) }));
                                    }
                                    Fields::Named(_) => panic!("named enum fields"),
                                }
                            }
                            parse_quote!({ match self { #(#arms)* } })
                        }
                        _ => unreachable!(),
                    };
                    out.push(parse_quote!(impl #ig #name #ty #wc { fn vx_copy(&self) -> Self #body }));
                    out.push(parse_quote!(impl #ig Clone for #name #ty #wc { fn clone(&self) -> Self { self.vx_copy() } }));
                }
                "Clone" => {
                    let g = mk("Clone");
                    let (ig, _, wc) = g.split_for_impl();
                    let body: Expr = match item {
                        Item::Struct(s) => {
                            let fs: Vec<FieldValue> = s.fields.iter().map(|f| { let n = f.ident.clone().unwrap(); if let Type::Reference(_) = f.ty { parse_quote!(#n: self.#n) } else { parse_quote!(#n: self.#n.clone()) } }).collect();
                            parse_quote!(#name { #(#fs),* })
                        }
                        Item::Enum(e) => {
                            let mut arms: Vec<Arm> = vec![];
                            for v in &e.variants {
                                let vn = &v.ident;
                                match &v.fields {
                                    Fields::Unit => arms.push(parse_quote!(#name::#vn => #name::#vn,)),
                                    Fields::Unnamed(u) => {
                                        let xs: Vec<Ident> = (0..u.unnamed.len()).map(|i| id(&format!("x{}", i))).collect();
                                        arms.push(parse_quote!(#name::#vn(#(#xs),*) => #name::#vn(#(#xs.clone()),*),));
                                    }
                                    Fields::Named(_) => panic!("named enum fields"),
                                }
                            }
                            parse_quote!(match self { #(#arms)* })
                        }
                        _ => unreachable!(),
                    };
                    out.push(parse_quote!(impl #ig Clone for #name #ty #wc { fn clone(&self) -> Self { #body } }));
                }
                "PartialEq" => {
                    let g = mk("PartialEq");
                    let (ig, _, wc) = g.split_for_impl();
                    let body: Expr = match item {
                        Item::Struct(s) => {
                            let mut e: Option<Expr> = None;
                            for f in s.fields.iter() {
                                let n = f.ident.clone().unwrap();
                                let t: Expr = parse_quote!(self.#n == other.#n);
                                e = Some(match e { None => t, Some(p) => parse_quote!(#p && #t) });
                            }
                            e.unwrap()
                        }
                        Item::Enum(en) => {
                            let mut arms: Vec<Arm> = vec![];
                            for v in &en.variants {
                                let vn = &v.ident;
                                match &v.fields {
                                    Fields::Unit => arms.push(parse_quote!((#name::#vn, #name::#vn) => true,)),
                                    Fields::Unnamed(u) => {
                                        let xs: Vec<Ident> = (0..u.unnamed.len()).map(|i| id(&format!("x{}", i))).collect();
                                        let ys: Vec<Ident> = (0..u.unnamed.len()).map(|i| id(&format!("y{}", i))).collect();
                                        let mut e: Option<Expr> = None;
                                        for (x, y) in xs.iter().zip(ys.iter()) {
                                            let t: Expr = parse_quote!(*#x == *#y);
                                            e = Some(match e { None => t, Some(p) => parse_quote!(#p && #t) });
                                        }
                                        let e = e.unwrap();
                                        arms.push(parse_quote!((#name::#vn(#(#xs),*), #name::#vn(#(#ys),*)) => #e,));
                                    }
                                    Fields::Named(_) => panic!("named enum fields"),
                                }
                            }
                            arms.push(parse_quote!(_ => false,));
                            parse_quote!(match (self, other) { #(#arms)* })
                        }
                        _ => unreachable!(),
                    };
                    out.push(parse_quote!(impl #ig PartialEq for #name #ty #wc { fn eq(&self, other: &Self) -> bool { #body } }));
                }
                "Eq" => {
                    let g = mk("Eq");
                    let (ig, _, wc) = g.split_for_impl();
                    out.push(parse_quote!(impl #ig Eq for #name #ty #wc {}));
                }
                _ => {}
            }
        }
        out
    }

    fn leaves_out(&self, t: &UseTree) -> bool {
        match t {
            UseTree::Path(p) if p.ident == "super" || p.ident == "crate" || p.ident == "self" => self.leaves_out(&p.tree),
            UseTree::Path(p) => self.left_out.contains(&p.ident.to_string()),
            _ => false,
        }
    }
    fn module(&mut self, name: &str, file: File, mc: &ModContract) -> String {
        let mut items: Vec<(String, Item)> = vec![];
        let mut work: Vec<Item> = file.items.into_iter().collect();
        let mut i = 0;
        while i < work.len() {
            let mut add = vec![];
            match &mut work[i] {
                Item::Struct(s) => {
                    let ds = derives(&s.attrs);
                    let keep_hash = ds.iter().any(|d| d == "Hash");
                    s.attrs.clear();
                    let (n, g, it) = (s.ident.clone(), s.generics.clone(), Item::Struct(s.clone()));
                    for d in &ds { self.derived.insert(format!("{}::{} for {}", name, d, n)); }
                    add = self.derive_impls(&ds, &n, &g, &it, &mc.recursive);
                    if keep_hash { s.attrs.push(parse_quote!(#[derive(Hash)])); }
                    s.vis = parse_quote!(pub);
                    MakePub.visit_fields_mut(&mut s.fields);
                }
                Item::Enum(s) => {
                    let ds = derives(&s.attrs);
                    s.attrs.clear();
                    for v in s.variants.iter_mut() { v.attrs.clear(); }
                    let (n, g, it) = (s.ident.clone(), s.generics.clone(), Item::Enum(s.clone()));
                    for d in &ds { self.derived.insert(format!("{}::{} for {}", name, d, n)); }
                    add = self.derive_impls(&ds, &n, &g, &it, &mc.recursive);
                    s.vis = parse_quote!(pub);
                }
                _ => {}
            }
            let mut at = i + 1;
            for a in add { work.insert(at, Item::Impl(a)); at += 1; }
            i += 1;
        }
        for item in work.into_iter() {
            match item {
                Item::Mod(m) if is_test(&m.attrs) => continue,
                Item::Fn(f) if is_test(&f.attrs) => continue,
                Item::Struct(s) if mc.drops.contains(&s.ident.to_string()) => continue,
                Item::Struct(mut s) => { s.attrs.extend(type_attrs(mc, &s.ident)); AddDyn { traits: &self.traits }.visit_item_struct_mut(&mut s); items.push((String::new(), Item::Struct(s))); }
                Item::Enum(mut s) => { s.attrs.extend(type_attrs(mc, &s.ident)); AddDyn { traits: &self.traits }.visit_item_enum_mut(&mut s); items.push((String::new(), Item::Enum(s))); }
                Item::Fn(mut f) => {
                    AddDyn { traits: &self.traits }.visit_item_fn_mut(&mut f);
                    let key = f.sig.ident.to_string();
                    if mc.drops.contains(&key) { self.fns.push(json!({"key": format!("{}::{}", name, key), "module": name, "dropped": true})); continue; }
                    let line = f.sig.ident.span().start().line;
                    let orig = f.clone();
                    self.emit_fn(name, &key, mc.fns.get(&key), &mut f.sig, Some(&mut f.block), &mut f.attrs, line, true);
                    f.vis = parse_quote!(pub);
                    items.push((String::new(), Item::Fn(f)));
                    if let Some(c) = mc.fns.get(&key) {
                        for (vn, vc) in &c.variants {
                            let mut g = orig.clone();
                            let vkey = format!("{}__{}", key, vn);
                            self.baseline[format!("{}::{}", name, vkey)] = self.baseline[format!("{}::{}", name, key)].clone();
                            g.sig.ident = id(&vkey);
                            self.emit_fn(name, &vkey, Some(vc), &mut g.sig, Some(&mut g.block), &mut g.attrs, line, true);
                            g.vis = parse_quote!(pub);
                            items.push((String::new(), Item::Fn(g)));
                        }
                    }
                }
                Item::Trait(mut t) => {
                    AddDyn { traits: &self.traits }.visit_item_trait_mut(&mut t);
                    t.attrs.clear();
                    let tkey = format!("trait {}", t.ident);
                    if mc.drops.contains(&tkey) { continue; }
                    for it in t.items.iter_mut() {
                        if let TraitItem::Fn(f) = it {
                            let key = format!("{}::{}", tkey, f.sig.ident);
                            let line = f.sig.ident.span().start().line;
                            let fc = mc.fns.get(&key);
                            if f.default.is_some() {
                                let mut b = f.default.take().unwrap();
                                self.emit_fn(name, &key, fc, &mut f.sig, Some(&mut b), &mut f.attrs, line, false);
                                f.default = Some(b);
                            } else {
                                self.emit_fn(name, &key, fc, &mut f.sig, None, &mut f.attrs, line, false);
                                let full = format!("{}::{}", name, key);
                                let spec = fc.map(|c| c.spec.clone()).unwrap_or_default();
                                let l = self.fns.len() - 1;
                                self.fns[l]["has_body"] = json!(false);
                                let n = self.text(&format!("/*VXFN:{}*/{}", full, spec));
                                let lit = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                                f.default = Some(parse_quote!({ vx_decl!(#lit); }));
                                f.semi_token = None;
                            }
                        }
                    }
                    if let Some(x) = mc.impl_items.get(&tkey) {
                        let n = self.text(x);
                        let lit = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                        t.items.insert(0, parse_quote!(vx_item!(#lit);));
                    }
                    // a method returning `Self` by value already restricts the trait to sized types
                    let ret_self = t.items.iter().any(|i| if let TraitItem::Fn(f) = i { if let ReturnType::Type(_, ty) = &f.sig.output { txt(ty).split(|c: char| !c.is_alphanumeric()).any(|w| w == "Self") } else { false } } else { false });
                    if ret_self && !t.supertraits.iter().any(|b| txt(b) == "Sized") { t.supertraits.push(parse_quote!(Sized)); t.colon_token = Some(Default::default()); }
                    t.vis = parse_quote!(pub);
                    items.push((String::new(), Item::Trait(t)));
                }
                Item::Impl(mut im) => {
                    AddDyn { traits: &self.traits }.visit_item_impl_mut(&mut im);
                    im.attrs.clear();
                    let mut key = impl_key(&im);
                    if mc.drops.contains(&key) {
                        for it in &im.items { if let ImplItem::Fn(f) = it { self.fns.push(json!({"key": format!("{}::{}::{}", name, key, f.sig.ident), "module": name, "dropped": true})); } }
                        continue;
                    }
                    if im.trait_.is_some() {
                        let c = self.seen.entry(format!("{}::{}", name, key)).or_insert(0);
                        *c += 1;
                        if *c > 1 { key = format!("{}#{}", key, c); }
                    }
                    let inherent = mc.inherent.contains(&key);
                    let mut declared = None;
                    if mc.both.contains(&key) {
                        let mut d = im.clone();
                        for it in &mut d.items { if let ImplItem::Fn(f) = it { f.attrs = vec![parse_quote!(#[verifier::external_body])]; f.block = parse_quote!({ unimplemented!() }); } }
                        declared = Some(d);
                    }
                    if inherent {
                        im.trait_ = None;
                        let types: Vec<(String, Type)> = im.items.iter().filter_map(|it| if let ImplItem::Type(t) = it { Some((t.ident.to_string(), t.ty.clone())) } else { None }).collect();
                        im.items.retain(|it| !matches!(it, ImplItem::Type(_)));
                        for it in &mut im.items { SelfTypes { types: &types }.visit_impl_item_mut(it); }
                    }
                    let is_trait = im.trait_.is_some();
                    let mut new_items = vec![];
                    let mut first = true;
                    for it in im.items.drain(..) {
                        if let ImplItem::Fn(mut f) = it {
                            let fkey = format!("{}::{}", key, f.sig.ident);
                            if mc.drops.contains(&fkey) { self.fns.push(json!({"key": format!("{}::{}", name, fkey), "module": name, "dropped": true})); continue; }
                            let line = f.sig.ident.span().start().line;
                            let orig = f.clone();
                            let fc = mc.fns.get(&fkey);
                            self.emit_fn(name, &fkey, fc, &mut f.sig, Some(&mut f.block), &mut f.attrs, line, !is_trait);
                            if !is_trait { f.vis = parse_quote!(pub); }
                            if inherent { f.sig.ident = id(&format!("vx_{}", f.sig.ident)); }
                            new_items.push(ImplItem::Fn(f));
                            if let Some(c) = fc {
                                for (vn, vc) in &c.variants {
                                    let mut g = orig.clone();
                                    let vname = format!("{}__{}", g.sig.ident, vn);
                                    let vkey = format!("{}::{}", key, vname);
                                    self.baseline[format!("{}::{}", name, vkey)] = self.baseline[format!("{}::{}", name, fkey)].clone();
                                    g.sig.ident = id(&vname);
                                    self.emit_fn(name, &vkey, Some(vc), &mut g.sig, Some(&mut g.block), &mut g.attrs, line, !is_trait);
                                    if !is_trait { g.vis = parse_quote!(pub); }
                                    new_items.push(ImplItem::Fn(g));
                                }
                            }
                        } else { new_items.push(it); }
                    }
                    if let Some(x) = mc.impl_items.get(&key) {
                        if first {
                            let n = self.text(x);
                            let lit = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                            new_items.insert(0, parse_quote!(vx_item!(#lit);));
                        }
                        first = false;
                    }
                    let _ = first;
                    im.items = new_items;
                    items.push((String::new(), Item::Impl(im)));
                    if let Some(d) = declared { items.push((String::new(), Item::Impl(d))); }
                }
                Item::Use(u) if self.leaves_out(&u.tree) => continue,
                Item::Use(mut u) => { u.attrs.clear(); items.push((String::new(), Item::Use(u))); }
                Item::Type(mut t) => { t.attrs.clear(); items.push((String::new(), Item::Type(t))); }
                Item::Macro(_) => continue,
                other => items.push((String::new(), other)),
            }
        }
        let mut s = String::new();
        for (_, it) in &items { s.push_str(&it.to_token_stream().to_string()); s.push('\n'); }
        s
    }
}

struct Bound<'a> { old: &'a str, new: &'a str }
impl<'a> VisitMut for Bound<'a> {
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        let l = b.path.segments.last_mut().unwrap();
        if l.ident == self.old {
            l.ident = id(self.new);
            if let PathArguments::AngleBracketed(a) = &mut l.arguments { for x in a.args.iter_mut() { if let GenericArgument::AssocType(t) = x { if t.ident == "Item" { t.ident = id("It"); } } } }
        }
    }
}
fn mentions(t: &Type, rec: &[String]) -> bool {
    let s = t.to_token_stream().to_string();
    s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| rec.iter().any(|r| r == w))
}
/// what Clone does for a value of type t: the type itself by the recursive function, a box and a vector of them as the standard library clones these
fn copy_of(t: &Type, e: Expr, rec: &[String], name: &str, pre: &mut Vec<Stmt>) -> Expr {
    if !mentions(t, rec) { return parse_quote!(#e.clone()); }
    let p = match t { Type::Path(p) => p.path.segments.last().unwrap(), _ => panic!("clone of a recursive type") };
    let arg = match &p.arguments { PathArguments::AngleBracketed(a) => a.args.iter().find_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }), _ => None };
    if rec.iter().any(|r| p.ident == r) { return parse_quote!(#e.vx_copy()); }
    let arg = arg.expect("clone of a recursive type");
    if p.ident == "Box" {
        let inner = copy_of(&arg, parse_quote!((*#e)), rec, name, pre);
        return parse_quote!(Box::new(#inner));
    }
    assert!(p.ident == "Vec", "clone of a recursive type");
    let (v, i) = (id(name), id(&format!("{}_i", name)));
    let mut inside = vec![];
    let x = copy_of(&arg, parse_quote!(#e[#i]), rec, &format!("{}x", name), &mut inside);
    pre.push(parse_quote!(let mut #v = Vec::new();));
    pre.push(parse_quote!(for #i in 0..#e.len() { #(#inside)* #v.push(#x); }));
    parse_quote!(#v)
}

fn type_attrs(mc: &ModContract, name: &Ident) -> Vec<Attribute> {
    mc.type_attrs.iter().filter(|(n, _)| name == n).map(|(_, a)| { let f: ItemFn = parse_str(&format!("{} fn f() {{}}", a)).expect("attr"); f.attrs[0].clone() }).collect()
}
fn match_paren(s: &[u8], open: usize) -> usize {
    let mut d = 0;
    for i in open..s.len() { match s[i] { b'(' | b'[' | b'{' => d += 1, b')' | b']' | b'}' => { d -= 1; if d == 0 { return i; } } _ => {} } }
    panic!("unbalanced")
}

/// replaces the markers by the contract texts
fn splice(mut s: String, texts: &[String]) -> String {
    for m in ["vx_ret", "vx_it", "vx_decl", "vx_spec", "vx_mark", "vx_item"] { s = s.replace(&format!("{} ! (", m), &format!("{}!(", m)); }
    // vx_ret!(r, T) and vx_it!(it, e)
    for mac in ["vx_ret!", "vx_it!"] {
        while let Some(p) = s.find(mac) {
            let open = p + mac.len();
            let close = match_paren(s.as_bytes(), open);
            let inner = s[open + 1..close].trim().to_string();
            let comma = inner.find(',').unwrap();
            let (a, b) = (inner[..comma].trim().to_string(), inner[comma + 1..].trim().trim_end_matches(',').to_string());
            let rep = if mac == "vx_ret!" { format!("({}: {})", a, b) } else { format!("{}: {}", a, b) };
            s.replace_range(p..=close, &rep);
        }
    }
    let num = |s: &str, p: usize, mac: &str| -> (usize, usize) {
        let open = p + mac.len();
        let close = match_paren(s.as_bytes(), open);
        let n: usize = s[open + 1..close].trim().parse().unwrap();
        let mut e = close + 1;
        if s[e..].starts_with(';') { e += 1; }
        (n, e)
    };
    while let Some(p) = s.find("vx_decl!") {
        let (n, e) = num(&s, p, "vx_decl!");
        let brace = s[..p].rfind('{').unwrap();
        let end = e + s[e..].find('}').unwrap();
        s.replace_range(brace..=end, &format!("\n{};", texts[n].trim_end().trim_end_matches(',')));
    }
    while let Some(p) = s.find("vx_spec!") {
        let (n, e) = num(&s, p, "vx_spec!");
        let brace = s[..p].rfind('{').unwrap();
        assert!(s[brace + 1..p].trim().is_empty(), "marker not at the start of its block: {}", &s[brace..e]);
        s.replace_range(brace..e, &format!("\n{}\n{{", texts[n]));
    }
    for mac in ["vx_mark!", "vx_item!"] {
        while let Some(p) = s.find(mac) {
            let (n, e) = num(&s, p, mac);
            s.replace_range(p..e, &format!("\n{}\n", texts[n]));
        }
    }
    s
}

fn rustfmt(s: &str) -> String {
    use std::io::Write;
    let mut c = Command::new("rustfmt").args(["--edition", "2021", "--config", "max_width=140"]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().expect("rustfmt");
    c.stdin.take().unwrap().write_all(s.as_bytes()).unwrap();
    let o = c.wait_with_output().unwrap();
    if !o.status.success() { eprintln!("rustfmt: {}", String::from_utf8_lossy(&o.stderr)); return s.to_string(); }
    String::from_utf8(o.stdout).unwrap()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let src = get("--src").expect("--src");
    let mode = args[1].as_str();
    let lib: File = parse_file(&std::fs::read_to_string(format!("{}/lib.rs", src)).unwrap()).unwrap();
    let mut mods: Vec<String> = vec![];
    for it in &lib.items { if let Item::Mod(m) = it { if !is_test(&m.attrs) { mods.push(m.ident.to_string()); } } }
    let mut files: Vec<(String, File)> = vec![];
    let mut traits: BTreeSet<String> = BTreeSet::new();
    for m in &mods {
        let p = format!("{}/{}.rs", src, m);
        let t = std::fs::read_to_string(&p).unwrap_or_else(|e| { eprintln!("{}: {}", p, e); std::process::exit(3) });
        let f = parse_file(&t).unwrap_or_else(|e| { eprintln!("{}: {}", p, e); std::process::exit(3) });
        for it in &f.items { if let Item::Trait(t) = it { traits.insert(t.ident.to_string()); } }
        files.push((m.clone(), f));
    }
    traits.insert("Read".into());
    if mode == "shapes" {
        let mut out = serde_json::Map::new();
        for (m, f) in &files {
            let mut seen: BTreeMap<String, usize> = BTreeMap::new();
            let mut put = |k: String, sig: &Signature, b: Option<&Block>| { let (bi, sk) = shape_of(sig, b); out.insert(format!("{}::{}", m, k), json!({"binders": bi, "skel": sk})); };
            for it in &f.items {
                match it {
                    Item::Fn(x) if !is_test(&x.attrs) => put(x.sig.ident.to_string(), &x.sig, Some(&x.block)),
                    Item::Trait(t) => for i in &t.items { if let TraitItem::Fn(x) = i { put(format!("trait {}::{}", t.ident, x.sig.ident), &x.sig, x.default.as_ref()) } },
                    Item::Impl(im) => {
                        let mut im = im.clone();
                        AddDyn { traits: &traits }.visit_item_impl_mut(&mut im);
                        let mut key = impl_key(&im);
                        if im.trait_.is_some() { let c = seen.entry(key.clone()).or_insert(0); *c += 1; if *c > 1 { key = format!("{}#{}", key, c); } }
                        for i in &im.items { if let ImplItem::Fn(x) = i { put(format!("{}::{}", key, x.sig.ident), &x.sig, Some(&x.block)) } }
                    }
                    _ => {}
                }
            }
        }
        out.insert("__structs__".into(), json!(fields_of(&files)));
        println!("{}", serde_json::to_string_pretty(&Value::Object(out)).unwrap());
        return;
    }
    let cdir = get("--contracts").expect("--contracts");
    let out = get("--out").expect("--out");
    let baseline: Value = get("--baseline").and_then(|p| std::fs::read_to_string(p).ok()).map(|t| serde_json::from_str(&t).unwrap()).unwrap_or(json!({}));
    let external: BTreeSet<String> = get("--external").map(|s| s.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let only: Option<BTreeSet<String>> = get("--modules").map(|s| s.split(',').map(|x| x.to_string()).collect());
    // modules the original tree does not have are always taken along
    let base_mods: BTreeSet<String> = mods.iter().filter(|m| baseline.as_object().map_or(true, |b| b.is_empty() || b.keys().any(|k| k.starts_with(&format!("{}::", m))))).cloned().collect();
    let left_out: BTreeSet<String> = mods.iter().filter(|m| only.as_ref().map_or(false, |o| !o.contains(*m)) && base_mods.contains(*m)).cloned().collect();
    let fields_now = fields_of(&files);
    let renamed = renamed_fields(&baseline["__structs__"], &fields_now);
    let new_fields: BTreeSet<String> = match baseline["__structs__"].as_object() {
        Some(b) => {
            let known: BTreeSet<&str> = b.values().filter_map(|a| a.as_array()).flatten().filter_map(|x| x.as_str()).collect();
            let given: BTreeSet<&String> = renamed.values().flat_map(|m| m.values()).collect();
            fields_now.values().flatten().filter(|n| !known.contains(n.as_str()) && !given.contains(n)).cloned().collect()
        }
        None => BTreeSet::new(),
    };
    let mut cx = Ctx { new_fields, left_out, traits, texts: vec![], external, baseline, fns: vec![], problems: vec![], seen: BTreeMap::new(), derived: BTreeSet::new(), probe: args.iter().any(|a| a == "--probe") };
    let read = |n: &str| {
        let mut map = renamed.get("*").cloned().unwrap_or_default();
        if let Some(m) = n.strip_suffix(".vc") { if let Some(r) = renamed.get(m) { map.extend(r.clone()); } }
        rename_fields(&std::fs::read_to_string(format!("{}/{}", cdir, n)).unwrap_or_default(), &map)
    };
    // functions the original tree does not have are written out where they are called
    let mut inlined: Vec<String> = vec![];
    if cx.baseline.as_object().map_or(false, |b| !b.is_empty()) {
        let texts: Vec<(String, proc_macro2::TokenStream)> = files.iter().map(|(m, f)| {
            let mut f = f.clone();
            f.items.retain(|i| !matches!(i, Item::Mod(x) if is_test(&x.attrs)));
            (m.clone(), f.to_token_stream())
        }).collect();
        let mut n = 0;
        for (m, f) in files.iter_mut() {
            let keys: Vec<String> = cx.baseline.as_object().unwrap().keys().cloned().collect();
            let gone = inline::inline(f, &|k| !keys.contains(&format!("{}::{}", m, k)), &|name| texts.iter().any(|(o, t)| o != m && inline::called(t.clone(), name)), &mut n);
            inlined.extend(gone.into_iter().map(|k| format!("{}::{}", m, k)));
        }
    }
    // default methods flagged `inherit` are checked in every implementation that inherits them, not once in the trait
    let mut inherited: Vec<(String, ItemTrait, TraitItemFn)> = vec![];
    for (m, f) in files.iter_mut() {
        if cx.left_out.contains(m) { continue; }
        let mc = contracts::parse(&read(&format!("{}.vc", m)), &|x| only.as_ref().map_or(true, |o| o.contains(x)));
        for it in f.items.iter_mut() {
            if let Item::Trait(t) = it {
                let shell = t.clone();
                for i in t.items.iter_mut() {
                    if let TraitItem::Fn(x) = i {
                        let key = format!("trait {}::{}", shell.ident, x.sig.ident);
                        if x.default.is_some() && mc.fns.get(&key).map_or(false, |c| c.flags.iter().any(|f| f == "inherit")) {
                            inherited.push((format!("{}::{}", m, key), shell.clone(), x.clone()));
                            x.default = None;
                            x.semi_token = Some(Default::default());
                        }
                    }
                }
            }
        }
    }
    for (m, f) in files.iter_mut() {
        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
        for it in f.items.iter_mut() {
            if let Item::Impl(im) = it {
                let (_, path, _) = match &im.trait_ { Some(t) => t.clone(), None => continue };
                let last = path.segments.last().unwrap().clone();
                let mut key = { let mut c = im.clone(); AddDyn { traits: &cx.traits }.visit_item_impl_mut(&mut c); impl_key(&c) };
                let c = seen.entry(key.clone()).or_insert(0);
                *c += 1;
                if *c > 1 { key = format!("{}#{}", key, c); }
                for (full, t, x) in &inherited {
                    if last.ident != t.ident || im.items.iter().any(|i| if let ImplItem::Fn(g) = i { g.sig.ident == x.sig.ident } else { false }) { continue; }
                    let args: Vec<Type> = match &last.arguments { PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect(), _ => vec![] };
                    let names: Vec<String> = t.generics.type_params().map(|p| p.ident.to_string()).collect();
                    let mut g = ImplItemFn { attrs: vec![], vis: Visibility::Inherited, defaultness: None, sig: x.sig.clone(), block: x.default.clone().unwrap() };
                    rewrite::SubstTypes { map: names.into_iter().zip(args).collect() }.visit_impl_item_fn_mut(&mut g);
                    im.items.push(ImplItem::Fn(g));
                    let b = cx.baseline[full].clone();
                    if !b.is_null() { cx.baseline[format!("{}::{}::{}", m, key, x.sig.ident)] = b; }
                }
            }
        }
    }
    let mut res = String::from("#![feature(allocator_api)]\n#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_assignments, unused_parens, non_snake_case, unused_braces, unused_attributes, unused_must_use, noop_method_call, suspicious_double_ref_op)]\nuse vstd::prelude::*;\n");
    // specification-only modules come first, in file-name order: contracts/spec_*.rs
    let mut spec_files: Vec<String> = std::fs::read_dir(&cdir).unwrap().filter_map(|e| { let n = e.unwrap().file_name().into_string().unwrap(); if n.starts_with("spec_") && n.ends_with(".rs") { Some(n) } else { None } }).collect();
    spec_files.sort();
    for f in &spec_files {
        let m = f.trim_end_matches(".rs");
        if let Some(o) = &only { let need = read(&f); if let Some(l) = need.lines().next() { if let Some(r) = l.strip_prefix("//@needs ") { if !r.split_whitespace().all(|x| o.contains(x)) { continue; } } } }
        let _ = m;
        res.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nverus!{{\n{}\n}}\n}}\npub use {}::*;\n", m, read(f), m));
    }
    for (m, f) in files {
        if let Some(o) = &only { if !o.contains(&m) && base_mods.contains(&m) { continue; } }
        let mc = contracts::parse(&read(&format!("{}.vc", m)), &|x| only.as_ref().map_or(true, |o| o.contains(x)));
        if mc.flags.iter().any(|f| f == "skip") { continue; }
        for k in mc.fns.keys() { let _ = k; }
        let t = cx.module(&m, f, &mc);
        // contracts attached to functions that no longer exist
        for k in mc.fns.keys() {
            let full = format!("{}::{}", m, k);
            if !cx.fns.iter().any(|v| v["key"] == full.as_str()) { cx.problems.push(json!({"key": full, "lost": ["function"]})); }
        }
        let t = rustfmt(&t);
        res.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::spec_base::*;\nverus!{{\n{}\n{}\n}}\n}}\npub use {}::*;\n", m, mc.prelude, t, m));
    }
    let res = splice(res, &cx.texts);
    std::fs::write(&out, &res).unwrap();
    // function start lines in the generated file
    let mut marks = vec![];
    for (i, l) in res.lines().enumerate() {
        let mut rest = l;
        while let Some(p) = rest.find("/*VXFN:") { let e = rest[p..].find("*/").unwrap(); marks.push(json!([i + 1, &rest[p + 7..p + e]])); rest = &rest[p + e..]; }
    }
    if let Some(mp) = get("--map") {
        std::fs::write(mp, serde_json::to_string_pretty(&json!({"derived": cx.derived, "fns": cx.fns, "problems": cx.problems, "inlined": inlined, "marks": marks})).unwrap()).unwrap();
    }
}
