//! Semantics-preserving source rewrites from the crate's Rust (2015 edition) into the subset Verus accepts.
//! Every rule is listed in DESIGN.md ("What the extraction does to the text").
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
pub fn txt<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

// ---------------------------------------------------------------- dyn

/// `Trait<..>` used as a type -> `dyn Trait<..>`
pub struct AddDyn<'a> { pub traits: &'a BTreeSet<String> }
impl<'a> VisitMut for AddDyn<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let is_trait = match t {
            Type::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 => self.traits.contains(&p.path.segments[0].ident.to_string()),
            _ => false,
        };
        if is_trait {
            let inner = t.clone();
            *t = parse_quote!(dyn #inner);
        } else if let Type::TraitObject(o) = t {
            o.dyn_token = Some(Default::default());
        }
    }
}

/// `x: &mut dyn Trait` parameters -> generic type parameters (avoids the unsizing coercion at call sites)
pub fn dyn_params_to_generics(sig: &mut Signature) {
    let mut n = 0;
    let mut new_params: Vec<GenericParam> = vec![];
    for arg in sig.inputs.iter_mut() {
        if let FnArg::Typed(pt) = arg {
            if let Type::Reference(r) = &mut *pt.ty {
                if r.mutability.is_some() {
                    if let Type::TraitObject(o) = &*r.elem {
                        let name = id(&format!("VxT{}", n));
                        n += 1;
                        let bounds = o.bounds.clone();
                        new_params.push(parse_quote!(#name: #bounds));
                        *r.elem = parse_quote!(#name);
                    }
                }
            }
        }
    }
    for p in new_params { sig.generics.params.push(p); }
}

// ---------------------------------------------------------------- patterns

fn is_const_name(i: &Ident) -> bool { i.to_string().chars().next().map(|c| c.is_uppercase()).unwrap_or(false) }

struct HasRef(bool);
impl<'ast> Visit<'ast> for HasRef {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) { if p.by_ref.is_some() { self.0 = true; } }
}
struct StripRef { derefs: Vec<(Ident, bool)> }
impl VisitMut for StripRef {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if p.by_ref.is_some() { p.by_ref = None; p.mutability = None; }
        else if !is_const_name(&p.ident) { self.derefs.push((p.ident.clone(), p.mutability.is_some())); p.mutability = None; }
        if let Some((_, sub)) = &mut p.subpat { self.visit_pat_mut(sub); }
    }
}

/// Returns (scrutinee has to be borrowed, idents to dereference), or None if the pattern needs no change.
pub fn strip_pat(p: &mut Pat) -> Option<(bool, Vec<(Ident, bool)>)> {
    if let Pat::Paren(pp) = p { let inner = (*pp.pat).clone(); *p = inner; }
    if let Pat::Reference(r) = p {
        if r.mutability.is_some() { return None; }
        let mut inner = (*r.pat).clone();
        if let Pat::Ident(pi) = &inner {
            if !is_const_name(&pi.ident) {
                // `&x`: x is a copy of the referent
                let d = vec![(pi.ident.clone(), pi.mutability.is_some())];
                let mut pi = pi.clone();
                pi.mutability = None;
                *p = Pat::Ident(pi);
                return Some((false, d));
            }
        }
        if let Pat::Paren(pp) = &inner { inner = (*pp.pat).clone(); }
        let mut s = StripRef { derefs: vec![] };
        s.visit_pat_mut(&mut inner);
        *p = inner;
        return Some((false, s.derefs));
    }
    if let Pat::Or(o) = p {
        let mut res: Option<(bool, Vec<(Ident, bool)>)> = None;
        for c in o.cases.iter_mut() { if let Some(r) = strip_pat(c) { res = Some(r); } }
        return res;
    }
    let mut h = HasRef(false);
    h.visit_pat(p);
    if h.0 {
        if let Pat::Ident(pi) = p {
            if pi.subpat.is_none() {
                // `let ref x = e` / `ref x` on the whole scrutinee
                pi.by_ref = None;
                pi.mutability = None;
                return Some((true, vec![]));
            }
        }
        let mut s = StripRef { derefs: vec![] };
        s.visit_pat_mut(p);
        return Some((true, s.derefs));
    }
    None
}

fn deref_stmts(d: &[(Ident, bool)]) -> Vec<Stmt> {
    d.iter().map(|(i, m)| -> Stmt { if *m { parse_quote!(let mut #i = *#i;) } else { parse_quote!(let #i = *#i;) } }).collect()
}
fn prepend(b: &mut Block, mut s: Vec<Stmt>) { s.append(&mut b.stmts); b.stmts = s; }
fn expr_to_block(e: &Expr) -> Block {
    if let Expr::Block(b) = e { if b.attrs.is_empty() && b.label.is_none() { return b.block.clone(); } }
    Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] }
}
fn borrow(e: &Expr) -> Expr { parse_quote!(&#e) }

/// the body of an `if let` condition chain: collects the dereferences its patterns need
fn fix_cond(e: &mut Expr, d: &mut Vec<(Ident, bool)>) {
    match e {
        Expr::Let(l) => {
            if let Some((b, mut ds)) = strip_pat(&mut l.pat) {
                if b { *l.expr = borrow(&l.expr); }
                d.append(&mut ds);
            }
        }
        Expr::Binary(b) => { fix_cond(&mut b.left, d); fix_cond(&mut b.right, d); }
        Expr::Paren(p) => fix_cond(&mut p.expr, d),
        _ => {}
    }
}

pub struct FixPatterns;
impl VisitMut for FixPatterns {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut s in b.stmts.drain(..) {
            let mut extra = vec![];
            if let Stmt::Local(l) = &mut s {
                let mut target = &mut l.pat;
                if let Pat::Type(pt) = target { target = &mut pt.pat; }
                if let Some((bo, d)) = strip_pat(target) {
                    if let Some(init) = &mut l.init { if bo { *init.expr = borrow(&init.expr); } }
                    extra = deref_stmts(&d);
                }
            }
            out.push(s);
            out.extend(extra);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Match(m) => {
                let mut need_borrow = false;
                for arm in m.arms.iter_mut() {
                    if let Some((b, d)) = strip_pat(&mut arm.pat) {
                        need_borrow |= b;
                        if !d.is_empty() {
                            let mut blk = expr_to_block(&arm.body);
                            prepend(&mut blk, deref_stmts(&d));
                            *arm.body = parse_quote!(#blk);
                            if let Some((_, g)) = &mut arm.guard {
                                let ds = deref_stmts(&d);
                                let ge = g.clone();
                                **g = parse_quote!({ #(#ds)* #ge });
                            }
                        }
                    }
                }
                if need_borrow { *m.expr = borrow(&m.expr); }
            }
            Expr::If(i) => {
                let mut d = vec![];
                fix_cond(&mut i.cond, &mut d);
                if !d.is_empty() { prepend(&mut i.then_branch, deref_stmts(&d)); }
            }
            Expr::While(i) => {
                let mut d = vec![];
                fix_cond(&mut i.cond, &mut d);
                if !d.is_empty() { prepend(&mut i.body, deref_stmts(&d)); }
            }
            Expr::ForLoop(f) => {
                if let Some((_, d)) = strip_pat(&mut f.pat) {
                    if !d.is_empty() { prepend(&mut f.body, deref_stmts(&d)); }
                }
            }
            Expr::Closure(c) => {
                let mut d = vec![];
                for p in c.inputs.iter_mut() {
                    let mut t = p;
                    if let Pat::Type(pt) = t { t = &mut pt.pat; }
                    if let Some((_, mut ds)) = strip_pat(t) { d.append(&mut ds); }
                }
                if !d.is_empty() {
                    let mut blk = expr_to_block(&c.body);
                    prepend(&mut blk, deref_stmts(&d));
                    *c.body = parse_quote!(#blk);
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- iterator pipelines

enum Stage { Map(ExprClosure), FlatMap(ExprClosure), Filter(ExprClosure), Cloned }
struct Pipe { sources: Vec<Expr>, stages: Vec<Stage> }

fn closure_arg(m: &ExprMethodCall) -> Option<ExprClosure> {
    if m.args.len() != 1 { return None; }
    match &m.args[0] { Expr::Closure(c) if c.inputs.len() == 1 => Some(c.clone()), _ => None }
}

/// A chain of std iterator adapters, or None when the expression is not one this rule understands.
fn pipe(e: &Expr, top: bool) -> Option<Pipe> {
    if let Expr::Paren(p) = e { return pipe(&p.expr, top); }
    if let Expr::MethodCall(m) = e {
        let name = m.method.to_string();
        match (name.as_str(), m.args.len()) {
            ("map", 1) => { let c = closure_arg(m)?; let mut p = pipe(&m.receiver, false)?; p.stages.push(Stage::Map(c)); return Some(p); }
            ("flat_map", 1) => { let c = closure_arg(m)?; let mut p = pipe(&m.receiver, false)?; p.stages.push(Stage::FlatMap(c)); return Some(p); }
            ("filter", 1) => { let c = closure_arg(m)?; let mut p = pipe(&m.receiver, false)?; p.stages.push(Stage::Filter(c)); return Some(p); }
            ("cloned", 0) | ("copied", 0) => { let mut p = pipe(&m.receiver, false)?; p.stages.push(Stage::Cloned); return Some(p); }
            ("chain", 1) => {
                let mut a = pipe(&m.receiver, false)?;
                let mut b = pipe(&m.args[0], false)?;
                if !a.stages.is_empty() || !b.stages.is_empty() { return None; }
                a.sources.append(&mut b.sources);
                return Some(a);
            }
            ("iter", 0) => return Some(Pipe { sources: vec![e.clone()], stages: vec![] }),
            ("into_iter", 0) => return Some(Pipe { sources: vec![e.clone()], stages: vec![] }),
            ("chars", 0) => return Some(Pipe { sources: vec![e.clone()], stages: vec![] }),
            _ => return None,
        }
    }
    if top { None } else { Some(Pipe { sources: vec![e.clone()], stages: vec![] }) }
}

struct Lower { n: usize }
impl Lower {
    fn fresh(&mut self, p: &str) -> Ident { self.n += 1; id(&format!("vx_{}{}", p, self.n)) }
    fn stages(&mut self, stages: &[Stage], cur: Expr, sink: &dyn Fn(Expr) -> Stmt) -> Vec<Stmt> {
        if stages.is_empty() { return vec![sink(cur)]; }
        match &stages[0] {
            Stage::Map(c) => {
                let p = &c.inputs[0]; let b = &c.body; let y = self.fresh("y");
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = { let #p = #cur; #b };)];
                v.extend(self.stages(&stages[1..], parse_quote!(#y), sink));
                v
            }
            Stage::FlatMap(c) => {
                let p = &c.inputs[0]; let b = &c.body; let y = self.fresh("it"); let z = self.fresh("z");
                let inner = self.stages(&stages[1..], parse_quote!(#z), sink);
                vec![parse_quote!(let #y = { let #p = #cur; #b };), Stmt::Expr(parse_quote!(for #z in #y { #(#inner)* }), None)]
            }
            Stage::Filter(c) => {
                let p = &c.inputs[0]; let b = &c.body;
                let inner = self.stages(&stages[1..], cur.clone(), sink);
                vec![Stmt::Expr(parse_quote!(if { let #p = &#cur; #b } { #(#inner)* }), None)]
            }
            Stage::Cloned => {
                let y = self.fresh("y");
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = #cur.clone();)];
                v.extend(self.stages(&stages[1..], parse_quote!(#y), sink));
                v
            }
        }
    }
    fn run(&mut self, p: &Pipe, sink: &dyn Fn(Expr) -> Stmt) -> Vec<Stmt> {
        let mut out = vec![];
        for s in &p.sources {
            let x = self.fresh("x");
            let body = self.stages(&p.stages, parse_quote!(#x), sink);
            out.push(Stmt::Expr(parse_quote!(for #x in #s { #(#body)* }), None));
        }
        out
    }
}

/// `X.adapters..collect()`, `Vec::from_iter(X.adapters..)`, `V.extend(X.adapters..)` and `X.iter().min()` become
/// the loops the standard library defines them by.
pub struct LowerPipes { l: Lower }
impl LowerPipes { pub fn new() -> Self { LowerPipes { l: Lower { n: 0 } } } }

fn count_uses(stmts: &[Stmt], i: &Ident) -> usize {
    struct C<'a>(&'a Ident, usize);
    impl<'a, 'ast> Visit<'ast> for C<'a> {
        fn visit_path(&mut self, p: &'ast Path) { if p.is_ident(self.0) { self.1 += 1; } syn::visit::visit_path(self, p); }
    }
    let mut c = C(i, 0);
    for s in stmts { c.visit_stmt(s); }
    c.1
}
struct Subst<'a>(&'a Ident, &'a Expr);
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident(self.0) { *e = self.1.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl VisitMut for LowerPipes {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // a lazily built iterator bound to a name that is used exactly once is substituted at its use
        let mut i = 0;
        while i < b.stmts.len() {
            let cand = if let Stmt::Local(l) = &b.stmts[i] {
                match (&l.pat, &l.init) {
                    (Pat::Ident(pi), Some(init)) if init.diverge.is_none() => match pipe(&init.expr, true) {
                        Some(p) if !p.stages.is_empty() => Some((pi.ident.clone(), (*init.expr).clone())),
                        _ => None,
                    },
                    _ => None,
                }
            } else { None };
            if let Some((name, ex)) = cand {
                if count_uses(&b.stmts[i + 1..], &name) == 1 {
                    for s in b.stmts[i + 1..].iter_mut() { Subst(&name, &ex).visit_stmt_mut(s); }
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            // V.extend(pipeline);
            if let Stmt::Expr(Expr::MethodCall(m), _) = &s {
                if m.method == "extend" && m.args.len() == 1 {
                    if let Some(p) = pipe(&m.args[0], true) {
                        let r = &m.receiver;
                        let r = r.clone();
                        out.extend(self.l.run(&p, &|e| parse_quote!(#r.push(#e);)));
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let src: Option<Expr> = match e {
            Expr::MethodCall(m) if m.method == "collect" && m.args.is_empty() => Some((*m.receiver).clone()),
            Expr::Call(c) if c.args.len() == 1 && txt(&c.func).replace(' ', "") == "Vec::from_iter" => Some(c.args[0].clone()),
            _ => None,
        };
        if let Some(s) = src {
            if let Some(p) = pipe(&s, true) {
                let o = self.l.fresh("out");
                let o2 = o.clone();
                let stmts = self.l.run(&p, &move |x| parse_quote!(#o2.push(#x);));
                *e = parse_quote!({ let mut #o = Vec::new(); #(#stmts)* #o });
            }
        }
        if let Expr::MethodCall(m) = e {
            if (m.method == "min" || m.method == "max") && m.args.is_empty() {
                if let Some(p) = pipe(&m.receiver, true) {
                    let o = self.l.fresh("m");
                    let o2 = o.clone();
                    // Iterator::min keeps the first of equal minima, Iterator::max the last of equal maxima
                    let is_min = m.method == "min";
                    let stmts = self.l.run(&p, &move |x| {
                        if is_min {
                            parse_quote!(match #o2 { None => { #o2 = Some(#x); } Some(vx_b) => { if #x < vx_b { #o2 = Some(#x); } } })
                        } else {
                            parse_quote!(match #o2 { None => { #o2 = Some(#x); } Some(vx_b) => { if #x >= vx_b { #o2 = Some(#x); } } })
                        }
                    });
                    *e = parse_quote!({ let mut #o = None; #(#stmts)* #o });
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- small rules

/// assert!(c, ..) and its relatives: the condition
fn asserted(m: &Macro) -> Option<Expr> {
    let args: syn::punctuated::Punctuated<Expr, Token![,]> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
    let n = m.path.get_ident()?.to_string();
    match n.as_str() {
        "assert" | "debug_assert" => args.first().cloned(),
        "assert_eq" | "debug_assert_eq" if args.len() >= 2 => { let (a, b) = (&args[0], &args[1]); Some(parse_quote!(#a == #b)) }
        "assert_ne" | "debug_assert_ne" if args.len() >= 2 => { let (a, b) = (&args[0], &args[1]); Some(parse_quote!(#a != #b)) }
        _ => None,
    }
}

/// panic!(..) / unreachable!() -> vx_panic();   x.clone() on tuples -> x.vx_clone()
pub struct Small { pub panic_fn: &'static str, pub tuple_clone: Vec<String>, pub methods: Vec<(String, String)>, pub args: Vec<(String, String)>, pub callees: Vec<(String, String)> }
impl VisitMut for Small {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable") {
                // keep it an expression of type `!` when it is the value of its block
                let pf = id(self.panic_fn); let e: Expr = parse_quote!(#pf());
                let semi = m.semi_token;
                *s = Stmt::Expr(e, semi);
                return;
            }
            if let Some(c) = asserted(&m.mac) { let pf = id(self.panic_fn); let mut e: Expr = parse_quote!(if !(#c) { #pf(); }); self.visit_expr_mut(&mut e); *s = Stmt::Expr(e, None); return; }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable") { let pf = id(self.panic_fn); *e = parse_quote!(#pf()); return; }
        }
        // what the standard library defines these as
        if let Expr::Call(c) = e {
            let f = txt(&c.func).replace(' ', "");
            let which = if c.args.len() == 2 { f.trim_start_matches("::").trim_start_matches("std::").trim_start_matches("core::").trim_start_matches("cmp::").to_string() } else { String::new() };
            let (a, b) = (c.args.first().cloned(), c.args.last().cloned());
            if which == "max" { *e = parse_quote!({ let vx_a = #a; let vx_b = #b; if vx_a > vx_b { vx_a } else { vx_b } }); return; }
            if which == "min" { *e = parse_quote!({ let vx_a = #a; let vx_b = #b; if vx_a > vx_b { vx_b } else { vx_a } }); return; }
        }
        if let Expr::MethodCall(m) = e {
            let (r, a) = (m.receiver.clone(), m.args.first().cloned());
            if m.method == "max" && m.args.len() == 1 { *e = parse_quote!({ let vx_a = #r; let vx_b = #a; if vx_a > vx_b { vx_a } else { vx_b } }); return; }
            if m.method == "min" && m.args.len() == 1 { *e = parse_quote!({ let vx_a = #r; let vx_b = #a; if vx_a > vx_b { vx_b } else { vx_a } }); return; }
            let opt = match &*r { Expr::MethodCall(q) => ["as_ref", "as_mut", "get", "get_mut", "pop", "last", "first", "take", "next_symbol", "next_token", "checked_sub", "checked_add"].iter().any(|n| q.method == n), _ => false };
            match (m.method.to_string().as_str(), m.args.len(), a.as_ref(), m.args.last()) {
                ("map", 1, Some(Expr::Closure(c)), _) if opt && c.inputs.len() == 1 => { let (p, b) = (&c.inputs[0], &c.body); let mut x: Expr = parse_quote!(match #r { Some(#p) => Some(#b), None => None }); FixPatterns.visit_expr_mut(&mut x); *e = x; return; }
                ("and_then", 1, Some(Expr::Closure(c)), _) if opt && c.inputs.len() == 1 => { let (p, b) = (&c.inputs[0], &c.body); let mut x: Expr = parse_quote!(match #r { Some(#p) => #b, None => None }); FixPatterns.visit_expr_mut(&mut x); *e = x; return; }
                ("map_or", 2, Some(d), Some(Expr::Closure(c))) if opt && c.inputs.len() == 1 => { let (p, b) = (&c.inputs[0], &c.body); let mut x: Expr = parse_quote!({ let vx_d = #d; match #r { Some(#p) => #b, None => vx_d } }); FixPatterns.visit_expr_mut(&mut x); *e = x; return; }
                ("unwrap_or_else", 1, Some(Expr::Closure(c)), _) if opt && c.inputs.is_empty() => { let b = &c.body; *e = parse_quote!(match #r { Some(vx_o) => vx_o, None => #b }); return; }
                _ => {}
            }
            if m.method == "then_with" && m.args.len() == 1 { if let Some(Expr::Closure(c)) = &a { if c.inputs.is_empty() { let b = &c.body; *e = parse_quote!(match #r { ::std::cmp::Ordering::Equal => #b, vx_o => vx_o }); return; } } }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "clone" && m.args.is_empty() {
                let r = txt(&m.receiver).replace(' ', "");
                if self.tuple_clone.iter().any(|p| glob(p, &r)) { m.method = id("vx_clone"); }
            }
            if m.method == "borrow_mut" && m.args.is_empty() {
                let mut r = (*m.receiver).clone();
                loop { match r { Expr::Paren(p) => r = *p.expr, Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => r = *expr, _ => break } }
                *e = parse_quote!(vx_borrow(&#r));
                return;
            }
            for (a, b) in &self.methods { if m.method == a.as_str() { m.method = id(b); } }
        }
        // indexing by reference is looking up in a map
        if let Expr::Index(x) = e {
            if let Expr::Reference(_) = &*x.index { let (m, k) = (x.expr.clone(), x.index.clone()); *e = parse_quote!(*vx_at(&#m, #k)); return; }
        }
        // coercions to trait objects, which the verifier only takes through a trusted function
        if let Expr::Call(c) = e {
            let f = txt(&c.func).replace(' ', "");
            for (a, h) in &self.args { if glob(a, &f) { let h = id(h); for x in c.args.iter_mut() { let y = x.clone(); *x = parse_quote!(#h(#y)); } } }
            for (a, h) in &self.callees { if glob(a, &f) { let h = id(h); *c.func = parse_quote!(#h); } }
        }
        if let Expr::Path(p) = e {
            let t = txt(&p.path).replace(' ', "");
            if t == "usize::max_value" { *e = parse_quote!(vx_usize_max); }
        }
    }
}

/// `let x = ..` gets the type rustc infers, because contracts mention x before the statement that fixes it
pub struct LetType { pub name: String, pub ty: Type }
impl VisitMut for LetType {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let Pat::Ident(p) = &l.pat { if p.ident == self.name { let (a, t) = (l.pat.clone(), self.ty.clone()); l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(a), colon_token: Default::default(), ty: Box::new(t) }); } }
    }
}

/// type parameters replaced by the arguments of an implementation
pub struct SubstTypes { pub map: BTreeMap<String, Type> }
impl VisitMut for SubstTypes {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t { if p.qself.is_none() { if let Some(i) = p.path.get_ident() { if let Some(r) = self.map.get(&i.to_string()) { *t = r.clone(); return; } } } }
        visit_mut::visit_type_mut(self, t);
    }
}

pub fn glob(p: &str, s: &str) -> bool {
    fn g(p: &[u8], s: &[u8]) -> bool {
        if p.is_empty() { return s.is_empty(); }
        if p[0] == b'*' { return (0..=s.len()).any(|i| g(&p[1..], &s[i..])); }
        !s.is_empty() && p[0] == s[0] && g(&p[1..], &s[1..])
    }
    g(p.as_bytes(), s.as_bytes())
}

/// All fields and functions become `pub` so that contracts can mention them.
pub struct MakePub;
impl VisitMut for MakePub {
    fn visit_field_mut(&mut self, f: &mut Field) { f.vis = parse_quote!(pub); f.attrs.clear(); }
}

// ---------------------------------------------------------------- shape

/// Names bound by a function, in source order, and a summary of its control structure.
/// the paths a pattern names, in order
fn heads(p: &Pat) -> String {
    struct H(String);
    impl<'ast> Visit<'ast> for H {
        fn visit_path(&mut self, p: &'ast Path) { if let Some(s) = p.segments.last() { self.0.push_str(&format!(" {}", s.ident)); } }
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) { if is_const_name(&p.ident) { self.0.push_str(&format!(" {}", p.ident)); } syn::visit::visit_pat_ident(self, p); }
        fn visit_pat_wild(&mut self, _: &'ast PatWild) { self.0.push_str(" _"); }
    }
    let mut h = H(String::new());
    h.visit_pat(p);
    h.0
}
fn negative(e: &Expr) -> bool {
    match e { Expr::Paren(p) => negative(&p.expr), Expr::Unary(u) => matches!(u.op, UnOp::Not(_)), Expr::Binary(b) => matches!(b.op, BinOp::Ne(_)), _ => false }
}

pub struct Shape { pub binders: Vec<String>, pub skel: String }
impl<'ast> Visit<'ast> for Shape {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        if !is_const_name(&p.ident) { self.binders.push(p.ident.to_string()); }
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_expr(&mut self, e: &'ast Expr) {
        let (k, close) = match e {
            Expr::ForLoop(_) => ("F{", true), Expr::While(_) => ("W{", true), Expr::Loop(_) => ("L{", true),
            Expr::If(i) => { if negative(&i.cond) { self.skel.push('!'); } (if i.else_branch.is_some() { "I{" } else { "i{" }, true) }
            // the order of the arms, and the sense of a condition, are where the marks `@arm`, `@then` and `@else` point
            Expr::Match(m) => { self.skel.push_str(&format!("M{}", m.arms.iter().map(|a| heads(&a.pat)).collect::<Vec<_>>().join("|"))); ("{", true) }
            Expr::Closure(_) => ("C{", true), Expr::Return(_) => ("r", false), Expr::Break(_) => ("b", false), Expr::Continue(_) => ("c", false),
            _ => ("", false),
        };
        // bit operations are outside what the arithmetic proofs were written for
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::BitXor(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::Shl(_) | BinOp::Shr(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) { self.skel.push('~'); }
        }
        if let Expr::MethodCall(m) = e { self.skel.push_str(&format!(".{}", m.method)); }
        self.skel.push_str(k);
        syn::visit::visit_expr(self, e);
        if close { self.skel.push('}'); }
    }
}
