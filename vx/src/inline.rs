//! Functions the original tree does not have (and that therefore have no contract) are written out at their calls, so that the
//! callers are checked against the code that runs. What cannot be written out stays as it is.
use crate::rewrite::*;
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
struct Param { name: Ident, mutable: bool, ty: Type }
#[derive(Clone)]
struct Helper { name: String, public: bool, owner: Option<String>, recv: Option<Receiver>, params: Vec<Param>, body: Block, impl_generics: Vec<String> }

pub fn mentions(t: TokenStream, n: &str) -> bool {
    t.into_iter().any(|x| match x { TokenTree::Ident(i) => i == n, TokenTree::Group(g) => mentions(g.stream(), n), _ => false })
}
fn macro_mentions<T>(n: &str, visit: impl FnOnce(&mut MacroIdents) -> T) -> bool { let mut m = MacroIdents(n.into(), false); visit(&mut m); m.1 }
pub struct MacroIdents(String, bool);
impl<'ast> Visit<'ast> for MacroIdents { fn visit_macro(&mut self, m: &'ast Macro) { if mentions(m.tokens.clone(), &self.0) { self.1 = true; } } }

struct Found { ret: bool, bad: bool }
impl<'ast> Visit<'ast> for Found {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) => self.ret = true,
            Expr::Try(_) | Expr::Await(_) | Expr::Async(_) | Expr::Unsafe(_) | Expr::Yield(_) => self.bad = true,
            Expr::Closure(_) => { let mut f = Found { ret: false, bad: false }; visit::visit_expr(&mut f, e); if f.bad { self.bad = true; } return; }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'ast Item) { self.bad = true; }
}
fn has_return_e(e: &Expr) -> bool { let mut f = Found { ret: false, bad: false }; f.visit_expr(e); f.ret }
fn has_return_s(s: &Stmt) -> bool { let mut f = Found { ret: false, bad: false }; f.visit_stmt(s); f.ret }
fn has_return_b(b: &Block) -> bool { b.stmts.iter().any(has_return_s) }

/// the block as one whose value is what the function returns; None when that takes more than moving the rest into branches
fn structured(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let k = match stmts.iter().position(has_return_s) { None => return Some(stmts.to_vec()), Some(k) => k };
    let (before, rest) = (&stmts[..k], &stmts[k + 1..]);
    let mut out = before.to_vec();
    let block = |v: Vec<Stmt>| Block { brace_token: Default::default(), stmts: v };
    match &stmts[k] {
        Stmt::Expr(Expr::Return(r), _) => {
            if let Some(e) = &r.expr { if has_return_e(e) { return None; } out.push(Stmt::Expr((**e).clone(), None)); }
            Some(out)
        }
        Stmt::Expr(Expr::If(i), semi) => {
            if has_return_e(&i.cond) { return None; }
            let then = i.then_branch.stmts.clone();
            let els: Vec<Stmt> = match &i.else_branch { None => vec![], Some((_, e)) => match &**e { Expr::Block(b) => b.block.stmts.clone(), o => vec![Stmt::Expr(o.clone(), None)] } };
            let (a, b) = both(then, els, rest, semi.is_some() || i.else_branch.is_none())?;
            let (a, b, c) = (block(a), block(b), &i.cond);
            out.push(Stmt::Expr(parse_quote!(if #c #a else #b), None));
            Some(out)
        }
        Stmt::Expr(Expr::Match(m), semi) => {
            if has_return_e(&m.expr) { return None; }
            let mut m = m.clone();
            let open = m.arms.iter().filter(|a| !leaves(&body_of(&a.body))).count();
            if !rest.is_empty() && open > 1 { return None; }
            for a in m.arms.iter_mut() {
                let mut v = body_of(&a.body);
                if !leaves(&v) && !rest.is_empty() { drop_value(&mut v); v.extend(rest.to_vec()); }
                else if rest.is_empty() && semi.is_some() { drop_value(&mut v); }
                let b = block(structured(&v)?);
                a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
            }
            out.push(Stmt::Expr(Expr::Match(m), None));
            Some(out)
        }
        // let P = match e { A => v, B => return w };
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            if init.diverge.is_some() { return None; }
            if let Expr::Match(m) = &*init.expr {
                if has_return_e(&m.expr) { return None; }
                let mut m = m.clone();
                if m.arms.iter().filter(|a| !leaves(&body_of(&a.body))).count() != 1 { return None; }
                for a in m.arms.iter_mut() {
                    let mut v = body_of(&a.body);
                    if !leaves(&v) {
                        let value = match v.pop()? { Stmt::Expr(e, None) => e, _ => return None };
                        let p = &l.pat;
                        v.push(parse_quote!(let #p = #value;));
                        v.extend(rest.to_vec());
                    }
                    let b = block(structured(&v)?);
                    a.body = Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }));
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            None
        }
        _ => None,
    }
}
fn body_of(e: &Expr) -> Vec<Stmt> { match e { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), o => vec![Stmt::Expr(o.clone(), None)] } }
fn drop_value(v: &mut Vec<Stmt>) { if let Some(Stmt::Expr(_, s)) = v.last_mut() { if s.is_none() { *s = Some(Default::default()); } } }
/// control never reaches the end of these statements
fn leaves(v: &[Stmt]) -> bool {
    match v.last() {
        Some(Stmt::Expr(e, _)) => match e {
            Expr::Return(_) => true,
            Expr::Block(b) => leaves(&b.block.stmts),
            Expr::If(i) => leaves(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, e)| leaves(&body_of(e))),
            Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| leaves(&body_of(&a.body))),
            Expr::Macro(m) => m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"),
            _ => false,
        },
        Some(Stmt::Macro(m)) => m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"),
        _ => false,
    }
}
fn both(mut a: Vec<Stmt>, mut b: Vec<Stmt>, rest: &[Stmt], value_dropped: bool) -> Option<(Vec<Stmt>, Vec<Stmt>)> {
    let (la, lb) = (leaves(&a), leaves(&b));
    if !rest.is_empty() {
        if !la && !lb { return None; }
        if !la { drop_value(&mut a); a.extend(rest.to_vec()); }
        if !lb { drop_value(&mut b); b.extend(rest.to_vec()); }
    } else if value_dropped {
        if !la { drop_value(&mut a); }
        if !lb { drop_value(&mut b); }
    }
    Some((structured(&a)?, structured(&b)?))
}

/// every name the code binds
struct Binders(BTreeSet<String>);
impl<'ast> Visit<'ast> for Binders { fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); } }

/// a place: a local, a field of one, a field of self
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::Paren(p) => root(&p.expr),
        _ => None,
    }
}
fn peel(e: &Expr) -> &Expr { match e { Expr::Paren(p) => peel(&p.expr), o => o } }

/// uses of `name` become `place`; where the name itself (a reference) is meant, `whole`
struct Place<'a> { name: &'a str, place: &'a Expr, whole: Option<&'a Expr>, failed: bool }
impl<'a> Place<'a> {
    fn is(&self, e: &Expr) -> bool { matches!(peel(e), Expr::Path(p) if p.path.is_ident(self.name)) }
}
impl<'a> VisitMut for Place<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Field(f) if self.is(&f.base) => { *f.base = self.place.clone(); return; }
            Expr::Index(x) if self.is(&x.expr) => { *x.expr = self.place.clone(); self.visit_expr_mut(&mut x.index); return; }
            Expr::MethodCall(m) if self.is(&m.receiver) => { *m.receiver = self.place.clone(); for a in m.args.iter_mut() { self.visit_expr_mut(a); } return; }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) if self.is(expr) => { let p = self.place.clone(); *e = p; return; }
            _ => {}
        }
        if self.is(e) { match self.whole { Some(w) => *e = w.clone(), None => self.failed = true } return; }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() && self.is(&f.expr) { f.colon_token = Some(Default::default()); } self.visit_expr_mut(&mut f.expr); }
    fn visit_macro_mut(&mut self, m: &mut Macro) { if mentions(m.tokens.clone(), self.name) { self.failed = true; } }
}
struct Rename<'a>(&'a str, &'a Ident);
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident(self.0) { *p = { let i = self.1; parse_quote!(#i) }; } }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } self.visit_expr_mut(&mut f.expr); }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.ident == self.0 { p.ident = self.1.clone(); } visit_mut::visit_pat_ident_mut(self, p); }
}

struct Inliner<'a> { h: &'a Helper, owner: Option<String>, receiver: Option<Receiver>, here: BTreeSet<String>, n: &'a mut usize, done: usize }
impl<'a> Inliner<'a> {
    /// receiver: what `self` is in the helper
    fn written_out(&mut self, recv: Option<&Expr>, args: &[Expr]) -> Option<Expr> {
        let h = self.h;
        if args.len() != h.params.len() || recv.is_some() != h.recv.is_some() { return None; }
        let same_impl = h.owner.is_some() && h.owner == self.owner;
        let whole_body = h.body.to_token_stream();
        if !same_impl && (mentions(whole_body.clone(), "Self") || h.impl_generics.iter().any(|g| mentions(whole_body.clone(), g))) { return None; }
        let mut body = h.body.clone();
        let mut bound = { let mut b = Binders(BTreeSet::new()); b.visit_block(&body); b.0 };
        let mut lets: Vec<Stmt> = vec![];
        if let (Some(r), Some(hr)) = (recv, &h.recv) {
            let r = match peel(r) { Expr::Reference(x) => peel(&x.expr).clone(), o => o.clone() };
            let is_self = matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
            if is_self {
                // `self` itself may only be handed on when it is the same kind of thing here and there
                let same = self.receiver.as_ref().map_or(false, |c| txt(&c.reference.is_some()) == txt(&hr.reference.is_some()) && (c.mutability.is_some() || hr.mutability.is_none() || hr.reference.is_none()));
                if !same {
                    if hr.reference.is_none() { return None; }
                    let p: Expr = parse_quote!(self);
                    let mut s = Place { name: "self", place: &p, whole: None, failed: false };
                    s.visit_block_mut(&mut body);
                    if s.failed { return None; }
                } else if hr.reference.is_none() && hr.mutability.is_some() { return None; }
            } else if hr.reference.is_none() {
                *self.n += 1;
                let v = id(&format!("vx_self{}", self.n));
                if macro_mentions("self", |m| m.visit_block(&body)) { return None; }
                lets.push(if hr.mutability.is_some() { parse_quote!(let mut #v = #r;) } else { parse_quote!(let #v = #r;) });
                Rename("self", &v).visit_block_mut(&mut body);
            } else {
                let rt = root(&r)?;
                if bound.contains(&rt) || h.params.iter().any(|p| p.name == rt) { return None; }
                let mut s = Place { name: "self", place: &r, whole: None, failed: false };
                s.visit_block_mut(&mut body);
                if s.failed { return None; }
            }
        }
        // places changed through a reference: a value read from one of them has to be read first
        let muts: Vec<String> = args.iter().filter_map(|a| if let Expr::Reference(r) = peel(a) { if r.mutability.is_some() { return root(&r.expr); } None } else { None }).collect();
        let mut later: Vec<(Ident, String, Expr)> = vec![];
        for (p, a) in h.params.iter().zip(args) {
            let n = p.name.to_string();
            if h.params.iter().filter(|q| q.name == p.name).count() > 1 { return None; }
            let in_macro = macro_mentions(&n, |m| m.visit_block(&body));
            let rebound = bound.contains(&n);
            if !in_macro && !rebound && !p.mutable {
                match peel(a) {
                    // a local or a literal handed over by value
                    Expr::Path(q) if q.path.get_ident().is_some() && !muts.contains(&q.path.get_ident().unwrap().to_string()) && !bound.contains(&q.path.get_ident().unwrap().to_string()) && !q.path.is_ident("self") => { later.push((p.name.clone(), n, a.clone())); continue; }
                    Expr::Lit(_) => { later.push((p.name.clone(), n, a.clone())); continue; }
                    Expr::Reference(r) => {
                        if let Some(rt) = root(&r.expr) { if !bound.contains(&rt) && !(r.mutability.is_none() && muts.contains(&rt)) { later.push((p.name.clone(), n, a.clone())); continue; } }
                    }
                    _ => {}
                }
            }
            if in_macro && args.iter().any(|b| mentions(b.to_token_stream(), &n)) && !matches!(peel(a), Expr::Path(q) if q.path.is_ident(&n)) { return None; }
            let v = if matches!(peel(a), Expr::Path(q) if q.path.is_ident(&n)) || !args.iter().any(|b| mentions(b.to_token_stream(), &n)) { p.name.clone() } else { *self.n += 1; id(&format!("{}_{}", n, self.n)) };
            if v != p.name { if rebound { return None; } Rename(&n, &v).visit_block_mut(&mut body); }
            let ty: Option<Type> = match &p.ty {
                Type::Reference(r) => Some(if r.mutability.is_some() { parse_quote!(&mut _) } else { parse_quote!(&_) }),
                Type::Path(q) if q.path.get_ident().map_or(false, |i| matches!(i.to_string().as_str(), "usize" | "u8" | "u16" | "u32" | "u64" | "u128" | "i8" | "i16" | "i32" | "i64" | "isize" | "bool" | "char" | "StateId")) => Some(p.ty.clone()),
                _ => None,
            };
            let m: Option<Token![mut]> = if p.mutable { Some(Default::default()) } else { None };
            lets.push(match ty { Some(t) => parse_quote!(let #m #v: #t = #a;), None => parse_quote!(let #m #v = #a;) });
        }
        // all at once: an argument may have the name of another parameter
        let temps: Vec<Ident> = later.iter().map(|_| { *self.n += 1; id(&format!("vx_arg{}", self.n)) }).collect();
        for ((_, n, _), t) in later.iter().zip(&temps) { Rename(n, t).visit_block_mut(&mut body); }
        for ((_, _, a), t) in later.iter().zip(&temps) {
            let t = t.to_string();
            let place = match peel(a) { Expr::Reference(r) => peel(&r.expr).clone(), o => o.clone() };
            let mut s = Place { name: &t, place: &place, whole: Some(a), failed: false };
            if !matches!(peel(a), Expr::Reference(_)) { Subst1 { name: &t, by: a }.visit_block_mut(&mut body); } else { s.visit_block_mut(&mut body); if s.failed { return None; } }
        }
        // names the helper binds must not hide ones the arguments' places use: checked above through `bound`
        bound.clear();
        self.done += 1;
        if lets.is_empty() && body.stmts.len() == 1 { if let Stmt::Expr(e, None) = &body.stmts[0] { return Some(match e { Expr::Binary(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::Reference(_) | Expr::Range(_) => parse_quote!((#e)), o => o.clone() }); } }
        lets.extend(body.stmts);
        let b = Block { brace_token: Default::default(), stmts: lets };
        Some(Expr::Block(ExprBlock { attrs: vec![parse_quote!(#[vx_inlined])], label: None, block: b }))
    }
}
/// a written-out body that is a whole statement (or the value of a `let`) becomes part of the block around it
struct Flatten;
fn inlined(e: &Expr) -> Option<&Block> { if let Expr::Block(b) = e { if b.attrs.iter().any(|a| a.path().is_ident("vx_inlined")) { return Some(&b.block); } } None }
fn clash(stmts: &[Stmt], around: &[Stmt], out: &[Stmt]) -> bool {
    let mut b = Binders(BTreeSet::new());
    for s in stmts { if let Stmt::Local(l) = s { b.visit_pat(&l.pat); } }
    b.0.iter().any(|n| around.iter().chain(out).any(|s| mentions(s.to_token_stream(), n)))
}
impl VisitMut for Flatten {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let all: Vec<Stmt> = b.stmts.drain(..).collect();
        let mut out: Vec<Stmt> = vec![];
        for (k, s) in all.iter().enumerate() {
            let rest = &all[k + 1..];
            match s {
                Stmt::Expr(e, semi) => if let Some(i) = inlined(e) {
                    if !clash(&i.stmts, rest, &out) {
                        let mut v = i.stmts.clone();
                        if semi.is_some() || !rest.is_empty() { drop_value(&mut v); }
                        out.extend(v);
                        continue;
                    }
                },
                Stmt::Local(l) => if let (Some(init), Pat::Ident(x)) = (&l.init, &l.pat) { if init.diverge.is_none() { if let Some(i) = inlined(&init.expr) {
                    let mut v = i.stmts.clone();
                    if let Some(Stmt::Expr(t, None)) = v.pop() {
                        // `let x = { let y = e; ..; y };`
                        let at = match &t { Expr::Path(p) => p.path.get_ident().and_then(|y| { let n: Vec<usize> = v.iter().enumerate().filter(|(_, s)| matches!(s, Stmt::Local(l) if matches!(plain(&l.pat), Some(p) if p.ident == *y && (p.mutability.is_none() || x.mutability.is_some())))).map(|(i, _)| i).collect(); if n.len() == 1 { Some((n[0], y.clone())) } else { None } }), _ => None };
                        let xs = x.ident.to_string();
                        if let Some((at, y)) = at {
                            let used = v.iter().any(|s| y != xs.as_str() && mentions(s.to_token_stream(), &xs));
                            let others: Vec<Stmt> = v.iter().enumerate().filter(|(i, _)| *i != at).map(|(_, s)| s.clone()).collect();
                            if !used && !clash(&others, rest, &out) && !macro_mentions(&y.to_string(), |m| for s in &v { m.visit_stmt(s) }) {
                                for s in v.iter_mut() { Rename(&y.to_string(), &x.ident).visit_stmt_mut(s); }
                                if let Stmt::Local(q) = &mut v[at] { if let (Pat::Ident(_), m) = (&q.pat, x.mutability) { if let Pat::Ident(z) = &mut q.pat { z.mutability = m; } } }
                                out.extend(v);
                                continue;
                            }
                        } else if !clash(&v, rest, &out) && !v.iter().any(|s| matches!(s, Stmt::Local(l) if { let mut b = Binders(BTreeSet::new()); b.visit_pat(&l.pat); b.0.contains(&xs) })) {
                            out.extend(v);
                            let mut l = l.clone();
                            l.init.as_mut().unwrap().expr = Box::new(t);
                            out.push(Stmt::Local(l));
                            continue;
                        }
                    }
                } } },
                _ => {}
            }
            out.push(s.clone());
        }
        b.stmts = out;
    }
}
fn plain(p: &Pat) -> Option<&PatIdent> { match p { Pat::Ident(i) => Some(i), Pat::Type(t) => plain(&t.pat), _ => None } }
struct Unmark;
impl VisitMut for Unmark { fn visit_expr_block_mut(&mut self, b: &mut ExprBlock) { b.attrs.retain(|a| !a.path().is_ident("vx_inlined")); visit_mut::visit_expr_block_mut(self, b); } }
/// the mark left in functions that had others written out in them
pub fn was_written_into(b: &Block) -> bool { matches!(b.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("vx_written_into")) }
/// called as a function or a method, or named by a path
pub fn called(t: TokenStream, n: &str) -> bool {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let punct = |k: usize, c: char| matches!(v.get(k), Some(TokenTree::Punct(p)) if p.as_char() == c);
    (0..v.len()).any(|k| match &v[k] {
        TokenTree::Ident(i) if i == n => matches!(v.get(k + 1), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis) || punct(k + 1, ':') && punct(k + 2, ':') || k > 1 && punct(k - 1, ':') && punct(k - 2, ':'),
        TokenTree::Group(g) => called(g.stream(), n),
        _ => false,
    })
}
struct Subst1<'a> { name: &'a str, by: &'a Expr }
impl<'a> VisitMut for Subst1<'a> {
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() && matches!(&f.expr, Expr::Path(p) if p.path.is_ident(self.name)) { f.colon_token = Some(Default::default()); } self.visit_expr_mut(&mut f.expr); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident(self.name) { *e = self.by.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}
const COMMON: &[&str] = &["new", "len", "push", "pop", "get", "insert", "remove", "next", "iter", "clone", "contains", "extend", "map", "start", "end", "read", "take", "min", "max", "is_empty", "last", "first", "count", "find", "position", "build", "reverse", "sort", "dedup", "write", "replace", "swap"];
impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let name = self.h.name.clone();
        let new = match e {
            Expr::MethodCall(m) if m.method == name && self.h.recv.is_some() => {
                let on_self = matches!(peel(&m.receiver), Expr::Path(p) if p.path.is_ident("self"));
                if on_self && self.h.owner != self.owner { return; }
                if !on_self && COMMON.contains(&name.as_str()) { return; }
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let r = (*m.receiver).clone();
                self.written_out(Some(&r), &args)
            }
            Expr::Call(c) => {
                let p = match &*c.func { Expr::Path(p) if p.qself.is_none() => p.path.clone(), _ => return };
                let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.last() != Some(&name) { return; }
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                match (&self.h.owner, segs.len()) {
                    (None, 1) => { if self.here.contains(&name) { return; } }
                    (None, 2) if segs[0] == "self" || segs[0] == "super" => {}
                    (Some(o), 2) if &segs[0] == o || (segs[0] == "Self" && self.owner.as_ref() == Some(o)) => {}
                    _ => return,
                }
                if self.h.recv.is_some() { if args.is_empty() { return; } let r = args.remove(0); self.written_out(Some(&r), &args) } else { self.written_out(None, &args) }
            }
            _ => return,
        };
        if let Some(n) = new { *e = n; }
    }
}

fn helper_of(vis: &Visibility, sig: &Signature, block: &Block, owner: Option<String>, impl_generics: Vec<String>) -> Option<Helper> {
    if sig.unsafety.is_some() || sig.asyncness.is_some() || sig.variadic.is_some() { return None; }
    let mut f = Found { ret: false, bad: false };
    f.visit_block(block);
    if f.bad || mentions(block.to_token_stream(), &sig.ident.to_string()) { return None; }
    let from = if was_written_into(block) { 1 } else { 0 };
    let body = Block { brace_token: Default::default(), stmts: structured(&block.stmts[from..])? };
    if has_return_b(&body) { return None; }
    let own_generics: Vec<String> = sig.generics.type_params().map(|p| p.ident.to_string()).collect();
    if own_generics.iter().any(|g| mentions(block.to_token_stream(), g)) { return None; }
    let (mut recv, mut params) = (None, vec![]);
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => { if r.colon_token.is_some() { return None; } recv = Some(r.clone()); }
            FnArg::Typed(t) => match &*t.pat { Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => params.push(Param { name: p.ident.clone(), mutable: p.mutability.is_some(), ty: (*t.ty).clone() }), Pat::Wild(_) => params.push(Param { name: id("_vx_unused"), mutable: false, ty: (*t.ty).clone() }), _ => return None },
        }
    }
    Some(Helper { name: sig.ident.to_string(), public: !matches!(vis, Visibility::Inherited), owner, recv, params, body, impl_generics })
}

fn each_fn(f: &mut File, g: &mut dyn FnMut(Option<String>, &Signature, &mut Block)) {
    let test = |a: &[Attribute]| a.iter().any(|a| a.path().is_ident("cfg") && txt(&a.meta).contains("test"));
    for it in f.items.iter_mut() {
        match it {
            Item::Fn(x) if !test(&x.attrs) => g(None, &x.sig, &mut x.block),
            Item::Trait(t) => for i in t.items.iter_mut() { if let TraitItem::Fn(x) = i { if let Some(b) = x.default.as_mut() { g(None, &x.sig, b); } } },
            Item::Impl(im) => { let o = head(&im.self_ty); for i in im.items.iter_mut() { if let ImplItem::Fn(x) = i { g(o.clone(), &x.sig, &mut x.block); } } }
            _ => {}
        }
    }
}
fn head(t: &Type) -> Option<String> { if let Type::Path(p) = t { p.path.segments.last().map(|s| s.ident.to_string()) } else { None } }

/// `is_new(key)`: the function is not one of the original tree's. `elsewhere(name)`: another module mentions it.
/// Returns the keys of the functions written out everywhere and taken away.
pub fn inline(f: &mut File, is_new: &dyn Fn(&str) -> bool, elsewhere: &dyn Fn(&str) -> bool, n: &mut usize) -> Vec<String> {
    let mut gone = vec![];
    let mut tried: BTreeSet<String> = BTreeSet::new();
    loop {
        // candidates that call no other candidate first
        let mut cands: Vec<(String, Helper)> = vec![];
        for it in &f.items {
            match it {
                Item::Fn(x) if !x.attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("test")) => { let k = x.sig.ident.to_string(); if is_new(&k) { if let Some(h) = helper_of(&x.vis, &x.sig, &x.block, None, vec![]) { cands.push((k, h)); } } }
                Item::Impl(im) if im.trait_.is_none() => {
                    let o = match head(&im.self_ty) { Some(o) => o, None => continue };
                    let ig: Vec<String> = im.generics.type_params().map(|p| p.ident.to_string()).collect();
                    for i in &im.items { if let ImplItem::Fn(x) = i { let k = format!("{}::{}", o, x.sig.ident); if is_new(&k) { if let Some(h) = helper_of(&x.vis, &x.sig, &x.block, Some(o.clone()), ig.clone()) { cands.push((k, h)); } } } }
                }
                _ => {}
            }
        }
        cands.retain(|(k, _)| !tried.contains(k));
        if cands.is_empty() { return gone; }
        let names: Vec<String> = cands.iter().map(|(_, h)| h.name.clone()).collect();
        let pick = cands.iter().position(|(_, h)| !names.iter().any(|m| m != &h.name && mentions(h.body.to_token_stream(), m))).unwrap_or(0);
        let (k, h) = cands.swap_remove(pick);
        tried.insert(k.clone());
        each_fn(f, &mut |owner, sig, b| {
            if sig.ident == h.name.as_str() && owner == h.owner { return; }
            let here = { let mut x = Binders(BTreeSet::new()); x.visit_signature(sig); x.visit_block(b); x.0 };
            let receiver = sig.receiver().cloned();
            let mut i = Inliner { h: &h, owner, receiver, here, n, done: 0 };
            i.visit_block_mut(b);
            if i.done > 0 { Flatten.visit_block_mut(b); Unmark.visit_block_mut(b); if !was_written_into(b) { b.stmts.insert(0, parse_quote!(vx_written_into!();)); } }
        });
        // no mention left: the function is gone
        let mut left = h.public && elsewhere(&h.name);
        each_fn(f, &mut |owner, sig, b| { if !(sig.ident == h.name.as_str() && owner == h.owner) && called(b.to_token_stream(), &h.name) { left = true; } });
        if !left {
            for it in f.items.iter_mut() { if let Item::Impl(im) = it { if im.trait_.is_none() && head(&im.self_ty) == h.owner { im.items.retain(|i| !matches!(i, ImplItem::Fn(x) if x.sig.ident == h.name.as_str())); } } }
            if h.owner.is_none() { f.items.retain(|i| !matches!(i, Item::Fn(x) if x.sig.ident == h.name.as_str())); }
            gone.push(k);
        }
    }
}
