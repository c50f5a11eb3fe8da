//! Inserts marker macros (`vx_mark!(n);` etc.) at the places contracts are attached to.
use crate::contracts::FnContract;
use crate::rewrite::{id, txt};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::*;

pub struct Anchors<'a> {
    pub c: &'a FnContract,
    pub texts: &'a mut Vec<String>,
    loops: usize,
    closures: usize,
    returns: usize,
    ifs: usize,
    arms: usize,
    lets: BTreeMap<String, usize>,
    calls: BTreeMap<String, usize>,
    pub used: std::collections::BTreeSet<String>,
    rename: &'a dyn Fn(&str) -> String,
}

fn is_loop(e: &Expr) -> bool { matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) }

/// names of functions and methods called by a statement, not looking into nested blocks' statements
struct Calls(Vec<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_block(&mut self, _: &'ast Block) {}
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) { syn::visit::visit_expr_method_call(self, m); self.0.push(m.method.to_string()); }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func { self.0.push(p.path.segments.last().unwrap().ident.to_string()); }
    }
}
struct LetNames(Vec<String>);
impl<'ast> Visit<'ast> for LetNames { fn visit_pat_ident(&mut self, p: &'ast PatIdent) { self.0.push(p.ident.to_string()); } }

impl<'a> Anchors<'a> {
    pub fn new(c: &'a FnContract, texts: &'a mut Vec<String>, rename: &'a dyn Fn(&str) -> String) -> Self {
        Anchors { c, texts, loops: 0, closures: 0, returns: 0, ifs: 0, arms: 0, lets: Default::default(), calls: Default::default(), used: Default::default(), rename }
    }
    fn add_text(&mut self, t: &str) -> usize { self.texts.push((self.rename)(t)); self.texts.len() - 1 }
    fn marks(&mut self, keys: &[String]) -> Vec<Stmt> {
        let mut out = vec![];
        for (k, t) in &self.c.marks {
            // a mark naming a local follows the local's current name
            let kk = if k.contains(" let ") { (self.rename)(k) } else { k.clone() };
            if keys.iter().any(|x| *x == kk) {
                let n = self.add_text(t);
                self.used.insert(k.clone());
                let lit = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                out.push(parse_quote!(vx_mark!(#lit);));
            }
        }
        out
    }
    fn spec_marker(&mut self, t: &str) -> Stmt {
        let n = self.add_text(t);
        let lit = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
        parse_quote!(vx_spec!(#lit);)
    }
    fn insert_front(b: &mut Block, mut v: Vec<Stmt>) { v.append(&mut b.stmts); b.stmts = v; }
    fn append_end(b: &mut Block, v: Vec<Stmt>, name: &str) {
        if v.is_empty() { return; }
        if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
            if is_loop(&e) { b.stmts.extend(v); return; }
            b.stmts.pop();
            let nm = id(name);
            b.stmts.push(parse_quote!(let #nm = #e;));
            b.stmts.extend(v);
            b.stmts.push(Stmt::Expr(parse_quote!(#nm), None));
        } else { b.stmts.extend(v); }
    }

    pub fn function(&mut self, b: &mut Block) {
        self.block(b);
        let s = self.marks(&["start".to_string()]);
        Self::insert_front(b, s);
        let e = self.marks(&["end".to_string()]);
        Self::append_end(b, e, "vx_r");
    }

    fn block(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out: Vec<Stmt> = vec![];
        for (i, mut s) in stmts.into_iter().enumerate() {
            let mut before = vec![];
            let mut after = vec![];
            let mut looped = false;
            match &s {
                Stmt::Expr(e, _) if is_loop(e) => {
                    looped = true;
                    before.push(format!("before loop {}", self.loops));
                    after.push(format!("after loop {}", self.loops));
                }
                Stmt::Expr(Expr::If(_), _) => {
                    before.push(format!("before if {}", self.ifs));
                    after.push(format!("after if {}", self.ifs));
                }
                Stmt::Expr(Expr::Return(_), _) => { before.push(format!("before return {}", self.returns)); self.returns += 1; }
                Stmt::Local(l) => {
                    let mut ln = LetNames(vec![]);
                    ln.visit_pat(&l.pat);
                    for nm in ln.0 {
                        let k = self.lets.entry(nm.clone()).or_insert(0);
                        for (v, w) in [(&mut before, "before"), (&mut after, "after")] {
                            v.push(format!("{} let {} {}", w, nm, k));
                            if *k == 0 { v.push(format!("{} let {}", w, nm)); }
                        }
                        *k += 1;
                    }
                }
                _ => {}
            }
            let mut calls = Calls(vec![]);
            calls.visit_stmt(&s);
            for nm in calls.0 {
                let k = self.calls.entry(nm.clone()).or_insert(0);
                for (v, w) in [(&mut before, "before"), (&mut after, "after")] {
                    v.push(format!("{} call {} {}", w, nm, k));
                    if *k == 0 { v.push(format!("{} call {}", w, nm)); }
                }
                *k += 1;
            }
            match &mut s {
                Stmt::Expr(e, _) => self.expr(e),
                Stmt::Local(l) => if let Some(init) = &mut l.init { self.expr(&mut init.expr); if let Some((_, d)) = &mut init.diverge { self.expr(d); } },
                _ => {}
            }
            let bm = self.marks(&before);
            let am = self.marks(&after);
            out.extend(bm);
            if !am.is_empty() && i + 1 == n && !looped {
                if let Stmt::Expr(e, None) = &s {
                    let nm = id(&format!("vx_t{}", self.texts.len()));
                    let e = e.clone();
                    out.push(parse_quote!(let #nm = #e;));
                    out.extend(am);
                    out.push(Stmt::Expr(parse_quote!(#nm), None));
                    continue;
                }
            }
            out.push(s);
            out.extend(am);
        }
        b.stmts = out;
    }

    fn loop_body(&mut self, k: usize, b: &mut Block) {
        self.block(b);
        let e = self.marks(&[format!("loop {} end", k)]);
        Self::append_end(b, e, "vx_lr");
        let s = self.marks(&[format!("loop {} start", k)]);
        Self::insert_front(b, s);
        if let Some((_, spec)) = self.c.loops.get(&k) {
            self.used.insert(format!("loop {}", k));
            let spec = spec.clone();
            let m = self.spec_marker(&spec);
            Self::insert_front(b, vec![m]);
        }
    }

    fn expr(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) if self.c.rewrites.iter().any(|rw| rw[0] == "for" && rw[1] == self.loops.to_string() && rw[2] == "while") => {
                // what the compiler makes of a `for` over a value that is an iterator already
                let k = self.loops;
                let it = id(&format!("vx_it{}", k));
                self.loops += 1;
                self.expr(&mut f.expr);
                let (src, pat, body) = (f.expr.clone(), f.pat.clone(), f.body.clone());
                let mut w: ExprWhile = parse_quote!(while let Some(#pat) = #it.vx_next() #body);
                self.used.insert(format!("rewrite for {}", k));
                self.loop_body(k, &mut w.body);
                *e = parse_quote!({ let mut #it = #src; #w });
            }
            Expr::ForLoop(f) => {
                let k = self.loops;
                self.loops += 1;
                self.expr(&mut f.expr);
                for rw in &self.c.rewrites {
                    if rw[0] == "for" && rw[1] == k.to_string() {
                        self.used.insert(format!("rewrite for {}", k));
                        let h = id(&rw[2]);
                        let mut inner = (*f.expr).clone();
                        if let (Expr::Reference(r), "iter_mut") = (&inner, &rw[2][..]) {
                            // the definition of iterating a mutable borrow of a vector
                            let x = (*r.expr).clone();
                            *f.expr = parse_quote!(#x.iter_mut());
                            continue;
                        }
                        if let Expr::MethodCall(m) = &inner { if m.method == "into_iter" { inner = (*m.receiver).clone(); } }
                        *f.expr = parse_quote!(#h(#inner));
                    }
                }
                if let Some((Some(it), _)) = self.c.loops.get(&k) {
                    let it = id(it);
                    let src = &f.expr;
                    *f.expr = parse_quote!(vx_it!(#it, #src));
                }
                self.loop_body(k, &mut f.body);
            }
            Expr::While(w) => { let k = self.loops; self.loops += 1; self.expr(&mut w.cond); self.loop_body(k, &mut w.body); }
            Expr::Loop(w) => { let k = self.loops; self.loops += 1; self.loop_body(k, &mut w.body); }
            Expr::If(i) => {
                let k = self.ifs;
                self.ifs += 1;
                self.expr(&mut i.cond);
                self.block(&mut i.then_branch);
                let s = self.marks(&[format!("then {} start", k)]);
                Self::insert_front(&mut i.then_branch, s);
                let s = self.marks(&[format!("then {} end", k)]);
                Self::append_end(&mut i.then_branch, s, &format!("vx_i{}", k));
                if let Some((_, el)) = &mut i.else_branch {
                    self.expr(el);
                    if let Expr::Block(b) = &mut **el {
                        let s = self.marks(&[format!("else {} start", k)]);
                        Self::insert_front(&mut b.block, s);
                        let s = self.marks(&[format!("else {} end", k)]);
                        Self::append_end(&mut b.block, s, &format!("vx_e{}", k));
                    }
                }
            }
            Expr::Match(m) => {
                self.expr(&mut m.expr);
                for arm in m.arms.iter_mut() {
                    let k = self.arms;
                    self.arms += 1;
                    if !matches!(&*arm.body, Expr::Block(_)) {
                        let has = self.c.marks.iter().any(|(a, _)| a.starts_with(&format!("arm {} ", k)));
                        if has || matches!(&*arm.body, Expr::MethodCall(_) | Expr::Call(_)) && !self.c.marks.is_empty() {
                            let b = (*arm.body).clone();
                            *arm.body = parse_quote!({ #b });
                        }
                    }
                    self.expr(&mut arm.body);
                    if let Expr::Block(b) = &mut *arm.body {
                        let s = self.marks(&[format!("arm {} start", k)]);
                        Self::insert_front(&mut b.block, s);
                        let s = self.marks(&[format!("arm {} end", k)]);
                        Self::append_end(&mut b.block, s, &format!("vx_a{}", k));
                    }
                }
            }
            Expr::Block(b) => self.block(&mut b.block),
            Expr::Unsafe(b) => self.block(&mut b.block),
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                if let Some((r, ty, spec)) = self.c.closures.get(&k).cloned() {
                    self.used.insert(format!("closure {}", k));
                    let rn = id(&r);
                    let ty = (self.rename)(&ty);
                    let t: Type = parse_str(&ty).expect("closure type");
                    if !matches!(&*c.body, Expr::Block(_)) { let b = (*c.body).clone(); *c.body = parse_quote!({ #b }); }
                    c.output = parse_quote!(-> vx_ret!(#rn, #t));
                    let m = self.spec_marker(&spec);
                    if let Expr::Block(b) = &mut *c.body { Self::insert_front(&mut b.block, vec![m]); }
                } else {
                    self.expr(&mut c.body);
                }
            }
            Expr::Assign(a) => { self.expr(&mut a.left); self.expr(&mut a.right); }
            Expr::Binary(a) => { self.expr(&mut a.left); self.expr(&mut a.right); }
            Expr::Unary(a) => self.expr(&mut a.expr),
            Expr::Paren(a) => self.expr(&mut a.expr),
            Expr::Reference(a) => self.expr(&mut a.expr),
            Expr::Cast(a) => self.expr(&mut a.expr),
            Expr::Field(a) => self.expr(&mut a.base),
            Expr::Index(a) => { self.expr(&mut a.expr); self.expr(&mut a.index); }
            Expr::Let(a) => self.expr(&mut a.expr),
            Expr::Return(a) => if let Some(x) = &mut a.expr { self.expr(x) },
            Expr::Call(c) => { for a in c.args.iter_mut() { self.expr(a); } }
            Expr::MethodCall(c) => { self.expr(&mut c.receiver); for a in c.args.iter_mut() { self.expr(a); } }
            Expr::Struct(s) => { for f in s.fields.iter_mut() { self.expr(&mut f.expr); } }
            Expr::Tuple(t) => { for a in t.elems.iter_mut() { self.expr(a); } }
            Expr::Macro(_) | Expr::Path(_) | Expr::Lit(_) => {}
            _ => { let _ = txt(e); }
        }
    }
}
