//! One oracle per property. Every oracle is written from the property statement and is independent of the code under
//! test: languages are evaluated on pattern trees, machines are modelled as explicit graphs, buffers as plain vectors.
use crate::gen::*;
use crate::{Out, R};
use concordance::overlapping_symbols::SymbolMap;
use concordance::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local!(static DESC: RefCell<String> = RefCell::new(String::new()));
pub fn last_desc() -> String { DESC.with(|d| d.borrow().clone()) }
fn desc(s: String) { DESC.with(|d| *d.borrow_mut() = s) }
fn out(nontrivial: bool, res: R) -> Out { Out { desc: last_desc(), nontrivial, res } }
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

pub fn case(prop: &str, ch: &mut Ch) -> Out {
    desc("(building the case)".into());
    macro_rules! syms { ($f:ident) => { match ch.pick(10) { 0 | 3 | 6 => $f::<u8>(ch), 1 | 4 | 7 => $f::<char>(ch), 2 | 5 | 8 => $f::<i32>(ch), _ => match ch.pick(4) { 0 => $f::<u64>(ch), 1 => $f::<i64>(ch), 2 => $f::<u16>(ch), _ => $f::<i16>(ch) } } } }
    match prop {
        "C01" => if ch.pick(8) == 7 { c01_text(ch) } else { syms!(c01) }, "C02" => if ch.pick(4) == 3 { c02s(ch) } else { syms!(c02) }, "C03" => syms!(c03), "C04" => syms!(c04), "C05" => syms!(c05),
        "C06" => syms!(c06), "C07" => syms!(c07), "C08" => syms!(c08), "C09" => c09(ch), "C10" => syms!(c10),
        "C11" => syms!(c11), "C12" => c12(ch), "C13" => c13(ch), "C15" => syms!(c15), "C16" => syms!(c16),
        "C17" => syms!(c17), "C18" => c18(ch), "C19" => c19(ch), "C20" => c20(ch), "C21" => c21(ch), "C26" => c26(ch),
        _ => panic!("unknown property"),
    }
}

// ---------------------------------------------------------------------------------------------- languages

fn test_words<S: Sym>(ch: &mut Ch, a: &[S], ps: &[&Pattern<S>]) -> Vec<Vec<S>> {
    let k = if ch.is_random() { 5 } else { 3 };
    let p: usize = ps.iter().map(|p| size(p)).max().unwrap_or(0);
    let mut v = words(a, 3, if p > 100 { 1 } else if p > 25 { 2 } else { 3 });
    if ch.is_random() { for p in ps { for _ in 0..3 { let w = near(ch, a, p); if w.len() < 6000 { v.push(w); } } } }
    for _ in 0..k { v.push(word(ch, a, 9)); }
    if ch.is_random() { for _ in 0..3 { let s = ch.of(a).clone(); let n = ch.pick(9); v.push(vec![s; n]); } }
    v
}
fn gen_pattern<S: Sym>(ch: &mut Ch, a: &[S]) -> Pattern<S> {
    let cap = if ch.pick(4) == 0 { 1100 } else { 140 };
    if let Some(k) = ch.scaled(cap) { if ch.flag() { return big_pattern(ch, a, k); } }
    loop {
        let d = if ch.is_random() { ch.pick(4) } else { 2 };
        let p = pattern(ch, a, d);
        if size(&p) <= 60 { return p; }
        if !ch.is_random() { return Pattern::Epsilon; }
    }
}

/// strings, references to what can be a pattern, and machines, prepared and on the spot
fn c01_text(ch: &mut Ch) -> Out {
    let a = letters(ch).0;
    let w: Vec<char> = match ch.scaled(1100) { Some(k) if ch.flag() => (0..k).map(|_| *ch.of(&a)).collect(), _ => word(ch, &a, 4) };
    let t: Vec<char> = match ch.pick(6) {
        0 => word(ch, &a, 4),
        1 => w[ch.pick(w.len() + 1)..].to_vec(),
        2 => w[..ch.pick(w.len() + 1)].to_vec(),
        3 => { let mut x = w.clone(); x.extend(word(ch, &a, 3)); x }
        4 if !w.is_empty() => { let mut x = w.clone(); let i = ch.pick(w.len()); x[i] = *ch.of(&a); x }
        _ => { let mut x = w.clone(); x.insert(ch.pick(w.len() + 1), *ch.of(&a)); x }
    };
    let (sw, st): (String, String) = (w.iter().collect(), t.iter().collect());
    let dd = format!("pattern {:?}, input {:?}", sw, st);
    desc(dd.clone());
    let want = if t.starts_with(&w) { Some(w.len()) } else { None };
    let r = (|| -> R {
        ck!(matches(st.as_str(), sw.as_str()) == want, "{}: the string as a pattern does not give {:?}", dd, want);
        ck!(matches_prepared(st.as_str(), &sw.as_str().prepare_to_match()) == want, "{}: the string prepared does not give {:?}", dd, want);
        ck!(matches(&t, &w as &dyn ToPattern<char>) == want, "{}: a reference to a vector as a pattern does not give {:?}", dd, want);
        ck!(matches(st.as_str(), exactly(sw.as_str())) == want, "{}: exactly(string) does not give {:?}", dd, want);
        ck!(matches(&t, sw.as_str().to_ndfa(3u32).prepare_to_match()) == want, "{}: the machine of the string does not give {:?}", dd, want);
        ck!(matches(&t, w[..].to_ndfa(3u32).prepare_to_match()) == want, "{}: the machine of the slice does not give {:?}", dd, want);
        Ok(())
    })();
    out(!w.is_empty(), r)
}
fn c01<S: Sym>(ch: &mut Ch) -> Out {
    let a = alpha::<S>(ch);
    if let Some(l) = Long::new(ch, &a) {
        let p = Pattern::MatchAny(l.toks.iter().map(|t| t.0.clone()).collect());
        let dd = format!("pattern {:?}, {}", p, l.show());
        desc(dd.clone());
        let dfa = p.clone().prepare_to_match();
        let r = (|| -> R {
            for i in 0..4.min(l.w.len()) {
                let want = l.best(i).map(|x| x.0);
                let w = l.w[i..].to_vec();
                let got = (matches_prepared(&w, &dfa), matches(&w, p.clone()));
                ck!(got == (want, want), "{}: matched {:?} from position {} on, the longest prefix in the language is {:?}", dd, got, i, want);
            }
            Ok(())
        })();
        return out(true, r);
    }
    let p = gen_pattern(ch, &a);
    let ws = test_words(ch, &a, &[&p]);
    desc(format!("pattern {:?}", p));
    let dfa = p.clone().prepare_to_match();
    let mut any = false;
    let r = (|| -> R {
        for (i, w) in ws.iter().enumerate() {
            let want = longest(&p, w);
            any |= want.is_some() && !w.is_empty();
            let got = matches_prepared(w, &dfa);
            ck!(got == want, "pattern {:?} prepared, input {:?}: matched {:?}, the longest prefix in the language is {:?}", p, w, got, want);
            if i % 17 == 0 {
                let got = matches(w, p.clone());
                ck!(got == want, "pattern {:?}, input {:?}: matched {:?}, the longest prefix in the language is {:?}", p, w, got, want);
            }
        }
        Ok(())
    })();
    out(any && size(&p) > 1, r)
}

fn same_lang<S: Sym>(what: &str, tree: &Pattern<S>, ws: &[Vec<S>], want: &dyn Fn(&[S]) -> bool) -> R {
    for w in ws {
        let (g, e) = (in_lang(tree, w), want(w));
        ck!(g == e, "{} gives {:?}, which {} {:?} but should{}", what, tree, if g { "matches" } else { "does not match" }, w, if e { "" } else { " not" });
    }
    Ok(())
}
fn c02<S: Sym>(ch: &mut Ch) -> Out {
    let a = alpha::<S>(ch);
    let op = ch.pick(5);
    let p = gen_pattern(ch, &a);
    let q = if ch.is_random() && ch.pick(3) == 0 && size(&p) < 200 { related(ch, &a, &p) } else { gen_pattern(ch, &a) };
    let r3 = gen_pattern(ch, &a);
    let (lo, hi) = match ch.scaled(1100) { Some(k) if ch.flag() => (k as u32 - 1, (k + ch.pick(3)) as u32), _ => (ch.pick(3) as u32, ch.pick(5) as u32) };
    let mut ws = test_words(ch, &a, &[&p, &q]);
    if ch.is_random() {
        for _ in 0..4 {
            let w = match ch.pick(3) { 0 => { let mut w = sample(ch, &p); w.extend(sample(ch, &q)); w } 1 => { let n = lo as usize + ch.pick(hi.saturating_sub(lo) as usize + 1); (0..n).flat_map(|_| sample(ch, &p)).collect() } _ => { let mut w = sample(ch, &p); w.extend(sample(ch, &q)); w.extend(sample(ch, &r3)); w } };
            if w.len() < 4000 { ws.push(w); }
        }
    }
    desc(format!("op {} on {:?}, {:?}, counts {}..{}", op, p, q, lo, hi));
    let cat = |p: &Pattern<S>, q: &Pattern<S>, w: &[S]| ends(q, w, &ends0(p, w)).contains(&w.len());
    let r = match op {
        0 => same_lang(&format!("{:?} append {:?}", p, q), &p.clone().append(q.clone()), &ws, &|w| cat(&p, &q, w)),
        1 => same_lang(&format!("{:?} or {:?}", p, q), &p.clone().or(q.clone()), &ws, &|w| in_lang(&p, w) || in_lang(&q, w)),
        2 => same_lang(&format!("{:?} repeat {}..{}", p, lo, hi), &p.clone().repeat(lo..hi), &ws, &|w| {
            let mut cur: BTreeSet<usize> = std::iter::once(0).collect();
            for k in 0..hi { if k >= lo && cur.contains(&w.len()) { return true; } cur = ends(&p, w, &cur); }
            false
        }),
        3 => same_lang(&format!("{:?} repeat_forever {}", p, lo), &p.clone().repeat_forever(lo), &ws, &|w| {
            let mut cur: BTreeSet<usize> = std::iter::once(0).collect();
            for _ in 0..lo { cur = ends(&p, w, &cur); }
            for _ in 0..w.len() + 2 { if cur.contains(&w.len()) { return true; } let n = ends(&p, w, &cur); cur.extend(n); }
            false
        }),
        _ => match ch.pick(4) {
            0 => same_lang("p.append(q).append(r)", &p.clone().append(&q).append(r3.clone()), &ws, &|w| ends(&r3, w, &ends(&q, w, &ends0(&p, w))).contains(&w.len())),
            1 => same_lang("p.or(q).or(r)", &p.clone().or(Box::new(q.clone())).or(&r3), &ws, &|w| in_lang(&p, w) || in_lang(&q, w) || in_lang(&r3, w)),
            2 => { let m: Vec<S> = word(ch, &a, 2); same_lang("p.append(slice)", &p.clone().append(&m[..]), &ws, &|w| cat(&p, &Pattern::Match(m.clone()), w)) }
            _ => { let m: Vec<S> = word(ch, &a, 2); same_lang("p.or(&vec)", &exactly(&m).or(&p), &ws, &|w| w == &m[..] || in_lang(&p, w)) }
        },
    };
    out(size(&p) + size(&q) > 2, r)
}
fn c02s(ch: &mut Ch) -> Out {
    let a = vec!['a', 'b', 'c'];
    let p = gen_pattern(ch, &a);
    let s: String = word(ch, &a, 3).into_iter().collect();
    let mut ws = test_words(ch, &a, &[&p]);
    if ch.is_random() { for _ in 0..3 { let mut w = sample(ch, &p); w.extend(s.chars()); ws.push(w); let mut w: Vec<char> = s.chars().collect(); w.extend(sample(ch, &p)); ws.push(w); } }
    desc(format!("{:?} with {:?}", p, s));
    let lit = Pattern::Match(s.chars().collect());
    let r = match ch.pick(3) {
        0 => same_lang("p.append(str)", &p.clone().append(s.as_str()), &ws, &|w| ends(&lit, w, &ends0(&p, w)).contains(&w.len())),
        1 => same_lang("p.or(str)", &p.clone().or(s.as_str()), &ws, &|w| in_lang(&p, w) || in_lang(&lit, w)),
        _ => same_lang("exactly(str).append(p)", &exactly(s.as_str()).append(&p), &ws, &|w| ends(&p, w, &ends0(&lit, w)).contains(&w.len())),
    };
    out(true, r)
}

/// outputs the machine can give for a word, starting in a given state, by simulation through the public interface
fn simulate<S: Sym, O: Clone + Ord + 'static, M: StateMachine<SymbolRange<S>, O> + ?Sized>(m: &M, start: StateId, w: &[S]) -> BTreeSet<O> {
    let mut cur: BTreeSet<StateId> = std::iter::once(start).collect();
    for x in w {
        let mut next = BTreeSet::new();
        burn(10 * cur.len());
        for s in &cur { for (r, t) in m.get_transitions_for_state(*s) { if r.lowest <= *x && *x <= r.highest { next.insert(t); } } }
        cur = next;
    }
    cur.iter().flat_map(|s| m.output_symbols_for_state(*s).into_iter().cloned().collect::<Vec<O>>()).collect()
}
fn c03<S: Sym>(ch: &mut Ch) -> Out {
    let a = alpha::<S>(ch);
    let p = gen_pattern(ch, &a);
    let mode = ch.pick(5);
    let q0 = if mode == 0 { Pattern::Epsilon } else if ch.is_random() && ch.pick(3) == 0 && size(&p) < 200 { related(ch, &a, &p) } else { gen_pattern(ch, &a) };
    let ws = test_words(ch, &a, &[&p, &q0]);
    if mode == 0 {
        desc(format!("to_ndfa of {:?}", p));
        let m = p.to_ndfa(7u32);
        let r = (|| -> R {
            for w in &ws {
                let (g, e) = (!simulate(&*m, 0, w).is_empty(), in_lang(&p, w));
                ck!(g == e, "machine for {:?} {} {:?}, the language {} it", p, if g { "accepts" } else { "rejects" }, w, if e { "contains" } else { "does not contain" });
            }
            Ok(())
        })();
        return out(size(&p) > 1, r);
    }
    let q = q0;
    if mode >= 3 {
        // the second compiled from the first's end, or from the start after a loop was put on the first's end by hand
        let x = ch.of(&a).clone();
        let dd = if mode == 3 { format!("{:?} and, from its end, {:?} compiled into one machine", p, q) } else { format!("{:?} compiled, {:?} added to its end as a loop, then {:?} compiled from the start", p, x, q) };
        desc(dd.clone());
        let mut m: Ndfa<SymbolRange<S>, u32> = Ndfa::new();
        let mut mark = |m: &mut Ndfa<SymbolRange<S>, u32>, e: StateId, o: u32| { let f = m.count_states(); m.join_states(e, f); m.set_output_symbol(f, o); };
        let e = p.compile(&mut m, 0);
        if mode == 4 && e == 0 { return out(false, Ok(())); }
        if mode == 4 { m.add_transition(e, SymbolRange::new(x.clone(), x.clone()), e); }
        mark(&mut m, e, 1);
        let e2 = q.compile(&mut m, if mode == 3 { e } else { 0 });
        mark(&mut m, e2, 2);
        let first = if mode == 3 { p.clone() } else { Pattern::MatchAll(vec![p.clone(), Pattern::RepeatInfinite(0, Box::new(Pattern::MatchRange(x.clone(), x)))]) };
        let second = if mode == 3 { Pattern::MatchAll(vec![p.clone(), q.clone()]) } else { q.clone() };
        let ws = test_words(ch, &a, &[&first, &second]);
        let r = (|| -> R {
            for w in &ws {
                let mut e: BTreeSet<u32> = BTreeSet::new();
                if in_lang(&first, w) { e.insert(1); }
                if in_lang(&second, w) { e.insert(2); }
                let g = simulate(&m, 0, w);
                ck!(g == e, "{}: the word {:?} gives outputs {:?}, expected {:?}", dd, w, g, e);
            }
            Ok(())
        })();
        return out(size(&p) + size(&q) > 2, r);
    }
    desc(format!("{:?} and {:?} compiled into one machine (start states {})", p, q, if mode == 1 { "shared" } else { "separate" }));
    let mut m: Ndfa<SymbolRange<S>, u32> = Ndfa::new();
    let mut add = |m: &mut Ndfa<SymbolRange<S>, u32>, p: &Pattern<S>, s: StateId, o: u32| { let e = p.compile(m, s); let f = m.count_states(); m.join_states(e, f); m.set_output_symbol(f, o); };
    add(&mut m, &p, 0, 1);
    let s2 = if mode == 1 { 0 } else { let s = m.count_states(); m.create_state(s); s };
    add(&mut m, &q, s2, 2);
    let r = (|| -> R {
        for w in &ws {
            let mut e: BTreeSet<u32> = BTreeSet::new();
            if in_lang(&p, w) { e.insert(1); }
            if mode == 1 && in_lang(&q, w) { e.insert(2); }
            let g = simulate(&m, 0, w);
            ck!(g == e, "{:?} (output 1) then {:?} (output 2, start {}): from state 0 the word {:?} gives outputs {:?}, expected {:?}", p, q, s2, w, g, e);
            if mode == 2 {
                let g = simulate(&m, s2, w);
                let e: BTreeSet<u32> = if in_lang(&q, w) { std::iter::once(2).collect() } else { BTreeSet::new() };
                ck!(g == e, "{:?} (output 1) then {:?} (output 2, start {}): from state {} the word {:?} gives outputs {:?}, expected {:?}", p, q, s2, s2, w, g, e);
            }
        }
        Ok(())
    })();
    out(size(&p) + size(&q) > 2, r)
}

// ---------------------------------------------------------------------------------------------- machines

/// an explicit graph; implements the library's machine interface directly
#[derive(Clone, Debug, Default)]
struct Graph<S: Ord> { n: u32, edges: Vec<(StateId, SymbolRange<S>, StateId)>, joins: Vec<(StateId, StateId)>, outs: BTreeMap<StateId, u32> }
impl<S: Sym> Graph<S> {
    fn closure(&self, s: StateId) -> BTreeSet<StateId> {
        let mut c: BTreeSet<StateId> = std::iter::once(s).collect();
        loop { let n = c.len(); for (x, y) in &self.joins { if c.contains(x) { c.insert(*y); } } if c.len() == n { return c; } }
    }
    fn trans(&self, s: StateId) -> Vec<(SymbolRange<S>, StateId)> { let c = self.closure(s); self.edges.iter().filter(|e| c.contains(&e.0)).map(|e| (e.1.clone(), e.2)).collect() }
    fn outs(&self, s: StateId) -> BTreeSet<u32> { let c = self.closure(s); self.outs.iter().filter(|o| c.contains(o.0)).map(|o| *o.1).collect() }
    fn run(&self, w: &[S]) -> BTreeSet<u32> {
        let mut cur: BTreeSet<StateId> = std::iter::once(0).collect();
        for x in w { burn(cur.len() * (self.edges.len() + self.joins.len()) / 10); cur = cur.iter().flat_map(|s| self.trans(*s)).filter(|(r, _)| r.lowest <= *x && *x <= r.highest).map(|t| t.1).collect(); }
        cur.iter().flat_map(|s| self.outs(*s)).collect()
    }
}
impl<S: Sym> StateMachine<SymbolRange<S>, u32> for Graph<S> {
    fn count_states(&self) -> StateId { self.n }
    fn get_transitions_for_state(&self, s: StateId) -> Vec<(SymbolRange<S>, StateId)> { self.trans(s) }
    fn output_symbol_for_state(&self, s: StateId) -> Option<&u32> { let c = self.closure(s); self.outs.iter().filter(|o| c.contains(o.0)).map(|o| o.1).next() }
    fn output_symbols_for_state(&self, s: StateId) -> Vec<&u32> { let c = self.closure(s); self.outs.iter().filter(|o| c.contains(o.0)).map(|o| o.1).collect() }
}
fn graph<S: Sym>(ch: &mut Ch, ranges: &[SymbolRange<S>]) -> Graph<S> {
    if let Some(k) = ch.scaled(300) {
        // a long chain, or one state with very many transitions, joins or outputs
        let k = k as u32;
        let kind = ch.pick(3);
        let mut g = Graph { n: k, edges: vec![], joins: vec![], outs: BTreeMap::new() };
        for s in 0..k - 1 {
            match kind { 0 => g.edges.push((s, ch.of(ranges).clone(), s + 1)), 1 => g.edges.push((0, ch.of(ranges).clone(), s + 1)), _ => if ch.pick(3) > 0 { g.joins.push((s, s + 1)) } else { g.edges.push((s, ch.of(ranges).clone(), s + 1)) } }
        }
        for _ in 0..3 { let s = ch.pick(k as usize) as u32; g.edges.push((s, ch.of(ranges).clone(), k - 1)); g.outs.insert(s, ch.pick(9) as u32); }
        g.outs.insert(k - 1, 4);
        return g;
    }
    let n = 1 + ch.pick(4) as u32;
    let mut g = Graph { n, edges: vec![], joins: vec![], outs: BTreeMap::new() };
    let ne = ch.len(7);
    for _ in 0..ne { let s = ch.pick(n as usize) as u32; let r = ch.of(ranges).clone(); let t = ch.pick(n as usize) as u32; g.edges.push((s, r, t)); }
    let nj = ch.len(3);
    for _ in 0..nj { let s = ch.pick(n as usize) as u32; let t = ch.pick(n as usize) as u32; g.joins.push((s, t)); }
    let no = 1 + ch.len(2);
    for _ in 0..no { let s = (n as usize - 1 - ch.pick(n as usize)) as u32; let v = ch.pick(5) as u32; g.outs.insert(s, v); }
    g
}
fn disjoint<S: Sym>(ch: &mut Ch, a: &[S]) -> Vec<SymbolRange<S>> {
    let mut v = vec![];
    let mut i = 0;
    while i < a.len() { let l = 1 + ch.pick(2); let j = (i + l).min(a.len()) - 1; v.push(SymbolRange { lowest: a[i].clone(), highest: a[j].clone() }); i = j + 1 + ch.pick(2); }
    v
}
/// what a DFA builder was told
#[derive(Clone, Debug, Default, PartialEq)]
struct Decl<S: Ord> { states: Vec<(Vec<(SymbolRange<S>, StateId)>, Option<u32>)> }
struct Recorder<S: Ord>(Decl<S>);
impl<S: Sym> DfaBuilder<SymbolRange<S>, u32, Decl<S>> for Recorder<S> {
    fn start_state(&mut self) { self.0.states.push((vec![], None)); }
    fn transition(&mut self, symbol: SymbolRange<S>, t: StateId) { self.0.states.last_mut().unwrap().0.push((symbol, t)); }
    fn accept(&mut self, o: u32) { self.0.states.last_mut().unwrap().1 = Some(o); }
    fn build(self) -> Decl<S> { self.0 }
}
impl<S: Sym> Decl<S> {
    fn step(&self, s: usize, x: &S) -> Option<usize> { self.states[s].0.iter().find(|(r, _)| r.lowest <= *x && *x <= r.highest).map(|t| t.1 as usize) }
}
/// a word that follows transitions of the graph
fn walk<S: Sym>(ch: &mut Ch, g: &Graph<S>, max: usize) -> Vec<S> {
    let (mut s, mut w) = (0, vec![]);
    while w.len() < max {
        let t = g.trans(s);
        if t.is_empty() { break; }
        let (r, n) = t[ch.pick(t.len())].clone();
        w.push(if ch.flag() { r.lowest } else { r.highest });
        s = n;
    }
    w
}
fn all_words<S: Sym>(ch: &mut Ch, a: &[S]) -> Vec<Vec<S>> { let mut v = words(a, a.len(), 3); for _ in 0..6 { v.push(word(ch, a, 7)); } v }

fn c04<S: Sym>(ch: &mut Ch) -> Out {
    let a = alpha::<S>(ch);
    let rs = disjoint(ch, &a);
    let g = graph(ch, &rs);
    desc(format!("{:?}", g));
    let d = DfaCompiler::build(g.clone(), Recorder(Decl { states: vec![] }));
    let mut ws = if g.n > 6 { words(&a, 3, 2) } else { all_words(ch, &a) };
    if ch.is_random() { for _ in 0..4 { let m = if g.n > 6 { 2 * g.n as usize } else { 12 }; ws.push(walk(ch, &g, m)); } }
    let r = (|| -> R {
        ck!(!d.states.is_empty(), "{:?}: no states at all", g);
        for (t, _) in &d.states {
            for i in 1..t.len() { ck!(t[i - 1].0 < t[i].0 && t[i - 1].0.highest < t[i].0.lowest, "{:?}: transitions of a deterministic state are not sorted and disjoint: {:?}", g, t); }
            for x in t { ck!((x.1 as usize) < d.states.len(), "{:?}: transition to state {} of {}", g, x.1, d.states.len()); }
        }
        for w in &ws {
            let mut s = Some(0);
            for x in w { s = s.and_then(|s| d.step(s, x)); }
            let got = s.and_then(|s| d.states[s].1);
            let want = g.run(w).first().copied();
            ck!(got == want, "machine {:?}, word {:?}: the compiled machine outputs {:?}, the lowest output of the source machine is {:?}", g, w, got, want);
        }
        Ok(())
    })();
    out(g.edges.len() > 1, r)
}

fn to_ndfa<S: Sym>(g: &Graph<S>) -> Ndfa<SymbolRange<S>, u32> {
    let mut m = Ndfa::new();
    m.create_state(g.n - 1);
    for (s, r, t) in &g.edges { m.add_transition(*s, r.clone(), *t); }
    for (s, t) in &g.joins { m.join_states(*s, *t); }
    for (s, o) in &g.outs { m.set_output_symbol(*s, *o); }
    m
}
fn c05<S: Sym>(ch: &mut Ch) -> Out {
    let a = run8::<S>(ch);
    let rs: Vec<SymbolRange<S>> = if a.len() > 8 { ranges(ch, &a, 40) } else { (0..4).map(|_| { let (l, h) = range(ch, &a); SymbolRange { lowest: l, highest: h } }).collect() };
    let g = graph(ch, &rs);
    desc(format!("{:?}", g));
    let mut m = to_ndfa(&g);
    m.fix_overlapping_ranges();
    let r = (|| -> R {
        ck!(m.count_states() == g.n, "{:?}: {} states after fixing, {} before", g, m.count_states(), g.n);
        let mut seen: Vec<SymbolRange<S>> = vec![];
        for s in 0..g.n {
            let t = m.get_transitions_for_state(s);
            for x in &a {
                let got: BTreeSet<StateId> = t.iter().filter(|(r, _)| r.lowest <= *x && *x <= r.highest).map(|e| e.1).collect();
                let want: BTreeSet<StateId> = g.trans(s).iter().filter(|(r, _)| r.lowest <= *x && *x <= r.highest).map(|e| e.1).collect();
                ck!(got == want, "{:?}: from state {} symbol {:?} leads to {:?} after fixing, {:?} before", g, s, x, got, want);
            }
            let o: BTreeSet<u32> = m.output_symbols_for_state(s).into_iter().cloned().collect();
            ck!(o == g.outs(s), "{:?}: outputs of state {} are {:?} after fixing", g, s, o);
            seen.extend(t.into_iter().map(|e| e.0));
        }
        for x in &seen { for y in &seen { ck!(x == y || x.highest < y.lowest || y.highest < x.lowest, "{:?}: ranges {:?} and {:?} overlap but differ after fixing", g, x, y); } }
        for x in &seen { ck!(a.iter().any(|s| x.lowest <= *s && *s <= x.highest), "{:?}: range {:?} appeared", g, x); }
        Ok(())
    })();
    out(g.edges.len() > 1, r)
}

// ---------------------------------------------------------------------------------------------- ranges

fn run8<S: Sym>(ch: &mut Ch) -> Vec<S> { let k = match ch.scaled(1100) { Some(k) if ch.flag() => k + 2, _ => 8 }; run_of(ch, k) }
fn run_of<S: Sym>(ch: &mut Ch, k: usize) -> Vec<S> {
    // `k` consecutive symbols around an interesting place, by successor from a starting symbol
    let a = alpha::<S>(ch);
    let any: &dyn std::any::Any = &a;
    if let Some(v) = any.downcast_ref::<Vec<char>>() {
        let b: u32 = if v[1] == '\u{d7ff}' { 0xd7fc } else if v[0] == '\u{0}' { 0 } else if v[0] == 'y' { 0x110000 - k as u32 } else { v[0] as u32 };
        let r: Vec<char> = (b..).filter_map(std::char::from_u32).take(k).collect();
        let x: Box<dyn std::any::Any> = Box::new(r);
        return *x.downcast::<Vec<S>>().unwrap();
    }
    if let Some(v) = any.downcast_ref::<Vec<u8>>() {
        let k = k.min(256);
        let b: usize = if v[4] == 255 { 256 - k } else { (v[0] as usize).min(256 - k) };
        let x: Box<dyn std::any::Any> = Box::new((0..k).map(|i| (b + i) as u8).collect::<Vec<u8>>());
        return *x.downcast::<Vec<S>>().unwrap();
    }
    let v = match any.downcast_ref::<Vec<i32>>() {
        Some(v) => v,
        None => {
            let mut v = vec![a[0].clone()];
            while v.len() < k && !v[v.len() - 1].is_last() { let x = v[v.len() - 1].next(); v.push(x); }
            return v;
        }
    };
    let b: i32 = if v[4] == i32::MAX { if ch.flag() { i32::MIN } else { i32::MAX - (k as i32 - 1) } } else { v[0] };
    let x: Box<dyn std::any::Any> = Box::new((0..k as i32).map(|i| b + i).collect::<Vec<i32>>());
    *x.downcast::<Vec<S>>().unwrap()
}
fn whole<S: Sym>(a: &[S]) -> SymbolRange<S> { SymbolRange { lowest: a[0].clone(), highest: a[a.len() - 1].clone() } }
fn dump<S: Sym>(m: &SymbolMap<S>, a: &[S]) -> Vec<SymbolRange<S>> { m.find_overlapping_ranges(&whole(a)).into_iter().cloned().collect() }
fn ranges<S: Sym>(ch: &mut Ch, a: &[S], max: usize) -> Vec<SymbolRange<S>> { let n = 1 + ch.size(max, 600); let narrow = n > 20; (0..n).map(|_| { let (l, h) = if narrow && ch.pick(8) > 0 { let i = ch.pick(a.len()); (a[i].clone(), a[(i + ch.pick(4)).min(a.len() - 1)].clone()) } else { range(ch, a) }; SymbolRange { lowest: l, highest: h } }).collect() }

fn c06<S: Sym>(ch: &mut Ch) -> Out {
    let a = run8::<S>(ch);
    let a: Vec<S> = if ch.is_random() { a } else { a[..5].to_vec() };
    let rs = ranges(ch, &a, 6);
    desc(format!("{:?}", rs));
    let mut m = SymbolMap::new();
    for r in &rs { m.add_range(r); }
    let d = dump(&m.to_non_overlapping_map(), &a);
    let r = (|| -> R {
        for x in &d { ck!(x.lowest <= x.highest, "{:?}: empty range {:?} in {:?}", rs, x, d); }
        for i in 1..d.len() { ck!(d[i - 1].highest < d[i].lowest, "{:?}: not sorted and disjoint: {:?}", rs, d); }
        for x in &a {
            let e = rs.iter().any(|r| r.lowest <= *x && *x <= r.highest);
            let g = d.iter().any(|r| r.lowest <= *x && *x <= r.highest);
            ck!(g == e, "{:?}: symbol {:?} {} covered by {:?}", rs, x, if g { "is" } else { "is not" }, d);
        }
        for x in &d { for r in &rs {
            let touch = r.lowest <= x.highest && x.lowest <= r.highest;
            ck!(!touch || (r.lowest <= x.lowest && x.highest <= r.highest), "{:?}: {:?} is not a union of {:?}", rs, r, d);
        } }
        Ok(())
    })();
    out(rs.len() > 1, r)
}
fn c07<S: Sym>(ch: &mut Ch) -> Out {
    let a = run8::<S>(ch);
    let a: Vec<S> = if ch.is_random() { a } else { a[..4].to_vec() };
    let rs = ranges(ch, &a, if ch.is_random() { 12 } else { 4 });
    let q = { let (l, h) = range(ch, &a); SymbolRange { lowest: l, highest: h } };
    desc(format!("add {:?}, query {:?}", rs, q));
    let mut m = SymbolMap::new();
    for r in &rs { m.add_range(r); }
    let set: BTreeSet<(S, S)> = rs.iter().map(|r| (r.lowest.clone(), r.highest.clone())).collect();
    let find = |q: &SymbolRange<S>| -> R {
        let want: Vec<(S, S)> = set.iter().filter(|r| r.0 <= q.highest && q.lowest <= r.1).cloned().collect();
        let got: Vec<(S, S)> = m.find_overlapping_ranges(q).into_iter().map(|r| (r.lowest.clone(), r.highest.clone())).collect();
        ck!(got == want, "map of {:?}: ranges overlapping {:?} are {:?}, expected {:?}", rs, q, got, want);
        Ok(())
    };
    let r = find(&q).and_then(|_| find(&whole(&a)));
    out(rs.len() > 1, r)
}
fn c08<S: Sym>(ch: &mut Ch) -> Out {
    let a = run8::<S>(ch);
    let (al, ah) = range(ch, &a);
    let (bl, bh) = range(ch, &a);
    let x = ch.of(&a).clone();
    let (i, j) = (ch.pick(a.len()), ch.pick(a.len()));
    desc(format!("{:?}..={:?} and {:?}..={:?}, symbol {:?}; new({:?},{:?})", al, ah, bl, bh, x, a[i], a[j]));
    let (p, q) = (SymbolRange { lowest: al.clone(), highest: ah.clone() }, SymbolRange { lowest: bl.clone(), highest: bh.clone() });
    let inn = |r: &SymbolRange<S>, x: &S| r.lowest <= *x && *x <= r.highest;
    let r = (|| -> R {
        ck!(p.includes(&x) == inn(&p, &x), "{:?}.includes({:?}) is {}", p, x, p.includes(&x));
        let sh = a.iter().any(|x| inn(&p, x) && inn(&q, x));
        ck!(p.overlaps(&q) == sh, "{:?} overlaps {:?} is {}", p, q, p.overlaps(&q));
        ck!(q.overlaps(&p) == sh, "{:?} overlaps {:?} is {}", q, p, q.overlaps(&p));
        let jn = p.join(&q);
        ck!(jn.lowest == *std::cmp::min(&al, &bl) && jn.highest == *std::cmp::max(&ah, &bh), "{:?} join {:?} is {:?}", p, q, jn);
        let want = (&al, &ah).cmp(&(&bl, &bh));
        ck!(p.cmp(&q) == want && p.partial_cmp(&q) == Some(want), "{:?} cmp {:?} is {:?}", p, q, p.cmp(&q));
        ck!((p == q) == (want == std::cmp::Ordering::Equal), "{:?} == {:?} is {}", p, q, p == q);
        ck!(p.clone() == p, "{:?}: clone differs", p);
        let n = catch_unwind(AssertUnwindSafe(|| SymbolRange::new(a[i].clone(), a[j].clone())));
        match n { Ok(n) => ck!(i <= j && n.lowest == a[i] && n.highest == a[j], "new({:?},{:?}) is {:?}", a[i], a[j], n), Err(_) => ck!(i > j, "new({:?},{:?}) is refused", a[i], a[j]) }
        Ok(())
    })();
    out(true, r)
}
fn c09(ch: &mut Ch) -> Out {
    fn one<T: Countable + Ord + Debug + Clone>(x: T, y: T) -> R {
        // y is the successor of x
        ck!(x.next() == y, "successor of {:?} is {:?}, not {:?}", x, x.next(), y);
        ck!(y.prev() == x, "predecessor of {:?} is {:?}, not {:?}", y, y.prev(), x);
        Ok(())
    }
    let k = ch.pick(11);
    let mut v: u64 = ch.pick(1 << 16) as u64;
    if let Some(h) = ch.hinted() { v = h as u64; }
    if ch.is_random() { v |= (ch.pick(1 << 24) as u64) << 16; v |= (ch.pick(1 << 24) as u64) << 40; if ch.pick(4) == 0 { v = 1u64 << ch.pick(64); v = v.wrapping_sub(ch.pick(3) as u64); } }
    desc(format!("type {} value {}", k, v));
    macro_rules! t { ($t:ty) => {{ let x = v as $t; if x == <$t>::MAX { one(x - 1, x) } else { one(x, x + 1) } }} }
    let r = match k {
        0 => t!(usize), 1 => t!(u8), 2 => t!(u16), 3 => t!(u32), 4 => t!(u64), 5 => t!(isize), 6 => t!(i8), 7 => t!(i16), 8 => t!(i32), 9 => t!(i64),
        _ => {
            let mut c = (v % 0x110000) as u32;
            match v % 5 { 0 => c = 0xd7f8 + (v / 5 % 12) as u32, 1 => c = 0xdff8 + (v / 5 % 12) as u32, 2 => c = 0x10fff0 + (v / 5 % 16) as u32, _ => {} }
            while std::char::from_u32(c).is_none() { c += 1; }
            let x = std::char::from_u32(c).unwrap();
            let mut d = c + 1;
            while d < 0x110000 && std::char::from_u32(d).is_none() { d += 1; }
            if d >= 0x110000 { Ok(()) } else { one(x, std::char::from_u32(d).unwrap()) }
        }
    };
    out(true, r)
}

// ---------------------------------------------------------------------------------------------- tables and runners

fn decl<S: Sym>(ch: &mut Ch, a: &[S]) -> Decl<S> {
    let n = match ch.scaled(1100) { Some(k) if a.len() <= 8 => k, _ => 1 + ch.pick(4) };
    let mut d = Decl { states: vec![] };
    for q in 0..n {
        let mut t = vec![];
        if n > 8 && ch.pick(8) > 0 {
            d.states.push((vec![(SymbolRange { lowest: a[0].clone(), highest: a[a.len() - 1].clone() }, ((q + 1) % n) as u32)], if ch.pick(3) == 0 { Some(ch.pick(3) as u32) } else { None }));
            continue;
        }
        let mut i = ch.pick(3);
        while i < a.len() {
            let j = (i + ch.pick(3)).min(a.len() - 1);
            if ch.pick(4) != 3 { t.push((SymbolRange { lowest: a[i].clone(), highest: a[j].clone() }, ch.pick(n) as u32)); }
            i = j + 1 + if ch.pick(3) == 2 { 1 } else { 0 };
        }
        let o = if ch.pick(3) == 0 { None } else { Some(ch.pick(3) as u32) };
        d.states.push((t, o));
    }
    d
}
fn table<S: Sym>(ch: &mut Ch, d: &Decl<S>) -> SymbolRangeDfa<S, u32> {
    let mut b = SymbolRangeDfaBuilder::new();
    for (t, o) in &d.states {
        b.start_state();
        let when = ch.pick(t.len() + 1);
        if o.is_some() && ch.pick(6) == 5 { b.accept(ch.pick(4) as u32); }
        for (i, (r, s)) in t.iter().enumerate() { if i == when { if let Some(o) = o { b.accept(*o); } } b.transition(r.clone(), *s); }
        if when == t.len() { if let Some(o) = o { b.accept(*o); } }
    }
    b.build()
}
fn c10<S: Sym>(ch: &mut Ch) -> Out {
    let mut a = if ch.flag() { run8::<S>(ch) } else { alpha::<S>(ch) };
    a.truncate(40);
    let d = decl(ch, &a);
    desc(format!("{:?}", d));
    let m = table(ch, &d);
    let r = (|| -> R {
        ck!(m.count_states() as usize == d.states.len(), "{:?}: {} states built", d, m.count_states());
        for s in 0..d.states.len() {
            ck!(m.output_symbol_for_state(s as u32).copied() == d.states[s].1, "{:?}: output of state {} is {:?}", d, s, m.output_symbol_for_state(s as u32));
            let t = m.get_transitions_for_state(s as u32);
            for x in &a {
                let g: BTreeSet<u32> = t.iter().filter(|(r, _)| r.lowest <= *x && *x <= r.highest).map(|e| e.1).collect();
                let w: BTreeSet<u32> = d.states[s].0.iter().filter(|(r, _)| r.lowest <= *x && *x <= r.highest).map(|e| e.1).collect();
                ck!(g == w, "{:?}: in state {} symbol {:?} leads to {:?}, declared {:?} (table {:?})", d, s, x, g, w, t);
            }
        }
        Ok(())
    })();
    out(d.states.iter().any(|s| s.0.len() > 1), r)
}
/// an input that keeps to the declared transitions, with a few symbols after they run out
fn follow<S: Sym>(ch: &mut Ch, d: &Decl<S>, a: &[S], n: usize) -> Vec<S> {
    let (mut w, mut s) = (vec![], 0usize);
    let steady = ch.flag();
    let mut last: Option<S> = None;
    while w.len() < n {
        let row = &d.states[s].0;
        if row.is_empty() { break; }
        let again = last.clone().filter(|x| steady && d.step(s, x).is_some());
        let x = match again { Some(x) => x, None => { let r = &ch.of(row).0; if ch.flag() { r.lowest.clone() } else { r.highest.clone() } } };
        match d.step(s, &x) { Some(t) => s = t, None => break }
        last = Some(x.clone());
        w.push(x);
    }
    for _ in 0..ch.pick(3) { w.push(ch.of(a).clone()); }
    w
}
fn c11<S: Sym>(ch: &mut Ch) -> Out {
    let a = alpha::<S>(ch);
    let d = decl(ch, &a);
    let m = table(ch, &d);
    let w: Vec<S> = match ch.scaled(70000) { Some(k) if ch.flag() => { let n = match ch.pick(3) { 0 => k + ch.pick(k + 1), _ => k + 3 }; follow(ch, &d, &a, n) } _ => if ch.is_random() && ch.flag() { let n = ch.pick(24); follow(ch, &d, &a, n) } else { word(ch, &a, 10) } };
    desc(format!("{:?} on {:?}", d, w));
    // what the declared table says
    let (mut s, mut best, mut used) = (0usize, d.states[0].1.map(|o| (0usize, o)), None);
    for (i, x) in w.iter().enumerate() {
        match d.step(s, x) {
            Some(t) => { s = t; if let Some(o) = d.states[s].1 { best = Some((i + 1, o)); } }
            None => { used = Some(i + 1); break; }
        }
    }
    let reads = used.unwrap_or(w.len() + 1);
    let show = |x: &MatchAction<u32, SymbolRangeState<S, u32>>| match x { MatchAction::Reject => "reject".into(), MatchAction::More(_) => "more".into(), MatchAction::Accept(n, o) => format!("accept {} {}", n, o) };
    let want = match best { Some((n, o)) => format!("accept {} {}", n, o), None => "reject".to_string() };
    let r = (|| -> R {
        let mut st = m.start();
        let mut k = 0;
        let res = loop {
            st = match st {
                More(x) => if k < w.len() { k += 1; x.next(w[k - 1].clone()) } else { k += 1; x.finish() },
                other => break other,
            };
        };
        ck!(show(&res) == want && k == reads, "{:?} on {:?}: {} after {} steps, expected {} after {}", d, w, show(&res), k, want, reads);
        let mut rd = Counting::new(&w, Some(a[0].clone()));
        let res = match_pattern(m.start(), &mut rd);
        ck!(show(&res) == want, "{:?} on {:?}: match_pattern gives {}, expected {}", d, w, show(&res), want);
        ck!(rd.reads == reads, "{:?} on {:?}: match_pattern reads {} times, expected {}", d, w, rd.reads, reads);
        let p = matches_prepared(&w, &m);
        ck!(p == best.map(|b| b.0), "{:?} on {:?}: matches_prepared gives {:?}, expected {:?}", d, w, p, best.map(|b| b.0));
        Ok(())
    })();
    out(w.len() > 0 && d.states.len() > 1, r)
}
fn c12(ch: &mut Ch) -> Out {
    let mut m: Ndfa<u32, u32> = Ndfa::new();
    let (mut edges, mut joins, mut outs, mut hi): (Vec<(u32, u32, u32)>, Vec<(u32, u32)>, BTreeMap<u32, u32>, u32) = (vec![], vec![], BTreeMap::new(), 0);
    let n = 1 + ch.size(10, 300);
    let big = n > 20;
    let mx = if big { n } else { 5 };
    let mut log = vec![];
    let mut res = Ok(());
    for _ in 0..n {
        let (s, t) = (ch.pick(mx) as u32, ch.pick(mx) as u32);
        let (s, t) = if big && ch.pick(4) > 0 { (log.len() as u32, log.len() as u32 + 1) } else { (s, t) };
        match ch.pick(4) {
            0 => { let x = ch.pick(3) as u32; log.push(format!("transition {}-{}->{}", s, x, t)); desc(log.join(", ")); m.add_transition(s, x, t); edges.push((s, x, t)); hi = hi.max(s).max(t); }
            1 => { log.push(format!("join {}->{}", s, t)); desc(log.join(", ")); m.join_states(s, t); joins.push((s, t)); hi = hi.max(s).max(t); }
            2 => { log.push(format!("output {}={}", s, t)); desc(log.join(", ")); m.set_output_symbol(s, t); outs.insert(s, t); hi = hi.max(s); }
            _ => { log.push(format!("create {}", s)); desc(log.join(", ")); m.create_state(s); hi = hi.max(s); }
        }
        if big && log.len() < n { continue; }
        res = (|| -> R {
            ck!(m.count_states() == hi + 1, "after {}: {} states, expected {}", log.join(", "), m.count_states(), hi + 1);
            for s in 0..mx as u32 + 1 {
                let mut c: BTreeSet<u32> = std::iter::once(s).collect();
                loop { let n = c.len(); for (x, y) in &joins { if c.contains(x) { c.insert(*y); } } if c.len() == n { break; } }
                let want: BTreeSet<(u32, u32)> = edges.iter().filter(|e| c.contains(&e.0)).map(|e| (e.1, e.2)).collect();
                let got: BTreeSet<(u32, u32)> = m.get_transitions_for_state(s).into_iter().collect();
                ck!(got == want, "after {}: transitions of state {} are {:?}, expected {:?}", log.join(", "), s, got, want);
                let want: BTreeSet<u32> = outs.iter().filter(|o| c.contains(o.0)).map(|o| *o.1).collect();
                let got: BTreeSet<u32> = m.output_symbols_for_state(s).into_iter().copied().collect();
                ck!(got == want, "after {}: outputs of state {} are {:?}, expected {:?}", log.join(", "), s, got, want);
                let one = m.output_symbol_for_state(s).copied();
                ck!(match one { None => want.is_empty(), Some(o) => want.contains(&o) }, "after {}: output of state {} is {:?}, expected one of {:?}", log.join(", "), s, one, want);
            }
            Ok(())
        })();
        if res.is_err() { break; }
    }
    out(n > 1, res)
}

// ---------------------------------------------------------------------------------------------- tapes and tokenizers

fn c13(ch: &mut Ch) -> Out {
    let big = ch.scaled(70000).is_some();
    let len = match ch.scaled(70000) { Some(k) => k + ch.pick(2 * k), None => ch.pick(if ch.is_random() { 30 } else { 7 }) };
    let src: Vec<u32> = (0..len as u32).map(|x| x + 100).collect();
    let mut t = Tape::new(Counting::new(&src, Some(9999)));
    let (mut pos, mut cut, mut ended) = (0usize, 0usize, false);
    let mut hi = 0usize;
    let n = 1 + ch.len(if big { 16 } else if ch.is_random() { 60 } else { 12 });
    let mut log = vec![];
    let r = (|| -> R {
        for _ in 0..n {
            match ch.pick(8) {
                0 | 1 | 2 | 3 => {
                    let m = if big { match ch.pick(3) { 0 => 1, 1 => ch.pick(len + 1), _ => (ch.scaled(70000).unwrap() + ch.pick(4)).saturating_sub(2) } } else { 1 };
                    log.push(if m == 1 { "read".to_string() } else { format!("read {}", m) });
                    desc(format!("{} symbols: {}", len, log.join(" ")));
                    for _ in 0..m {
                        let want = if pos < len { Some(src[pos]) } else { None };
                        let g = t.next_symbol();
                        ck!(g == want, "{} symbols, {}: read {:?}, expected {:?}", len, log.join(" "), g, want);
                        if want.is_some() { pos += 1; hi = hi.max(pos); } else { ended = true; }
                    }
                }
                4 | 5 => {
                    let k = if ch.pick(8) == 7 { pos - cut + 1 + ch.pick(3) } else { ch.pick(pos - cut + 1) };
                    log.push(format!("rewind({})", k));
                    desc(format!("{} symbols: {}", len, log.join(" ")));
                    if k > pos - cut {
                        let e = catch_unwind(AssertUnwindSafe(|| t.rewind(k)));
                        ck!(e.is_err(), "{} symbols, {}: rewinding past the last cut is not refused", len, log.join(" "));
                        return Ok(());
                    }
                    t.rewind(k);
                    pos -= k;
                }
                6 => { log.push("cut".into()); desc(format!("{} symbols: {}", len, log.join(" "))); t.cut(); cut = pos; }
                _ => { if ch.pick(2) == 1 { log.push("resize".into()); desc(format!("{} symbols: {}", len, log.join(" "))); t.resize(); } }
            }
            ck!(t.get_source_position() == pos, "{} symbols, {}: position {}, expected {}", len, log.join(" "), t.get_source_position(), pos);
            let e = ended && pos == hi;
            ck!(t.at_end_of_reader() == e, "{} symbols, {}: at_end_of_reader is {}", len, log.join(" "), t.at_end_of_reader());
            ck!(t.buffer_size() == hi - cut, "{} symbols, {}: {} symbols in the buffer, expected {}", len, log.join(" "), t.buffer_size(), hi - cut);
        }
        Ok(())
    })();
    out(n > 3, r)
}

type Toks<S> = Vec<(Pattern<S>, u32)>;
fn tokens<S: Sym>(ch: &mut Ch, a: &[S]) -> Toks<S> {
    let n = 1 + ch.size(3, 70);
    let many = n > 8;
    let outs = if n > 8 { n } else { 4 };
    let long = ch.scaled(1100).filter(|_| n <= 8);
    let mut v: Toks<S> = (0..n).map(|i| (loop { if many { break if ch.pick(3) > 0 { Pattern::Match(word(ch, a, 4)) } else { pattern(ch, a, 0) }; } if let Some(k) = long { if i == 0 && ch.pick(3) == 0 { let x = ch.of(a).clone(); break if ch.flag() { Pattern::Repeat(k as u32..k as u32 + 1, Box::new(Pattern::Match(vec![x]))) } else { Pattern::RepeatInfinite(k as u32, Box::new(Pattern::Match(vec![x]))) }; } } let d = if ch.is_random() { ch.pick(3) } else { 1 }; let p = pattern(ch, a, d); if size(&p) <= 25 { break p; } if !ch.is_random() { break Pattern::Epsilon; } }, ch.pick(outs) as u32)).collect();
    if ch.is_random() && !many { for i in 1..v.len() { if ch.pick(4) == 0 && size(&v[i - 1].0) < 100 { let p = related(ch, a, &v[i - 1].0); if size(&p) <= 130 { v[i].0 = p; } } } }
    v
}
fn matcher<S: Sym>(t: &Toks<S>) -> TokenMatcher<S, u32> { let mut m = TokenMatcher::new(); for (p, o) in t { m.add_pattern(p.clone(), *o); } m }
/// the longest match of any pattern, and the lowest output among the patterns matching it
fn best<S: Sym>(t: &Toks<S>, w: &[S]) -> Option<(usize, u32)> {
    let n = t.iter().filter_map(|(p, _)| longest(p, w)).max()?;
    let o = t.iter().filter(|(p, _)| ends0(p, w).contains(&n)).map(|x| x.1).min()?;
    Some((n, o))
}
/// an input made of tokens and of symbols in between
fn text<S: Sym>(ch: &mut Ch, t: &Toks<S>, a: &[S], max: usize) -> Vec<S> {
    let cap = match ch.scaled(1100) { Some(k) => k + 20, None => 0 };
    if ch.is_random() && (cap > 0 || ch.flag()) {
        let mut w = vec![];
        let n = ch.size(6, 1100);
        for _ in 0..n { match ch.pick(4) { 0 => w.push(ch.of(a).clone()), 1 => { let p = ch.of(t).0.clone(); w.extend(near(ch, a, &p)) } _ => { let p = ch.of(t).0.clone(); w.extend(sample(ch, &p)) } } if w.len() > 30 + cap { break; } }
        w.truncate(30 + 3 * cap);
        return w;
    }
    word(ch, &a[..3], max)
}
/// token patterns whose matches on a very long input can be told without searching: x, x y*, x y* z and y+
struct Long<S: Sym> { toks: Toks<S>, kinds: Vec<usize>, w: Vec<S>, run: Vec<usize>, a: Vec<S> }
impl<S: Sym> Long<S> {
    fn new(ch: &mut Ch, a: &[S]) -> Option<Long<S>> {
        let k = ch.scaled(70_000)?;
        if k <= 140 || a.len() < 4 || !ch.flag() { return None; }
        let (x, y, z, u) = (a[0].clone(), a[1].clone(), a[2].clone(), a[3].clone());
        let kinds: Vec<usize> = (0..1 + ch.pick(3)).map(|_| ch.pick(4)).collect();
        let (one, ys) = (|s: &S| Pattern::Match(vec![s.clone()]), |n: u32| Pattern::RepeatInfinite(n, Box::new(Pattern::MatchRange(y.clone(), y.clone()))));
        let toks = kinds.iter().map(|i| (match i { 0 => one(&x), 1 => Pattern::MatchAll(vec![one(&x), ys(0)]), 2 => Pattern::MatchAll(vec![one(&x), ys(0), one(&z)]), _ => ys(1) }, ch.pick(4) as u32)).collect();
        let mut w = vec![u.clone(); ch.pick(3)];
        w.push(x.clone());
        let m = match ch.pick(3) { 0 => k + ch.pick(k), _ => (k + ch.pick(4)).saturating_sub(2) };
        w.extend(vec![y.clone(); m]);
        match ch.pick(5) { 0 => w.push(z.clone()), 1 => w.push(u.clone()), 2 => { w.push(x.clone()); w.push(y.clone()); w.push(z.clone()) } 3 => { w.push(u.clone()); w.push(x.clone()); w.push(x.clone()) } _ => {} }
        let mut run = vec![0; w.len() + 1];
        for i in (0..w.len()).rev() { if w[i] == y { run[i] = run[i + 1] + 1; } }
        Some(Long { toks, kinds, w, run, a: a[..4].to_vec() })
    }
    fn best(&self, i: usize) -> Option<(usize, u32)> {
        let one = |kind: usize| -> usize {
            if i >= self.w.len() { return 0; }
            if kind == 3 { return self.run[i]; }
            if self.w[i] != self.a[0] { return 0; }
            let n = self.run[i + 1];
            match kind { 0 => 1, 1 => 1 + n, _ => if self.w.get(i + 1 + n) == Some(&self.a[2]) { n + 2 } else { 0 } }
        };
        let n = self.kinds.iter().map(|k| one(*k)).max().filter(|n| *n > 0)?;
        let o = self.kinds.iter().zip(&self.toks).filter(|(k, _)| one(**k) == n).map(|(_, t)| t.1).min()?;
        Some((n, o))
    }
    fn all(&self) -> Vec<(std::ops::Range<usize>, u32)> {
        let (mut v, mut pos) = (vec![], 0);
        while pos < self.w.len() { match self.best(pos) { Some((n, o)) => { v.push((pos..pos + n, o)); pos += n; } None => pos += 1 } }
        v
    }
    fn show(&self) -> String { format!("{:?} on {} symbols: {:?} … {:?}", self.toks, self.w.len(), &self.w[..4.min(self.w.len())], &self.w[self.w.len().saturating_sub(4)..]) }
}
fn c15_long<S: Sym>(ch: &mut Ch, l: &Long<S>) -> Out {
    let dd = l.show();
    desc(dd.clone());
    let m = matcher(&l.toks);
    let d = (&m).prepare_to_match();
    let rd = Counting::new(&l.w, None);
    let mut k = if ch.flag() { Tokenizer::new(rd, &m) } else { Tokenizer::new_prepared(rd, &d) };
    let mut pos = 0;
    let r = (|| -> R {
        while pos < l.w.len() {
            let want = l.best(pos);
            let g = k.next_token();
            ck!(g == want.map(|(n, o)| (pos..pos + n, o)), "{}: next_token at {} gives {:?}, expected {:?}", dd, pos, g, want);
            if let Some((n, _)) = want { pos += n; } else { let g = k.skip_input(); ck!(g.as_ref() == l.w.get(pos), "{}: skip_input at {} gives {:?}", dd, pos, g); pos += 1; }
            ck!(k.get_source_position() == pos, "{}: position {}, expected {}", dd, k.get_source_position(), pos);
        }
        ck!(k.next_token().is_none() && k.at_end_of_reader(), "{}: not at the end after all of it was read", dd);
        Ok(())
    })();
    out(true, r)
}
fn c15<S: Sym>(ch: &mut Ch) -> Out {
    let a = alpha::<S>(ch);
    if let Some(l) = Long::new(ch, &a) { return c15_long(ch, &l); }
    let t = tokens(ch, &a);
    let m = if ch.is_random() { 20 } else { 6 };
    let w = text(ch, &t, &a, m);
    desc(format!("{:?} on {:?}", t, w));
    let d = matcher(&t).prepare_to_match();
    let owned = ch.flag();
    let rd = Counting::new(&w, Some(a[0].clone()));
    let m = matcher(&t);
    let mut k = if owned { Tokenizer::new(rd, &m) } else { Tokenizer::new_prepared(rd, &d) };
    let mut pos = 0;
    let mut some = false;
    let mut ended = false;
    let r = (|| -> R {
        for step in 0..w.len() + 4 {
            if step > 60 && pos + 4 < w.len() && w.len() > 400 && step % 50 != 0 { let g = k.next_token(); let want = best(&t, &w[pos..]).filter(|x| x.0 > 0); ck!(g == want.map(|(n, o)| (pos..pos + n, o)), "{:?} on {:?}: next_token at {} gives {:?}, expected {:?}", t, w, pos, g, want); if let Some((n, _)) = want { pos += n; } else { k.skip_input(); pos += 1; } continue; }
            let want = best(&t, &w[pos..]).filter(|x| x.0 > 0);
            some |= want.is_some();
            if ch.pick(5) == 4 {
                let g = k.skip_input();
                let e = w.get(pos).cloned();
                ck!(g == e, "{:?} on {:?}: skip_input at {} gives {:?}", t, w, pos, g);
                if e.is_some() { pos += 1; } else { ended = true; }
            } else if step % 7 == 6 {
                let g = k.next_symbol();
                ck!(g == want.map(|x| x.1), "{:?} on {:?}: next_symbol at {} gives {:?}, expected {:?}", t, w, pos, g, want.map(|x| x.1));
                if let Some((n, _)) = want { pos += n; }
            } else {
                let g = k.next_token();
                let e = want.map(|(n, o)| (pos..pos + n, o));
                ck!(g == e, "{:?} on {:?}: next_token at {} gives {:?}, expected {:?}", t, w, pos, g, e);
                if let Some((n, _)) = want { pos += n; } else if pos == w.len() { ended = true; }
            }
            ck!(k.get_source_position() == pos, "{:?} on {:?}: position {}, expected {}", t, w, k.get_source_position(), pos);
            let end = k.at_end_of_reader();
            ck!(!end || pos == w.len(), "{:?} on {:?}: at the end of the reader at position {}", t, w, pos);
            ck!(end || !(ended && pos == w.len()), "{:?} on {:?}: not at the end of the reader after it has ended", t, w);
            if pos < w.len() && best(&t, &w[pos..]).filter(|x| x.0 > 0).is_none() && ch.pick(2) == 0 {
                let g = k.skip_input();
                ck!(g == Some(w[pos].clone()), "{:?} on {:?}: skip_input at {} gives {:?}", t, w, pos, g);
                pos += 1;
            }
        }
        Ok(())
    })();
    out(some, r)
}
fn all_tokens<S: Sym>(t: &Toks<S>, w: &[S]) -> Vec<(std::ops::Range<usize>, u32)> {
    let mut v = vec![];
    let mut pos = 0;
    while pos <= w.len() {
        match best(t, &w[pos..]).filter(|x| x.0 > 0) { Some((n, o)) => { v.push((pos..pos + n, o)); pos += n; } None => pos += 1 }
    }
    v
}
fn c16<S: Sym>(ch: &mut Ch) -> Out {
    let a = alpha::<S>(ch);
    if let Some(l) = Long::new(ch, &a) {
        desc(l.show());
        let want = l.all();
        let got: Vec<_> = Tokenizer::new(Counting::new(&l.w, Some(a[0].clone())), &matcher(&l.toks)).take(l.w.len() + 2).collect();
        return out(true, if got == want { Ok(()) } else { Err(format!("{}: tokens {:?}, expected {:?}", l.show(), &got[..got.len().min(8)], &want[..want.len().min(8)])) });
    }
    let t = tokens(ch, &a);
    let m = if ch.is_random() { 25 } else { 6 };
    let w = text(ch, &t, &a, m);
    desc(format!("{:?} on {:?}", t, w));
    let want = all_tokens(&t, &w);
    let k = Tokenizer::new(Counting::new(&w, Some(a[0].clone())), &matcher(&t));
    let got: Vec<_> = k.take(w.len() + 2).collect();
    let nt = !want.is_empty();
    out(nt, if got == want { Ok(()) } else { Err(format!("{:?} on {:?}: tokens {:?}, expected {:?}", t, w, got, want)) })
}
fn c17<S: Sym>(ch: &mut Ch) -> Out {
    let a = alpha::<S>(ch);
    if let Some(l) = Long::new(ch, &a) {
        desc(l.show());
        let d = matcher(&l.toks).prepare_to_match();
        let r = (|| -> R {
            for i in 0..4.min(l.w.len()) {
                let want = l.best(i);
                let got = match match_pattern(d.start(), &mut Counting::new(&l.w[i..], None)) { Accept(n, o) => Some((n, *o)), _ => None };
                ck!(got == want, "{}: matched {:?} at {}, expected {:?}", l.show(), got, i, want);
            }
            Ok(())
        })();
        return out(true, r);
    }
    let mut t = tokens(ch, &a);
    if ch.flag() { let p = t[0].0.clone(); t.push((p, ch.pick(4) as u32)); }
    let w = text(ch, &t, &a, 6);
    desc(format!("{:?} on {:?}", t, w));
    let mut any = false;
    let r = (|| -> R {
        for _ in 0..2 {
            let d = matcher(&t).prepare_to_match();
            for i in 0..=w.len() {
                if i > 20 && i + 20 < w.len() && i % 37 != 0 { continue; }
                let want = best(&t, &w[i..]);
                any |= want.is_some();
                let got = match match_pattern(d.start(), &mut Counting::new(&w[i..], None)) { Accept(n, o) => Some((n, *o)), _ => None };
                ck!(got == want, "{:?} on {:?}: matched {:?}, expected {:?}", t, &w[i..], got, want);
            }
        }
        Ok(())
    })();
    out(any && t.len() > 1, r)
}
fn c18(ch: &mut Ch) -> Out {
    let big = ch.scaled(70000);
    let len = match big { Some(k) => k + ch.pick(k), None => ch.pick(if ch.is_random() { 12 } else { 4 }) };
    let src: Vec<u32> = (0..len as u32).map(|x| x + 100).collect();
    let n = 1 + ch.len(if ch.is_random() { 40 } else { 10 });
    let n = if big.is_some() { n.min(12) } else { n };
    let ops: Vec<(usize, usize)> = (0..n).map(|_| (ch.pick(7), match big { Some(k) => match ch.pick(3) { 0 => 1 + ch.pick(3), 1 => ch.pick(k), _ => (k + ch.pick(4)).saturating_sub(2) }, None => 1 })).collect();
    let pre = ch.pick(2);
    let fin = ch.pick(2);
    desc(format!("{} symbols, {} read first, then {:?} (0-2 read A, 3-4 read B, 5 drop A, 6 drop B; how many reads), end {}", len, pre, ops, fin));
    let dd = last_desc();
    let mut rd = Counting::new(&src, Some(77));
    for _ in 0..pre { rd.next_symbol(); }
    let at = |k: usize| -> Option<u32> { let k = k + pre; if k < len { Some(src[k]) } else if k == len { None } else { Some(77) } };
    let (mut pa, mut pb) = (0, 0);
    let r = (|| -> R {
        {
            let (a, b) = rd.split();
            let (mut a, mut b) = (Some(a), Some(b));
            for (o, m) in &ops {
                match o {
                    0..=2 => for _ in 0..*m { if let Some(x) = &mut a { let g = x.next_symbol(); ck!(g == at(pa), "{}: read {} of A gives {:?}, expected {:?}", dd, pa, g, at(pa)); pa += 1; } },
                    3..=4 => for _ in 0..*m { if let Some(x) = &mut b { let g = x.next_symbol(); ck!(g == at(pb), "{}: read {} of B gives {:?}, expected {:?}", dd, pb, g, at(pb)); pb += 1; } },
                    5 => a = None,
                    _ => b = None,
                }
            }
            if fin == 1 { drop(a); drop(b); } else { drop(b); drop(a); }
        }
        let m = std::cmp::max(pa, pb) + pre;
        ck!(rd.reads == m, "{}: the reader was read {} times for {} symbols", dd, rd.reads, m);
        Ok(())
    })();
    out(n > 2, r)
}

// ---------------------------------------------------------------------------------------------- tagged streams

type TS = TaggedStream<char, u32>;
type TSym = TagSymbol<char, u32>;
fn items(s: &TS) -> Vec<TSym> { (0..s.len()).map(|i| s[i].clone()).collect() }
fn stream(ch: &mut Ch) -> TS {
    let n = ch.size(8, 70_000);
    let mut s: TS = TaggedStream::from_reader(&mut VecReader::from_vec((0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()));
    let times = if n > 1100 { ch.pick(3) } else { ch.pick(5) };
    tag_some(ch, &mut s, times, &[5, 6, 7]);
    s
}
/// a few tags, side by side or within one another, over nothing, one symbol or several
fn tag_some(ch: &mut Ch, s: &mut TS, times: usize, tags: &[u32]) {
    for _ in 0..times {
        let n = s.len();
        let i = ch.pick(n + 1);
        let j = i + ch.pick((n - i + 1).min(4));
        let t = *ch.of(tags);
        s.tag(t, i..j);
    }
}
fn inner(s: &TSym) -> Option<(u32, Vec<TSym>)> { if let TagSymbol::Tagged(t, d) = s { Some((*t, items(d))) } else { None } }
fn c19(ch: &mut Ch) -> Out {
    let s = stream(ch);
    let v = items(&s);
    let op = ch.pick(3);
    let n = v.len();
    if op < 2 {
        let i = ch.pick(n + 1);
        let j = i + ch.pick(n - i + 1);
        desc(format!("{} {}..{} of {:?}", if op == 0 { "tag" } else { "tag_range" }, i, j, v));
        let r = (|| -> R {
            if op == 0 {
                let mut t = s.clone();
                // several tags in a row, some of them over what was tagged before, with the same tag or another
                let (mut v, mut n, mut i, mut j) = (v.clone(), n, i, j);
                for _ in 0..ch.pick(3) {
                    let tag = 5 + ch.pick(3) as u32;
                    t.tag(tag, i..j);
                    let g = items(&t);
                    ck!(g.len() == n - (j - i) + 1 && t.len() == g.len(), "{}: {} symbols", last_desc(), g.len());
                    ck!(g[..i] == v[..i] && g[i + 1..] == v[j..], "{}: surroundings changed: {:?}", last_desc(), g);
                    ck!(inner(&g[i]) == Some((tag, v[i..j].to_vec())), "{}: tagged symbol is {:?}", last_desc(), g[i]);
                    v = g;
                    n = v.len();
                    if ch.flag() { j = i + 1 + ch.pick(n - i); } else { i = ch.pick(n + 1); j = i + ch.pick(n - i + 1); }
                    desc(format!("then tag {}..{} of {:?}", i, j, v));
                }
                t.tag(7, i..j);
                let g = items(&t);
                ck!(g.len() == n - (j - i) + 1 && t.len() == g.len(), "{}: {} symbols", last_desc(), g.len());
                ck!(g[..i] == v[..i] && g[i + 1..] == v[j..], "{}: surroundings changed: {:?}", last_desc(), g);
                ck!(inner(&g[i]) == Some((7, v[i..j].to_vec())), "{}: tagged symbol is {:?}", last_desc(), g[i]);
            } else {
                let tag = 5 + ch.pick(3) as u32;
                let t = s.tag_range(i..j, tag);
                ck!(inner(&t) == Some((tag, v[i..j].to_vec())), "{}: tagged symbol is {:?}", last_desc(), t);
            }
            ck!(items(&s) == v, "{}: the source stream changed", last_desc());
            let all: Vec<TSym> = (&s).read_symbols().to_vec();
            ck!(all == v, "{}: reading the stream gives {:?}", last_desc(), all);
            Ok(())
        })();
        return out(n > 1, r);
    }
    let k = ch.size(4, 600);
    let mut tags = vec![];
    let mut pos = 0;
    for x in 0..k {
        if pos > n { break; }
        let back = ch.pick(12) == 11 && pos > 0;
        let i = if back { pos - 1 } else { pos + ch.pick(if k > 8 { 3.min(n - pos + 1) } else { n - pos + 1 }) };
        let j = i + ch.pick(if k > 8 { 3.min(n - i + 1) } else { n - i + 1 });
        tags.push((i..j, if ch.flag() { 5 + ch.pick(3) as u32 } else { 20 + x as u32 }));
        pos = j;
    }
    desc(format!("with_tags {:?} on {:?}", tags, v));
    let dd = last_desc();
    let mut want: Option<Vec<(Option<u32>, Vec<TSym>)>> = Some(vec![]);
    let mut last = 0;
    for (r, t) in &tags {
        if r.start < last { want = None; break; }
        let w = want.as_mut().unwrap();
        for x in &v[last..r.start] { w.push((None, vec![x.clone()])); }
        w.push((Some(*t), v[r.clone()].to_vec()));
        last = r.end;
    }
    if let Some(w) = &mut want { for x in &v[last..] { w.push((None, vec![x.clone()])); } }
    let r = (|| -> R {
        let got = catch_unwind(AssertUnwindSafe(|| s.with_tags(tags.clone().into_iter())));
        match (got, want) {
            (Err(_), None) => {}
            (Err(_), Some(_)) => return Err(format!("{}: refused", dd)),
            (Ok(g), None) => return Err(format!("{}: overlapping or unsorted tags accepted: {:?}", dd, g)),
            (Ok(g), Some(w)) => {
                let g = items(&g);
                ck!(g.len() == w.len(), "{}: gives {:?}", dd, g);
                for (x, (t, d)) in g.iter().zip(w.iter()) {
                    match t { None => ck!(*x == d[0], "{}: gives {:?}", dd, g), Some(t) => ck!(inner(x) == Some((*t, d.clone())), "{}: gives {:?}", dd, g) }
                }
            }
        }
        ck!(items(&s) == v, "{}: the source stream changed", dd);
        Ok(())
    })();
    out(k > 0, r)
}
fn c20(ch: &mut Ch) -> Out {
    let a = vec!['a', 'b', 'c'];
    let long = Long::new(ch, &['a', 'b', 'c', 'd']);
    let t = match &long { Some(l) => l.toks.clone(), None => tokens(ch, &a) };
    let m = if ch.is_random() { 16 } else { 5 };
    let text = match &long { Some(l) => l.w.clone(), None => text(ch, &t, &a, m) };
    let with_tag = long.is_none() && ch.pick(3) == 2 && !text.is_empty();
    let mut s: TS = TaggedStream::from_reader(&mut VecReader::from_vec(text.clone()));
    // some of it tagged before, perhaps with a tag that the tokens carry too, perhaps within one another
    if with_tag { let tags: Vec<u32> = t.iter().map(|x| x.1).chain(vec![99]).collect(); let k = 1 + ch.pick(3); tag_some(ch, &mut s, k, &tags); }
    let v = items(&s);
    desc(match &long { Some(l) => l.show(), None => format!("{:?} on {:?}", t, v) });
    let dd = last_desc();
    let d = matcher(&t).prepare_to_match();
    // a tagged symbol maps to a constant, by its tag, by what it holds, or by its place
    let by = if with_tag { ch.pick(4) } else { 0 };
    let map = |x: &TSym, at: usize| match x { TagSymbol::Untagged(c) => *c, TagSymbol::Tagged(t, d) => a[match by { 0 => 1, 1 => *t as usize % 3, 2 => d.len() % 3, _ => at % 3 }] };
    let mapped: Vec<char> = v.iter().enumerate().map(|(i, x)| map(x, i)).collect();
    let toks = match &long { Some(l) => l.all(), None => all_tokens(&t, &mapped) };
    let mut want: Vec<(Option<u32>, Vec<TSym>)> = vec![];
    let mut last = 0;
    for (r, o) in &toks { for x in &v[last..r.start] { want.push((None, vec![x.clone()])); } want.push((Some(*o), v[r.clone()].to_vec())); last = r.end; }
    for x in &v[last..] { want.push((None, vec![x.clone()])); }
    let cmp = |g: Vec<TSym>| -> R {
        ck!(g.len() == want.len(), "{}: gives {:?}, expected tokens {:?}", dd, g, toks);
        for (x, (t, d)) in g.iter().zip(want.iter()) { match t { None => ck!(*x == d[0], "{}: gives {:?}, expected tokens {:?}", dd, g, toks), Some(t) => ck!(inner(x) == Some((*t, d.clone())), "{}: gives {:?}, expected tokens {:?}", dd, g, toks) } }
        Ok(())
    };
    let r = (|| -> R {
        let mut at = 0;
        cmp(items(&s.tokenize(&d, |x| { at += 1; map(&x, at - 1) })))?;
        if !with_tag { cmp(items(&TaggedStream::from_tokenized_reader(&mut VecReader::from_vec(text.clone()), &d)))?; }
        ck!(items(&s) == v, "{}: the source stream changed", dd);
        Ok(())
    })();
    out(!toks.is_empty(), r)
}

// ---------------------------------------------------------------------------------------------- readers and conversions

fn drain<S: Clone + PartialEq + Debug, T: SymbolReader<S>>(what: &str, mut r: T, w: &[S], cut: usize) -> R {
    // read a few symbols one at a time, collect the rest, then the end again
    let cut = cut.min(w.len());
    for i in 0..cut { let g = r.next_symbol(); ck!(g.as_ref() == Some(&w[i]), "{} over {:?}: symbol {} is {:?}", what, w, i, g); }
    let rest = r.to_vec();
    ck!(rest[..] == w[cut..], "{} over {:?}: collecting after {} symbols gives {:?}", what, w, cut, rest);
    let g = r.next_symbol();
    ck!(g.is_none(), "{} over {:?}: {:?} after the end", what, w, g);
    Ok(())
}
/// text and bytes: letters, what means something at a line's or file's start or end or in a notation, and what the source mentions
fn letters(ch: &mut Ch) -> ([char; 5], [u8; 5]) {
    match ch.hinted() {
        Some(h) => { let c = std::char::from_u32(h.max(0).min(0x10ffff) as u32).unwrap_or('a'); let b = (h & 255) as u8; (['a', c, '\u{20ac}', if c == ' ' { '\n' } else { ' ' }, '\u{e9}'], [0u8, b, 65, 66, 10]) }
        None => [
            (['a', 'b', '\u{e9}', '\u{20ac}', '\u{1F600}'], [0u8, 255, 10, 128, 65]),
            (['\r', '\n', '\0', '\u{feff}', ' '], [13, 10, 0, 26, 32]),
            (['\u{fffd}', '\u{10ffff}', '\u{e000}', '\u{301}', 'e'], [0xef, 0xbb, 0xbf, 0xfe, 0xff]),
            (['\t', '\u{b}', '\u{7f}', '\u{85}', '\u{1b}'], [9, 11, 127, 133, 27]),
            (['A', 'a', '0', '_', '\u{df}'], [65, 97, 48, 95, 46]),
            (['*', '\\', '.', '(', '|'], [42, 92, 46, 40, 124]),
            (['"', '\'', '[', '-', ']'], [34, 39, 91, 45, 93]),
            (['\u{a0}', '\u{200b}', '\u{2028}', '\u{d7ff}', '\u{ff}'], [160, 194, 195, 128, 191]),
        ][ch.pick(8)],
    }
}
fn c21(ch: &mut Ch) -> Out {
    let n = ch.size(9, 70000);
    let k = ch.pick(9);
    let cut = ch.pick(n + 1);
    let v: Vec<u32> = (0..n).map(|_| ch.pick(5) as u32).collect();
    let (ca, ba) = letters(ch);
    let s: String = v.iter().map(|x| ca[*x as usize]).collect();
    let b: Vec<u8> = v.iter().map(|x| ba[*x as usize]).collect();
    desc(format!("reader {} over {:?}, {} read singly", k, v, cut));
    let r = match k {
        0 => drain("vector", (&v).read_symbols(), &v, cut),
        1 => drain("slice iterator", v.iter(), &v, cut),
        2 => drain("string", s.as_str().read_symbols(), &s.chars().collect::<Vec<_>>(), cut),
        3 => drain("bytes", ByteSymbolReader::from(&b[..]), &b, cut),
        4 => drain("owned vector", VecReader::from_vec(v.clone()), &v, cut),
        5 => { let mut calls = vec![]; let m: Vec<(u32, usize)> = v.iter().enumerate().map(|(i, x)| (x * 2, i)).collect();
               let mut c = 0; let r = drain("mapped", (&v).read_symbols().map_symbols(|x| { calls.push(x); c += 1; (x * 2, c - 1) }), &m, cut);
               r.and_then(|_| if calls == v { Ok(()) } else { Err(format!("mapping over {:?} called with {:?}", v, calls)) }) }
        6 => { let bx: Box<dyn SymbolReader<u32>> = Box::new(VecReader::from_vec(v.clone())); drain("boxed", bx, &v, cut) }
        7 => { let f: Vec<u32> = v.iter().filter(|x| **x != 2).map(|x| x + 1).collect(); let c = cut.min(f.len()); drain("filter_map", v.iter().filter_map(|x| if *x != 2 { Some(x + 1) } else { None }), &f, c) }
        _ => { let mut rd = Counting::new(&v, Some(9)); let g = rd.to_vec(); if g == v && rd.reads == n + 1 { Ok(()) } else { Err(format!("to_vec over {:?} gives {:?} in {} reads", v, g, rd.reads)) } }
    };
    out(n > 0, r)
}
fn c26(ch: &mut Ch) -> Out {
    let mut a = letters(ch).0[..4 + ch.pick(2)].to_vec();
    a.sort();
    let w: Vec<char> = match ch.scaled(1100) { Some(k) if ch.flag() => (0..k).map(|_| *ch.of(&a)).collect(), _ => word(ch, &a, 5) };
    let s: String = w.iter().collect();
    let p = { let d = ch.pick(3); let q = pattern(ch, &a, d); if size(&q) > 40 { Pattern::Epsilon } else { q } };
    let k = ch.pick(14);
    let ws = { let mut x = words(&a, 3, 3); x.push(w.clone()); for i in 0..w.len() { let mut y = w.clone(); y.remove(i); x.push(y); } x.push([&w[..], &a[..1]].concat()); x };
    desc(format!("conversion {} of {:?} / {:?}", k, s, p));
    let lit = |what: &str, q: Pattern<char>| -> R { same_lang(what, &q, &ws, &|x| x == &w[..]) };
    let pat = |what: &str, q: Pattern<char>| -> R { same_lang(what, &q, &ws, &|x| in_lang(&p, x)) };
    let mach = |what: &str, m: Box<dyn StateMachine<SymbolRange<char>, u32>>, f: &dyn Fn(&[char]) -> bool| -> R {
        for x in &ws { let g = simulate(&*m, 0, x); let e: BTreeSet<u32> = if f(x) { std::iter::once(5).collect() } else { BTreeSet::new() }; ck!(g == e, "{} {:?}/{:?}: {:?} gives outputs {:?}, expected {:?}", what, s, p, x, g, e); }
        Ok(())
    };
    let r = match k {
        0 => lit("str to_pattern", s.as_str().to_pattern()),
        1 => lit("exactly(str)", exactly(s.as_str())),
        2 => lit("exactly(&[T])", exactly(&w[..])),
        3 => lit("exactly(&Vec)", exactly(&w)),
        4 => lit("Vec to_pattern", w.to_pattern()),
        5 => pat("exactly(pattern)", exactly(p.clone())),
        6 => pat("exactly(&pattern)", exactly(&p)),
        7 => pat("exactly(Box<pattern>)", exactly(Box::new(p.clone()))).and_then(|_| pat("Box to_pattern", Box::new(p.clone()).to_pattern())).and_then(|_| pat("to_pattern", p.to_pattern())),
        8 => mach("str to_ndfa", s.as_str().to_ndfa(5u32), &|x| x == &w[..]),
        9 => mach("slice to_ndfa", w[..].to_ndfa(5u32), &|x| x == &w[..]),
        10 => mach("pattern to_ndfa", p.to_ndfa(5u32), &|x| in_lang(&p, x)),
        11 => mach("&dyn ToPattern to_ndfa", (&w as &dyn ToPattern<char>).to_ndfa(5u32), &|x| x == &w[..]).and_then(|_| mach("&dyn ToPattern to_ndfa", (&p as &dyn ToPattern<char>).to_ndfa(5u32), &|x| in_lang(&p, x))),
        12 => lit("slice to_pattern", w[..].to_pattern()).and_then(|_| pat("exactly(&Box<pattern>)", exactly(&Box::new(p.clone())))).and_then(|_| lit("str into_pattern", s.as_str().into_pattern())),
        _ => (|| -> R { for x in &ws {
                let st: String = x.iter().collect();
                let g = matches(st.as_str(), s.as_str());
                let e = if x.starts_with(&w[..]) { Some(w.len()) } else { None };
                ck!(g == e, "matching {:?} against the string {:?} gives {:?}", st, s, g);
            } Ok(()) })(),
    };
    out(true, r)
}
