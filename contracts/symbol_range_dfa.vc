@@ prelude countable
use crate::countable::*;
@@ prelude dfa_builder
use crate::dfa_builder::*;
@@ prelude pattern_matcher
use crate::pattern_matcher::*;
@@ prelude symbol_range
use crate::symbol_range::*;
@@ prelude state_machine
use crate::state_machine::*;
@@ prelude
use std::cmp::Ordering;
/// the row leads from a symbol to a state
pub open spec fn hits<S: Ord>(row: Seq<(SymbolRange<S>, StateId)>, c: S, t: StateId) -> bool {
    exists|i: int| 0 <= i < row.len() && in_range((#[trigger] row[i]).0, c) && row[i].1 == t
}
/// sorted, non-empty and pairwise disjoint
pub open spec fn separate<S: Ord>(row: Seq<(SymbolRange<S>, StateId)>) -> bool {
    &&& forall|i: int| 0 <= i < row.len() ==> nonempty((#[trigger] row[i]).0)
    &&& forall|i: int, j: int| 0 <= i < j < row.len() ==> lt((#[trigger] row[i]).0.highest, (#[trigger] row[j]).0.lowest)
}
pub open spec fn same_hits<S: Ord>(a: Seq<(SymbolRange<S>, StateId)>, b: Seq<(SymbolRange<S>, StateId)>) -> bool {
    forall|c: S, t: StateId| hits(a, c, t) == hits(b, c, t)
}
impl<InputSymbol: Ord + Countable, OutputSymbol> SymbolRangeDfaBuilder<InputSymbol, OutputSymbol> {
    pub open spec fn end_of(&self, i: int) -> int { if i + 1 < self.states@.len() { self.states@[i + 1] as int } else { self.transitions@.len() as int } }
    pub open spec fn row(&self, i: int) -> Seq<(SymbolRange<InputSymbol>, StateId)> { self.transitions@.subrange(self.states@[i] as int, self.end_of(i)) }
    /// everything but the rows
    pub open spec fn frame(&self, d: Seq<DState<SymbolRange<InputSymbol>, OutputSymbol>>) -> bool {
        &&& self.states@.len() == d.len()
        &&& self.accept@.len() == d.len()
        &&& d.len() > 0 ==> self.states@[0] == 0
        &&& d.len() == 0 ==> self.transitions@.len() == 0
        &&& forall|i: int| 0 <= i < d.len() ==> self.accept@[i] == (#[trigger] d[i]).out
        &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] self.states@[i]) <= self.end_of(i) <= self.transitions@.len()
    }
}
pub proof fn rows_in_order<I: Ord + Countable, O>(b: SymbolRangeDfaBuilder<I, O>, d: Seq<DState<SymbolRange<I>, O>>, i: int, j: int)
    requires b.frame(d), 0 <= i <= j < d.len(),
    ensures b.states@[i] <= b.states@[j], i < j ==> b.end_of(i) <= b.states@[j],
    decreases j - i,
{
    if i < j { assert(b.states@[i] <= b.end_of(i)); rows_in_order(b, d, i + 1, j); }
}
/// the row leads to states below n
pub open spec fn targets_in<S: Ord>(row: Seq<(SymbolRange<S>, StateId)>, n: int) -> bool { forall|k: int| 0 <= k < row.len() ==> (#[trigger] row[k]).1 < n }
impl<InputSymbol: Ord, OutputSymbol> SymbolRangeDfa<InputSymbol, OutputSymbol> {
    pub open spec fn n(&self) -> int { self.accept@.len() as int }
    pub open spec fn row(&self, i: int) -> Seq<(SymbolRange<InputSymbol>, StateId)> { self.transitions@.subrange(self.states@[i] as int, self.states@[i + 1] as int) }
    /// rows lie within the table one after the other
    pub open spec fn shape(&self) -> bool {
        &&& self.states@.len() == self.accept@.len() + 1
        &&& forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.states@[i]) <= self.states@[i + 1] <= self.transitions@.len()
    }
    pub open spec fn wf(&self) -> bool {
        &&& lawful_ord::<InputSymbol>()
        &&& self.shape()
        &&& 1 <= self.n() < StateId::MAX
        &&& forall|i: int| 0 <= i < self.n() ==> separate(#[trigger] self.row(i)) && targets_in(self.row(i), self.n())
    }
    /// where the machine goes on a symbol
    pub open spec fn dstep(&self, s: StateId, c: InputSymbol) -> Option<StateId> {
        if exists|t: StateId| hits(self.row(s as int), c, t) { Some(choose|t: StateId| hits(self.row(s as int), c, t)) } else { None }
    }
    /// where it is after a word
    pub open spec fn drun(&self, s: StateId, w: Seq<InputSymbol>) -> Option<StateId>
        decreases w.len()
    {
        if w.len() == 0 { Some(s) } else { match self.dstep(s, w[0]) { Some(t) => self.drun(t, w.drop_first()), None => None } }
    }
    /// the output on a prefix, if the machine accepts it
    pub open spec fn accepts(&self, s: StateId, w: Seq<InputSymbol>) -> Option<OutputSymbol> {
        match self.drun(s, w) { Some(t) => self.accept@[t as int], None => None }
    }
    /// the best prefix of w not shorter than the one found already
    pub open spec fn best(&self, s: StateId, count: int, found: Option<(int, OutputSymbol)>, w: Seq<InputSymbol>) -> Option<(int, OutputSymbol)>
        decreases w.len()
    {
        if w.len() == 0 { found } else {
            match self.dstep(s, w[0]) {
                None => found,
                Some(t) => self.best(t, count + 1, if self.accept@[t as int] is Some { Some((count + 1, self.accept@[t as int].unwrap())) } else { found }, w.drop_first()),
            }
        }
    }
    /// the longest prefix of w that the machine accepts, and its output
    pub open spec fn longest(&self, w: Seq<InputSymbol>, a: Option<(int, OutputSymbol)>) -> bool {
        match a {
            Some((n, o)) => 0 <= n <= w.len() && self.accepts(0, w.take(n)) == Some(o) && forall|m: int| n < m <= w.len() ==> self.accepts(0, #[trigger] w.take(m)) is None,
            None => forall|m: int| 0 <= m <= w.len() ==> self.accepts(0, #[trigger] w.take(m)) is None,
        }
    }
}
/// a new builder has been told nothing
pub proof fn fresh_models<I: Ord + Clone + Countable, O>(b: SymbolRangeDfaBuilder<I, O>)
    requires lawful_sym::<I>(), b.states@.len() == 0, b.transitions@.len() == 0, b.accept@.len() == 0,
    ensures b.models(seq![]),
{}
/// two neighbours that lead to the same state and leave no symbol between them
pub open spec fn adjoin<S: Ord + Clone + Countable>(row: Seq<(SymbolRange<S>, StateId)>, k: int) -> bool {
    0 <= k && k + 1 < row.len() && row[k].1 == row[k + 1].1 && row[k + 1].0.lowest.idx() == row[k].0.highest.idx() + 1
}
/// ... taken as one
pub open spec fn fused<S: Ord>(row: Seq<(SymbolRange<S>, StateId)>, k: int) -> Seq<(SymbolRange<S>, StateId)> {
    row.update(k, (SymbolRange { lowest: row[k].0.lowest, highest: row[k + 1].0.highest }, row[k].1)).remove(k + 1)
}
pub proof fn fuse<S: Ord + Clone + Countable>(row: Seq<(SymbolRange<S>, StateId)>, k: int)
    requires lawful_sym::<S>(), separate(row), adjoin(row, k),
    ensures separate(fused(row, k)), same_hits(fused(row, k), row),
{
    let f = fused(row, k);
    assert forall|c: S, t: StateId| hits(f, c, t) == hits(row, c, t) by {
        if hits(f, c, t) {
            let i = choose|i: int| 0 <= i < f.len() && in_range((#[trigger] f[i]).0, c) && f[i].1 == t;
            if i < k { assert(in_range(row[i].0, c)); } else if i > k { assert(in_range(row[i + 1].0, c)); } else {
                if le(c, row[k].0.highest) { assert(in_range(row[k].0, c)); } else { assert(row[k + 1].0.lowest.idx() <= c.idx()); assert(le(row[k + 1].0.lowest, c)); assert(in_range(row[k + 1].0, c)); }
            }
        }
        if hits(row, c, t) {
            let i = choose|i: int| 0 <= i < row.len() && in_range((#[trigger] row[i]).0, c) && row[i].1 == t;
            assert(nonempty(row[k].0) && nonempty(row[k + 1].0));
            if i < k { assert(in_range(f[i].0, c)); } else if i > k + 1 { assert(in_range(f[i - 1].0, c)); } else { assert(in_range(f[k].0, c)); }
        }
    }
    assert(nonempty(row[k].0) && nonempty(row[k + 1].0));
    assert forall|i: int| 0 <= i < f.len() implies nonempty((#[trigger] f[i]).0) by { if i < k { assert(nonempty(row[i].0)); } else if i > k { assert(nonempty(row[i + 1].0)); } }
    assert forall|i: int, j: int| 0 <= i < j < f.len() implies lt((#[trigger] f[i]).0.highest, (#[trigger] f[j]).0.lowest) by {
        let (a, b) = (if i < k { i } else { i + 1 }, if j <= k { j } else { j + 1 });
        assert(lt(row[a].0.highest, row[b].0.lowest));
    }
}
/// a separate row leads to at most one state
pub proof fn one_hit<S: Ord>(row: Seq<(SymbolRange<S>, StateId)>, c: S, t: StateId, u: StateId)
    requires lawful_ord::<S>(), separate(row), hits(row, c, t), hits(row, c, u),
    ensures t == u,
{
    let i = choose|i: int| 0 <= i < row.len() && in_range((#[trigger] row[i]).0, c) && row[i].1 == t;
    let j = choose|j: int| 0 <= j < row.len() && in_range((#[trigger] row[j]).0, c) && row[j].1 == u;
    if i < j { assert(le(row[j].0.lowest, c) && le(c, row[i].0.highest)); assert(lt(row[i].0.highest, row[j].0.lowest)); }
    if j < i { assert(le(row[i].0.lowest, c) && le(c, row[j].0.highest)); assert(lt(row[j].0.highest, row[i].0.lowest)); }
}
/// the recursive search for the best prefix finds the longest accepted one
pub proof fn best_is_longest<I: Ord, O>(dfa: &SymbolRangeDfa<I, O>, s: StateId, count: int, found: Option<(int, O)>, w: Seq<I>)
    requires count >= 0,
    ensures
        match dfa.best(s, count, found, w) {
            Some((n, o)) => (found == Some((n, o)) && forall|m: int| 0 < m <= w.len() ==> dfa.accepts(s, #[trigger] w.take(m)) is None)
                || (count < n <= count + w.len() && dfa.accepts(s, w.take(n - count)) == Some(o) && forall|m: int| n - count < m <= w.len() ==> dfa.accepts(s, #[trigger] w.take(m)) is None),
            None => found is None && forall|m: int| 0 < m <= w.len() ==> dfa.accepts(s, #[trigger] w.take(m)) is None,
        },
    decreases w.len(),
{
    if w.len() > 0 {
        assert forall|m: int| 0 < m <= w.len() implies (#[trigger] w.take(m)).drop_first() == w.drop_first().take(m - 1) && w.take(m)[0] == w[0] by {
            assert(w.take(m).drop_first() =~= w.drop_first().take(m - 1));
        }
        match dfa.dstep(s, w[0]) {
            None => {}
            Some(t) => {
                let f1 = if dfa.accept@[t as int] is Some { Some((count + 1, dfa.accept@[t as int].unwrap())) } else { found };
                best_is_longest(dfa, t, count + 1, f1, w.drop_first());
                assert(w.drop_first().take(0) =~= Seq::<I>::empty());
                assert(dfa.accepts(t, w.drop_first().take(0)) == dfa.accept@[t as int]);
                assert forall|m: int| 0 < m <= w.len() implies dfa.accepts(s, #[trigger] w.take(m)) == dfa.accepts(t, w.drop_first().take(m - 1)) by {}
                let r = dfa.best(s, count, found, w);
                assert(r == dfa.best(t, count + 1, f1, w.drop_first()));
                match r {
                    Some((n, o)) => {
                        if f1 == Some((n, o)) && (forall|m: int| 0 < m <= w.drop_first().len() ==> dfa.accepts(t, #[trigger] w.drop_first().take(m)) is None) {
                            assert forall|m: int| 1 < m <= w.len() implies dfa.accepts(s, #[trigger] w.take(m)) is None by { assert(dfa.accepts(t, w.drop_first().take(m - 1)) is None); }
                            assert(dfa.accepts(s, w.take(1)) == dfa.accept@[t as int]);
                        } else {
                            assert(dfa.accepts(s, w.take(n - count)) == Some(o));
                            assert forall|m: int| n - count < m <= w.len() implies dfa.accepts(s, #[trigger] w.take(m)) is None by { assert(dfa.accepts(t, w.drop_first().take(m - 1)) is None); }
                        }
                    }
                    None => {
                        assert forall|m: int| 0 < m <= w.len() implies dfa.accepts(s, #[trigger] w.take(m)) is None by {
                            if m == 1 {} else { assert(dfa.accepts(t, w.drop_first().take(m - 1)) is None); }
                        }
                    }
                }
            }
        }
    }
}
/// C11: what a run from the start reports is the longest accepted prefix
pub proof fn start_is_longest<I: Ord, O>(dfa: &SymbolRangeDfa<I, O>, w: Seq<I>)
    ensures dfa.longest(w, dfa.best(0, 0, if dfa.accept@[0] is Some { Some((0, dfa.accept@[0].unwrap())) } else { None }, w)),
{
    let f = if dfa.accept@[0] is Some { Some((0int, dfa.accept@[0].unwrap())) } else { None };
    best_is_longest(dfa, 0, 0, f, w);
    assert(w.take(0) =~= Seq::<I>::empty());
    assert(dfa.accepts(0, w.take(0)) == dfa.accept@[0]);
    match dfa.best(0, 0, f, w) {
        Some((n, o)) => {}
        None => { assert forall|m: int| 0 <= m <= w.len() implies dfa.accepts(0, #[trigger] w.take(m)) is None by { if m == 0 {} } }
    }
}

@@ drop SymbolRangeDfa::description

@@ fn SymbolRangeDfaBuilder::new
@ret r
@spec
    ensures r.states@.len() == 0, r.transitions@.len() == 0, r.accept@.len() == 0,

@@ items DfaBuilder for SymbolRangeDfaBuilder
    open spec fn row_ok(row: Seq<(SymbolRange<InputSymbol>, StateId)>) -> bool { separate(row) }
    open spec fn models(&self, d: Seq<DState<SymbolRange<InputSymbol>, OutputSymbol>>) -> bool {
        &&& lawful_sym::<InputSymbol>()
        &&& self.frame(d)
        &&& forall|i: int| 0 <= i < d.len() ==> separate((#[trigger] d[i]).row) && separate(self.row(i)) && same_hits(self.row(i), d[i].row)
        &&& d.len() > 0 ==> self.row(d.len() - 1) == d.last().row
    }
    open spec fn built(r: SymbolRangeDfa<InputSymbol, OutputSymbol>, d: Seq<DState<SymbolRange<InputSymbol>, OutputSymbol>>) -> bool {
        &&& lawful_sym::<InputSymbol>()
        &&& r.shape()
        &&& r.n() == d.len()
        &&& forall|i: int| 0 <= i < d.len() ==> r.accept@[i] == (#[trigger] d[i]).out && separate(r.row(i)) && same_hits(r.row(i), d[i].row)
    }
@@ fn DfaBuilder for SymbolRangeDfaBuilder::start_state
@start
    proof { axiom_vec_len(&self.transitions); }
    let ghost d0 = choose|d: Seq<DState<SymbolRange<InputSymbol>, OutputSymbol>>| old(self).models(d);
    let ghost s0 = old(self).states@.last() as int;
    let ghost t0 = old(self).transitions@;
    let ghost row0 = t0.skip(s0);
    proof { if d0.len() > 0 { assert(old(self).row(d0.len() - 1) =~= row0); } }
@before loop 0
    proof { assert(separate(row0)); assert(self.transitions@ =~= t0.take(s0) + row0); }
@loop 0
    invariant
        lawful_sym::<InputSymbol>(),
        self.states == old(self).states, self.accept == old(self).accept,
        0 <= s0 <= t0.len(), s0 <= self.transitions@.len(), s0 < index,
        self.transitions@.len() <= t0.len(),
        row0 == t0.skip(s0), self.transitions@.take(s0) == t0.take(s0),
        separate(self.transitions@.skip(s0)), same_hits(self.transitions@.skip(s0), row0),
    decreases self.transitions@.len() - index,
@loop 0 start
    let ghost pre = self.transitions@;
    let ghost row = pre.skip(s0);
    let ghost k = index - 1 - s0;
    proof {
        lawful_range_clone::<InputSymbol>();
        assert(row[k] == pre[index - 1] && row[k + 1] == pre[index as int]);
        assert(lt(row[k].0.highest, row[k + 1].0.lowest));
    }
@loop 0 end
    proof {
        if self.transitions@ != pre {
            fuse(row, k);
            assert(self.transitions@.skip(s0) =~= fused(row, k));
            assert(self.transitions@.take(s0) =~= pre.take(s0));
        }
    }
@end
    proof {
        assert forall|d: Seq<DState<SymbolRange<InputSymbol>, OutputSymbol>>| #[trigger] old(self).models(d) implies self.models(d.push(blank())) by {
            let n = d.len() as int;
            let e = d.push(blank());
            assert(self.row(n) =~= Seq::empty());
            assert forall|i: int| 0 <= i < e.len() implies separate((#[trigger] e[i]).row) && separate(self.row(i)) && same_hits(self.row(i), e[i].row) by {
                if i < n - 1 {
                    assert(e[i] == d[i]);
                    assert(old(self).states@[i] <= old(self).end_of(i) <= old(self).states@[n - 1]) by { rows_in_order(*old(self), d, i + 1, n - 1); }
                    assert(self.row(i) =~= old(self).row(i)) by {
                        assert(self.transitions@.take(s0) == t0.take(s0));
                        assert forall|j: int| old(self).states@[i] <= j < old(self).end_of(i) implies self.transitions@[j] == t0[j] by { assert(self.transitions@.take(s0)[j] == t0.take(s0)[j]); }
                    }
                } else if i == n - 1 {
                    assert(e[i] == d[i]);
                    assert(self.row(i) =~= self.transitions@.skip(s0));
                    assert(old(self).row(i) =~= row0);
                }
            }
            assert forall|i: int| 0 <= i < e.len() implies (#[trigger] self.states@[i]) <= self.end_of(i) <= self.transitions@.len() by {
                if i < n { assert(old(self).states@[i] <= old(self).end_of(i)); rows_in_order(*old(self), d, i, n - 1); if i + 1 < n { rows_in_order(*old(self), d, i + 1, n - 1); } }
            }
            assert(self.frame(e));
        }
    }
@@ fn DfaBuilder for SymbolRangeDfaBuilder::transition
@start
    let ghost w0 = choose|d: Seq<DState<SymbolRange<InputSymbol>, OutputSymbol>>| #[trigger] old(self).models(d) && d.len() > 0 && separate(d.last().row.push((symbol, target_state)));
@end
    proof {
        assert forall|d: Seq<DState<SymbolRange<InputSymbol>, OutputSymbol>>| #[trigger] old(self).models(d) && d.len() > 0 implies self.models(more(d, symbol, target_state)) by {
            let n = d.len() as int;
            let e = more(d, symbol, target_state);
            assert(old(self).states@[n - 1] <= old(self).end_of(n - 1));
            assert(self.row(n - 1) =~= old(self).row(n - 1).push((symbol, target_state)));
            assert(w0.last().row == d.last().row);
            assert forall|i: int| 0 <= i < e.len() implies separate((#[trigger] e[i]).row) && separate(self.row(i)) && same_hits(self.row(i), e[i].row) by {
                if i < n - 1 {
                    assert(e[i] == d[i]);
                    rows_in_order(*old(self), d, i, n - 1);
                    assert(self.row(i) =~= old(self).row(i));
                }
            }
            assert forall|i: int| 0 <= i < e.len() implies (#[trigger] self.states@[i]) <= self.end_of(i) <= self.transitions@.len() by {
                rows_in_order(*old(self), d, i, n - 1);
                if i < n - 1 { rows_in_order(*old(self), d, i + 1, n - 1); }
            }
            assert forall|i: int| 0 <= i < e.len() implies self.accept@[i] == (#[trigger] e[i]).out by { if i < n - 1 { assert(e[i] == d[i]); } assert(self.accept@[i] == d[i].out); }
            assert(self.frame(e));
        }
    }
@@ fn DfaBuilder for SymbolRangeDfaBuilder::accept
@end
    proof {
        assert forall|d: Seq<DState<SymbolRange<InputSymbol>, OutputSymbol>>| #[trigger] old(self).models(d) && d.len() > 0 implies self.models(with_out(d, symbol)) by {
            let n = d.len() as int;
            let e = with_out(d, symbol);
            assert forall|i: int| 0 <= i < e.len() implies separate((#[trigger] e[i]).row) && separate(self.row(i)) && same_hits(self.row(i), e[i].row) by {
                if i < n - 1 { assert(e[i] == d[i]); } else { assert(e[i].row == d[i].row); }
                assert(self.row(i) =~= old(self).row(i));
            }
            assert forall|i: int| 0 <= i < e.len() implies (#[trigger] self.states@[i]) <= self.end_of(i) <= self.transitions@.len() by { assert(old(self).states@[i] <= old(self).end_of(i)); }
            assert forall|i: int| 0 <= i < e.len() implies self.accept@[i] == (#[trigger] e[i]).out by { if i < n - 1 { assert(e[i] == d[i]); } assert(old(self).accept@[i] == d[i].out); }
            assert(self.row(n - 1) =~= old(self).row(n - 1));
            assert(self.frame(e));
        }
    }
@@ fn DfaBuilder for SymbolRangeDfaBuilder::build
@ret r
@end
    proof {
        assert forall|d: Seq<DState<SymbolRange<InputSymbol>, OutputSymbol>>| #[trigger] self.models(d) implies Self::built(vx_r, d) by {
            assert forall|i: int| 0 <= i < d.len() implies (#[trigger] vx_r.states@[i]) <= vx_r.states@[i + 1] <= vx_r.transitions@.len() by { assert(self.states@[i] <= self.end_of(i)); }
            assert forall|i: int| 0 <= i < d.len() implies vx_r.accept@[i] == (#[trigger] d[i]).out && separate(vx_r.row(i)) && same_hits(vx_r.row(i), d[i].row) by {
                assert(vx_r.row(i) =~= self.row(i));
            }
        }
    }

@@ items StateMachine for SymbolRangeDfa
    open spec fn graph(&self) -> Graph<SymbolRange<InputSymbol>, OutputSymbol> {
        Graph {
            n: self.n(),
            edges: ISet::new(|e: (StateId, SymbolRange<InputSymbol>, StateId)| e.0 < self.n() && self.row(e.0 as int).contains((e.1, e.2))),
            joins: ISet::empty(),
            outs: IMap::new(|k: StateId| k < self.n() && self.accept@[k as int] is Some, |k: StateId| self.accept@[k as int].unwrap()),
        }
    }
    open spec fn sm_ok(&self) -> bool { self.wf() && lawful_clone::<InputSymbol>() }
@@ fn StateMachine for SymbolRangeDfa::count_states
@ret r
@@ fn StateMachine for SymbolRangeDfa::get_transitions_for_state
@ret r
@loop 0 it
    invariant
        self.sm_ok(), state < self.n(),
        start_index == self.states@[state as int], end_index == self.states@[state + 1], start_index <= end_index <= self.transitions@.len(),
        result@ == self.transitions@.subrange(start_index as int, start_index + it.index@),
@loop 0 start
    proof { lawful_range_clone::<InputSymbol>(); }
@loop 0 end
    proof { assert(result@ =~= self.transitions@.subrange(start_index as int, start_index + it.index@ + 1)); }
@end
    proof {
        assert(vx_r@ == self.row(state as int));
        assert forall|x: SymbolRange<InputSymbol>, t: StateId| #[trigger] vx_r@.contains((x, t)) <==> self.graph().moves(state, x, t) by {
            no_joins(self.graph(), state, state);
            if vx_r@.contains((x, t)) { assert(self.graph().joined(state, state) && self.graph().edges.contains((state, x, t))); }
            if self.graph().moves(state, x, t) {
                let m = choose|m: StateId| #[trigger] self.graph().joined(state, m) && self.graph().edges.contains((m, x, t));
                no_joins(self.graph(), state, m);
            }
        }
    }
@@ fn StateMachine for SymbolRangeDfa::output_symbol_for_state
@ret r
@end
    proof {
        no_joins(self.graph(), state, state);
        if vx_r is Some { assert(self.graph().joined(state, state) && self.graph().outs.contains_pair(state, *vx_r.unwrap())); }
        assert forall|o: OutputSymbol| self.graph().gives(state, o) implies vx_r is Some by {
            let m = choose|m: StateId| #[trigger] self.graph().joined(state, m) && self.graph().outs.contains_pair(m, o);
            no_joins(self.graph(), state, m);
        }
    }
@@ fn StateMachine for SymbolRangeDfa::output_symbols_for_state
@ret r
@end
    proof {
        no_joins(self.graph(), state, state);
        assert forall|o: OutputSymbol| self.graph().gives(state, o) implies exists|i: int| 0 <= i < vx_r@.len() && *#[trigger] vx_r@[i] == o by {
            let m = choose|m: StateId| #[trigger] self.graph().joined(state, m) && self.graph().outs.contains_pair(m, o);
            no_joins(self.graph(), state, m);
            assert(vx_r@.len() > 0);
            assert(self.graph().gives(state, *vx_r@[0]));
            let m2 = choose|m2: StateId| #[trigger] self.graph().joined(state, m2) && self.graph().outs.contains_pair(m2, *vx_r@[0]);
            no_joins(self.graph(), state, m2);
            assert(*vx_r@[0] == o);
        }
    }
@@ fn SymbolRangeDfa::start
@ret r
@spec
    requires self.wf(),
    ensures
        match r {
            MatchAction::More(s) => s.ms_ok() && s.seen() == 0 && forall|w: Seq<InputSymbol>| self.longest(w, #[trigger] s.answer(w)),
            _ => false,
        },
@end
    proof {
        assert forall|w: Seq<InputSymbol>| self.longest(w, #[trigger] vx_r->More_0.answer(w)) by { start_is_longest(self, w); }
    }
@@ items MatchingState for SymbolRangeState
    open spec fn answer(&self, rest: Seq<InputSymbol>) -> Option<(int, OutputSymbol)> {
        self.state_machine.best(self.state, self.count as int, match self.accept { Some((n, o)) => Some((n as int, *o)), None => None }, rest)
    }
    open spec fn seen(&self) -> int { self.count as int }
    open spec fn ms_ok(&self) -> bool {
        &&& self.state_machine.wf()
        &&& self.state < self.state_machine.n()
        &&& match self.accept { Some((n, _)) => n <= self.count, None => true }
    }
@@ fn MatchingState for SymbolRangeState::next
@ret r
@start
    proof { assert(self.state_machine.states@[self.state as int] <= self.state_machine.states@[self.state + 1]); }
    let ghost row = self.state_machine.row(self.state as int);
@loop 0 it
    invariant
        self.ms_ok(), self.seen() < usize::MAX,
        start_transition == self.state_machine.states@[self.state as int], end_transition == self.state_machine.states@[self.state + 1],
        start_transition <= end_transition <= self.state_machine.transitions@.len(),
        row == self.state_machine.row(self.state as int),
        forall|i: int| 0 <= i < it.index@ ==> !in_range((#[trigger] row[i]).0, symbol),
@loop 0 start
    proof { assert(row[it.index@] == self.state_machine.transitions@[it.index@ + start_transition]); }
@before return 0
    proof {
        assert(hits(row, symbol, new_state)) by { assert(in_range(row[it.index@].0, symbol)); }
        assert(self.state_machine.dstep(self.state, symbol) == Some(new_state)) by { one_hit(row, symbol, new_state, choose|t: StateId| hits(row, symbol, t)); }
        assert forall|w: Seq<InputSymbol>| (#[trigger] (seq![symbol] + w)).drop_first() == w && (seq![symbol] + w)[0] == symbol by { assert((seq![symbol] + w).drop_first() =~= w); }
    }
@after loop 0
    proof {
        assert(self.state_machine.dstep(self.state, symbol) is None) by {
            if exists|t: StateId| hits(row, symbol, t) {
                let t = choose|t: StateId| hits(row, symbol, t);
                let i = choose|i: int| 0 <= i < row.len() && in_range((#[trigger] row[i]).0, symbol) && row[i].1 == t;
                assert(!in_range(row[i].0, symbol));
            }
        }
        assert forall|w: Seq<InputSymbol>| #[trigger] self.answer(seq![symbol] + w) == self.answer(seq![]) by { assert((seq![symbol] + w)[0] == symbol); }
    }
@@ fn MatchingState for SymbolRangeState::finish
@ret r
