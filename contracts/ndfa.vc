@@ prelude state_machine
use crate::state_machine::*;
@@ prelude overlapping_symbols
use crate::overlapping_symbols::*;
@@ prelude countable
use crate::countable::*;
@@ prelude symbol_range
use crate::symbol_range::*;
@@ prelude symbol_range state_machine overlapping_symbols
use std::hash::*;
broadcast use vstd::std_specs::hash::group_hash_axioms;
pub open spec fn has_edge<I>(v: Seq<Vec<(I, StateId)>>, a: StateId, x: I, b: StateId) -> bool { a < v.len() && v[a as int]@.contains((x, b)) }
pub open spec fn has_join(v: Seq<Vec<StateId>>, a: StateId, b: StateId) -> bool { a < v.len() && v[a as int]@.contains(b) }
pub open spec fn edge_set<I>(v: Seq<Vec<(I, StateId)>>) -> ISet<(StateId, I, StateId)> { ISet::new(|e: (StateId, I, StateId)| has_edge(v, e.0, e.1, e.2)) }
pub open spec fn join_set(v: Seq<Vec<StateId>>) -> ISet<(StateId, StateId)> { ISet::new(|e: (StateId, StateId)| has_join(v, e.0, e.1)) }
pub open spec fn out_map<O>(m: Map<StateId, O>) -> IMap<StateId, O> { IMap::new(|s: StateId| m.contains_key(s), |s: StateId| m[s]) }
/// states below k that are not in the set
pub open spec fn unseen(s: Set<StateId>, k: nat) -> nat
    decreases k
{
    if k == 0 { 0 } else { unseen(s, (k - 1) as nat) + if k - 1 <= StateId::MAX && s.contains((k - 1) as StateId) { 0nat } else { 1nat } }
}
pub proof fn seen_one(s: Set<StateId>, x: StateId, k: nat)
    requires !s.contains(x),
    ensures unseen(s.insert(x), k) + (if x < k { 1nat } else { 0nat }) == unseen(s, k),
    decreases k,
{ if k > 0 { seen_one(s, x, (k - 1) as nat); } }
/// following one more join at the end
pub proof fn one_more<I, O>(g: Graph<I, O>, a: StateId, b: StateId, c: StateId, k: nat)
    requires g.hops(a, b, k), g.joins.contains((b, c)),
    ensures g.hops(a, c, k + 1),
    decreases k,
{
    if k == 0 { assert(g.hops(c, c, 0)); assert(g.joins.contains((a, c)) && g.hops(c, c, 0)); }
    else {
        let m = choose|m: StateId| #[trigger] g.joins.contains((a, m)) && g.hops(m, b, (k - 1) as nat);
        one_more(g, m, b, c, (k - 1) as nat);
        assert(g.joins.contains((a, m)) && g.hops(m, c, k));
    }
}
pub proof fn joined_more<I, O>(g: Graph<I, O>, a: StateId, b: StateId, c: StateId)
    requires g.joined(a, b), g.joins.contains((b, c)),
    ensures g.joined(a, c),
{ let k = choose|k: nat| g.hops(a, b, k); one_more(g, a, b, c, k); }
/// a set that holds b and every state its members are joined to holds everything b is joined to
pub proof fn all_hops<I, O>(g: Graph<I, O>, s: Set<StateId>, a: StateId, b: StateId, k: nat)
    requires s.contains(a), g.hops(a, b, k), forall|x: StateId, y: StateId| #![trigger g.joins.contains((x, y))] s.contains(x) && g.joins.contains((x, y)) ==> s.contains(y),
    ensures s.contains(b),
    decreases k,
{
    if k > 0 {
        let m = choose|m: StateId| #[trigger] g.joins.contains((a, m)) && g.hops(m, b, (k - 1) as nat);
        all_hops(g, s, m, b, (k - 1) as nat);
    }
}
/// every label holds a symbol
pub open spec fn ranges_ok<S: Ord, O>(g: Graph<SymbolRange<S>, O>) -> bool { forall|a: StateId, x: SymbolRange<S>, b: StateId| #[trigger] g.edges.contains((a, x, b)) ==> nonempty(x) }
/// two labels are the same or share no symbol
pub open spec fn apart<S: Ord, O>(g: Graph<SymbolRange<S>, O>) -> bool {
    forall|a: StateId, x: SymbolRange<S>, b: StateId, c: StateId, y: SymbolRange<S>, d: StateId| #[trigger] g.edges.contains((a, x, b)) && #[trigger] g.edges.contains((c, y, d)) ==> x == y || !share(x, y)
}
/// a transition of the state itself leads from it to the other state on the symbol
pub open spec fn leads<S: Ord, O>(g: Graph<SymbolRange<S>, O>, a: StateId, c: S, b: StateId) -> bool { exists|x: SymbolRange<S>| #[trigger] g.edges.contains((a, x, b)) && in_range(x, c) }
/// so does one of the state or one it is joined to
pub open spec fn goes<S: Ord, O>(g: Graph<SymbolRange<S>, O>, a: StateId, c: S, b: StateId) -> bool { exists|x: SymbolRange<S>| #[trigger] g.moves(a, x, b) && in_range(x, c) }
/// the row holds the pieces of the old row's ranges
pub open spec fn split_row<S: Ord>(pieces: Seq<SymbolRange<S>>, old: Seq<(SymbolRange<S>, StateId)>, new: Seq<(SymbolRange<S>, StateId)>) -> bool {
    forall|x: SymbolRange<S>, t: StateId| #[trigger] new.contains((x, t)) <==> holds(pieces, x) && exists|y: SymbolRange<S>| #[trigger] old.contains((y, t)) && share(x, y)
}
pub open spec fn same_leads<S: Ord, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>) -> bool {
    h.n == g.n && h.joins == g.joins && h.outs == g.outs && forall|a: StateId, c: S, b: StateId| leads(h, a, c, b) == leads(g, a, c, b)
}
pub proof fn hops_same<I, J, O, P>(g: Graph<I, O>, h: Graph<J, P>, a: StateId, b: StateId, k: nat)
    requires g.joins == h.joins,
    ensures g.hops(a, b, k) == h.hops(a, b, k),
    decreases k,
{
    if k > 0 {
        if g.hops(a, b, k) { let m = choose|m: StateId| #[trigger] g.joins.contains((a, m)) && g.hops(m, b, (k - 1) as nat); hops_same(g, h, m, b, (k - 1) as nat); assert(h.joins.contains((a, m))); }
        if h.hops(a, b, k) { let m = choose|m: StateId| #[trigger] h.joins.contains((a, m)) && h.hops(m, b, (k - 1) as nat); hops_same(g, h, m, b, (k - 1) as nat); assert(g.joins.contains((a, m))); }
    }
}
pub proof fn joined_same<I, J, O, P>(g: Graph<I, O>, h: Graph<J, P>, a: StateId, b: StateId)
    requires g.joins == h.joins,
    ensures g.joined(a, b) == h.joined(a, b),
{
    if g.joined(a, b) { let k = choose|k: nat| g.hops(a, b, k); hops_same(g, h, a, b, k); }
    if h.joined(a, b) { let k = choose|k: nat| h.hops(a, b, k); hops_same(g, h, a, b, k); }
}
/// C05: joined states go on each symbol exactly where they did before
pub proof fn same_goes<S: Ord, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>, a: StateId, c: S, b: StateId)
    requires same_leads(g, h),
    ensures goes(g, a, c, b) == goes(h, a, c, b),
{
    if goes(g, a, c, b) { half_goes(g, h, a, c, b); }
    if goes(h, a, c, b) { half_goes(h, g, a, c, b); }
}
proof fn half_goes<S: Ord, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>, a: StateId, c: S, b: StateId)
    requires same_leads(g, h), goes(g, a, c, b),
    ensures goes(h, a, c, b),
{
    let x = choose|x: SymbolRange<S>| #[trigger] g.moves(a, x, b) && in_range(x, c);
    let m = choose|m: StateId| #[trigger] g.joined(a, m) && g.edges.contains((m, x, b));
    assert(leads(g, m, c, b));
    assert(leads(h, m, c, b));
    let y = choose|y: SymbolRange<S>| #[trigger] h.edges.contains((m, y, b)) && in_range(y, c);
    joined_same(g, h, a, m);
    assert(h.joined(a, m) && h.edges.contains((m, y, b)));
    assert(h.moves(a, y, b));
}
/// the whole table: every state's row holds the pieces of its old row's ranges
pub proof fn table_split<S: Ord + Clone + Countable, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>, ranges: Seq<SymbolRange<S>>, pieces: Seq<SymbolRange<S>>, t0: Seq<Vec<(SymbolRange<S>, StateId)>>, t1: Seq<Vec<(SymbolRange<S>, StateId)>>)
    requires
        lawful_sym::<S>(), g.edges == edge_set(t0), h.edges == edge_set(t1), ranges_ok(g), exact_split(ranges, pieces), t1.len() == t0.len(),
        forall|i: int| 0 <= i < t0.len() ==> split_row(pieces, (#[trigger] t0[i])@, t1[i]@),
        forall|a: StateId, x: SymbolRange<S>, b: StateId| #[trigger] has_edge(t0, a, x, b) ==> holds(ranges, x),
        h.n == g.n, h.joins == g.joins, h.outs == g.outs,
    ensures ranges_ok(h), apart(h), same_leads(g, h),
{
    assert forall|a: StateId, x: SymbolRange<S>, b: StateId| #[trigger] h.edges.contains((a, x, b)) implies nonempty(x) && holds(pieces, x) by { assert(has_edge(t1, a, x, b)); assert(split_row(pieces, t0[a as int]@, t1[a as int]@)); }
    assert forall|a: StateId, x: SymbolRange<S>, b: StateId, c: StateId, y: SymbolRange<S>, d: StateId| #[trigger] h.edges.contains((a, x, b)) && #[trigger] h.edges.contains((c, y, d)) implies x == y || !share(x, y) by {
        let i = choose|i: int| 0 <= i < pieces.len() && #[trigger] pieces[i] == x;
        let j = choose|j: int| 0 <= j < pieces.len() && #[trigger] pieces[j] == y;
        share_iff_touches(x, y);
        if i < j { assert(lt(x.highest, y.lowest)); }
        if j < i { assert(lt(y.highest, x.lowest)); }
    }
    assert forall|a: StateId, c: S, b: StateId| leads(h, a, c, b) == leads(g, a, c, b) by {
        if a < t0.len() { assert(split_row(pieces, t0[a as int]@, t1[a as int]@)); }
        if leads(h, a, c, b) {
            let x = choose|x: SymbolRange<S>| #[trigger] h.edges.contains((a, x, b)) && in_range(x, c);
            assert(has_edge(t1, a, x, b));
            let y = choose|y: SymbolRange<S>| #[trigger] t0[a as int]@.contains((y, b)) && share(x, y);
            assert(has_edge(t0, a, y, b));
            assert(holds(ranges, y) && holds(pieces, x));
            let i = choose|i: int| 0 <= i < pieces.len() && #[trigger] pieces[i] == x;
            let k = choose|k: int| 0 <= k < ranges.len() && #[trigger] ranges[k] == y;
            assert(inside_or_outside(pieces[i], ranges[k]));
            let z = choose|z: S| in_range(x, z) && in_range(y, z);
            assert(in_range(y, c));
            assert(g.edges.contains((a, y, b)));
        }
        if leads(g, a, c, b) {
            let y = choose|y: SymbolRange<S>| #[trigger] g.edges.contains((a, y, b)) && in_range(y, c);
            assert(has_edge(t0, a, y, b));
            let k = choose|k: int| 0 <= k < ranges.len() && #[trigger] ranges[k] == y;
            assert(covers(ranges, c));
            assert(covers(pieces, c));
            let i = choose|i: int| 0 <= i < pieces.len() && in_range(#[trigger] pieces[i], c);
            let x = pieces[i];
            assert(share(x, y));
            assert(t0[a as int]@.contains((y, b)));
            assert(t1[a as int]@.contains((x, b)));
            assert(has_edge(t1, a, x, b));
            assert(h.edges.contains((a, x, b)));
        }
    }
}
impl<InputSymbol: Clone, OutputSymbol> Ndfa<InputSymbol, OutputSymbol> {
    /// everything found is joined to the state, and whatever a found state is joined to is found or still to be visited
    pub open spec fn closing(&self, state: StateId, seen: Set<StateId>, stack: Seq<StateId>) -> bool {
        &&& forall|x: StateId| #[trigger] seen.contains(x) ==> self.graph().joined(state, x)
        &&& forall|i: int| 0 <= i < stack.len() ==> self.graph().joined(state, #[trigger] stack[i])
        &&& forall|x: StateId, y: StateId| #![trigger has_join(self.joined_with@, x, y)] seen.contains(x) && has_join(self.joined_with@, x, y) ==> seen.contains(y) || stack.contains(y)
        &&& seen.contains(state) || stack.contains(state)
    }
}

@@ fn Ndfa::new
@ret r
@spec
    requires lawful_clone::<InputSymbol>(),
    ensures r.sm_ok(), r.graph() == (Graph::<InputSymbol, OutputSymbol> { n: 1, edges: ISet::empty(), joins: ISet::empty(), outs: IMap::empty() }),
@end
    proof {
        assert(vx_r.graph().edges =~= ISet::empty());
        assert(vx_r.graph().joins =~= ISet::empty());
        assert(vx_r.graph().outs =~= IMap::empty());
    }

@@ fn Ndfa::get_join_closure
@ret r
@spec
    ensures forall|m: StateId| #[trigger] r@.contains(m) <==> self.graph().joined(state, m),
@before loop 0
    proof { joined_self(self.graph(), state); assert(stack@[0] == state); }
    let ghost mut whole = stack@;
@loop 0
    invariant self.closing(state, result@, stack@), whole == stack@,
    ensures stack@.len() == 0,
    decreases unseen(result@, self.joined_with@.len()), stack@.len(),
@loop 0 start
    let ghost before = stack@.push(next_state);
    let ghost seen0 = result@;
    proof {
        assert(before =~= whole);
        assert(before[before.len() - 1] == next_state);
        assert forall|y: StateId| before.contains(y) implies y == next_state || stack@.contains(y) by {
            let i = choose|i: int| 0 <= i < before.len() && before[i] == y;
            if i < stack@.len() { assert(stack@[i] == y); }
        }
        assert forall|i: int| 0 <= i < stack@.len() implies self.graph().joined(state, #[trigger] stack@[i]) by { assert(before[i] == stack@[i]); }
    }
    let ghost rest = stack@;
@after call insert
    proof { seen_one(seen0, next_state, self.joined_with@.len()); }
@before loop 1
    let ghost js = join_states@;
@loop 1 it
    invariant
        next_state < self.joined_with@.len(), js == self.joined_with@[next_state as int]@, it.seq().len() == js.len(), forall|i: int| 0 <= i < js.len() ==> *#[trigger] it.seq()[i] == js[i],
        stack@ == rest + js.take(it.index@),
@loop 1 end
    proof { assert(js.take(it.index@ + 1) =~= js.take(it.index@).push(js[it.index@])); }
@loop 0 end
    proof {
        whole = stack@;
        if seen0.contains(next_state) {
            assert(result@ == seen0);
        } else {
            let js = if next_state < self.joined_with@.len() { self.joined_with@[next_state as int]@ } else { Seq::<StateId>::empty() };
            assert(stack@ =~= rest + js);
            assert forall|i: int| 0 <= i < stack@.len() implies self.graph().joined(state, #[trigger] stack@[i]) by {
                if i >= rest.len() {
                    let c = js[i - rest.len()];
                    assert(js.contains(c));
                    assert(has_join(self.joined_with@, next_state, c));
                    assert(self.graph().joins.contains((next_state, c)));
                    joined_more(self.graph(), state, next_state, c);
                }
            }
            assert forall|y: StateId| rest.contains(y) implies stack@.contains(y) by { let i = choose|i: int| 0 <= i < rest.len() && rest[i] == y; assert(stack@[i] == y); }
            assert forall|x: StateId, y: StateId| #![trigger has_join(self.joined_with@, x, y)] result@.contains(x) && has_join(self.joined_with@, x, y) implies result@.contains(y) || stack@.contains(y) by {
                if x == next_state { let i = choose|i: int| 0 <= i < js.len() && js[i] == y; assert(stack@[rest.len() + i] == y); }
            }
        }
    }
@end
    proof {
        assert forall|m: StateId| #[trigger] vx_r@.contains(m) <==> self.graph().joined(state, m) by {
            if self.graph().joined(state, m) {
                let k = choose|k: nat| self.graph().hops(state, m, k);
                all_hops(self.graph(), vx_r@, state, m, k);
            }
        }
    }
@@ items StateMachine for Ndfa
    open spec fn graph(&self) -> Graph<InputSymbol, OutputSymbol> {
        Graph { n: self.max_state + 1, edges: edge_set(self.transitions@), joins: join_set(self.joined_with@), outs: out_map(self.output_symbols@) }
    }
    open spec fn sm_ok(&self) -> bool { self.max_state < StateId::MAX && lawful_clone::<InputSymbol>() && self.transitions@.len() <= self.max_state + 1 }

@@ fn StateMachine for Ndfa::get_transitions_for_state
@rewrite tuple_clone item
@before loop 0
    let ghost js = joined_states@;
@loop 0 it
    invariant
        lawful_clone::<InputSymbol>(), empty@.len() == 0, js == joined_states@,
        forall|m: StateId| #[trigger] js.contains(m) <==> self.graph().joined(state, m),
        it.seq().unref().to_set() =~= js,
        forall|x: InputSymbol, t: StateId| #[trigger] vx_out1@.contains((x, t)) ==> exists|m: StateId| #[trigger] js.contains(m) && has_edge(self.transitions@, m, x, t),
        forall|i: int, x: InputSymbol, t: StateId| 0 <= i < it.index@ && #[trigger] has_edge(self.transitions@, *it.seq()[i], x, t) ==> vx_out1@.contains((x, t)),
@loop 0 start
    let ghost out0 = vx_out1@;
    let ghost own = if *vx_x2 < self.transitions@.len() { self.transitions@[*vx_x2 as int]@ } else { Seq::<(InputSymbol, StateId)>::empty() };
    proof {
        let u = it.seq().unref();
        assert(u.to_set().contains(u[it.index@]));
        assert(u[it.index@] == *vx_x2);
        assert(js.contains(*vx_x2));
    }
@loop 1 it2
    invariant
        lawful_clone::<InputSymbol>(), it2.seq().len() == own.len(), forall|i: int| 0 <= i < own.len() ==> *#[trigger] it2.seq()[i] == own[i],
        vx_out1@ =~= out0 + own.take(it2.index@),
@loop 1 start
    proof { assert(*vx_z4 == own[it2.index@]); }
@loop 0 end
    proof {
        assert(own.take(own.len() as int) =~= own);
        assert(vx_out1@ =~= out0 + own);
        let ts = self.transitions@;
        assert forall|x: InputSymbol, t: StateId| own.contains((x, t)) == #[trigger] has_edge(ts, *vx_x2, x, t) by { }
        assert forall|x: InputSymbol, t: StateId| #[trigger] vx_out1@.contains((x, t)) == (out0.contains((x, t)) || own.contains((x, t))) by {
            let w = vx_out1@;
            if w.contains((x, t)) { let i = choose|i: int| 0 <= i < w.len() && w[i] == (x, t); if i < out0.len() { assert(out0[i] == (x, t)); } else { assert(own[i - out0.len()] == (x, t)); } }
            if out0.contains((x, t)) { let i = choose|i: int| 0 <= i < out0.len() && out0[i] == (x, t); assert(w[i] == (x, t)); }
            if own.contains((x, t)) { let i = choose|i: int| 0 <= i < own.len() && own[i] == (x, t); assert(w[out0.len() + i] == (x, t)); }
        }
    }
@end
    proof {
        assert forall|x: InputSymbol, t: StateId| #[trigger] vx_r@.contains((x, t)) <==> self.graph().moves(state, x, t) by {
            if vx_r@.contains((x, t)) {
                let m = choose|m: StateId| #[trigger] joined_states@.contains(m) && has_edge(self.transitions@, m, x, t);
                assert(self.graph().joined(state, m) && self.graph().edges.contains((m, x, t)));
            }
            if self.graph().moves(state, x, t) {
                let m = choose|m: StateId| #[trigger] self.graph().joined(state, m) && self.graph().edges.contains((m, x, t));
                assert(joined_states@.contains(m));
                assert(has_edge(self.transitions@, m, x, t));
            }
        }
    }
@@ fn StateMachine for Ndfa::output_symbol_for_state
@rewrite for 0 vx_members
@start
    proof { joined_self(self.graph(), state); }
@loop 0 it
    invariant
        forall|m: StateId| it.seq().to_set().contains(m) <==> #[trigger] self.graph().joined(state, m),
        forall|i: int| 0 <= i < it.index@ ==> !self.output_symbols@.contains_key(#[trigger] it.seq()[i]),
@loop 0 start
    proof { assert(it.seq().to_set().contains(it.seq()[it.index@])); assert(self.graph().joined(state, joined)); }
@before return 0
    proof { assert(self.graph().outs.contains_pair(joined, *result.unwrap())); }
@end
    proof {
        assert(vx_r is Some ==> self.graph().joined(state, state) && self.graph().outs.contains_pair(state, *vx_r.unwrap()));
        if vx_r is None {
            assert forall|o: OutputSymbol| !self.graph().gives(state, o) by {
                if self.graph().gives(state, o) { let m = choose|m: StateId| #[trigger] self.graph().joined(state, m) && self.graph().outs.contains_pair(m, o); assert(self.output_symbols@.contains_key(m)); }
            }
        }
    }
@@ fn StateMachine for Ndfa::output_symbols_for_state
@rewrite for 0 vx_members
@rewrite type result Vec<&OutputSymbol>
@loop 0 it
    invariant
        forall|m: StateId| it.seq().to_set().contains(m) <==> #[trigger] self.graph().joined(state, m),
        forall|i: int| 0 <= i < result@.len() ==> self.graph().gives(state, *#[trigger] result@[i]),
        forall|k: int| 0 <= k < it.index@ && self.output_symbols@.contains_key(#[trigger] it.seq()[k]) ==> exists|i: int| 0 <= i < result@.len() && *#[trigger] result@[i] == self.output_symbols@[it.seq()[k]],
@loop 0 start
    let ghost r0 = result@;
    proof { assert(it.seq().to_set().contains(it.seq()[it.index@])); assert(self.graph().joined(state, joined)); }
@loop 0 end
    proof {
        if self.output_symbols@.contains_key(joined) {
            assert(self.graph().outs.contains_pair(joined, self.output_symbols@[joined]));
            assert(*result@[r0.len() as int] == self.output_symbols@[joined]);
        }
        assert forall|k: int| 0 <= k < it.index@ && self.output_symbols@.contains_key(#[trigger] it.seq()[k]) implies exists|i: int| 0 <= i < result@.len() && *#[trigger] result@[i] == self.output_symbols@[it.seq()[k]] by {
            let i = choose|i: int| 0 <= i < r0.len() && *#[trigger] r0[i] == self.output_symbols@[it.seq()[k]];
            assert(result@[i] == r0[i]);
        }
    }
@after loop 0
    proof {
        assert forall|o: OutputSymbol| self.graph().gives(state, o) implies exists|i: int| 0 <= i < result@.len() && *#[trigger] result@[i] == o by {
            let m = choose|m: StateId| #[trigger] self.graph().joined(state, m) && self.graph().outs.contains_pair(m, o);
        }
    }
@@ fn MutableStateMachine for Ndfa::add_transition
@start
    let ghost t0 = self.transitions@;
    let ghost g0 = self.graph();
@loop 0
    invariant
        t0.len() <= self.transitions@.len(), self.transitions@.len() <= self.max_state + 1, forall|i: int| 0 <= i < t0.len() ==> #[trigger] self.transitions@[i] == t0[i],
        forall|i: int| t0.len() <= i < self.transitions@.len() ==> (#[trigger] self.transitions@[i])@.len() == 0,
        self.joined_with@ == old(self).joined_with@, self.output_symbols@ == old(self).output_symbols@, self.max_state == top(top(old(self).max_state + 1, new_state), state) - 1, state < StateId::MAX,
        g0 == old(self).graph(), t0 == old(self).transitions@,
    ensures self.transitions@.len() > state,
    decreases state + 1 - self.transitions@.len(),
@after loop 0
    let ghost t1 = self.transitions@;
@end
    proof {
        let e = (state, for_symbol, new_state);
        let t2 = self.transitions@;
        assert(t2[state as int]@ == t1[state as int]@.push((for_symbol, new_state)));
        assert forall|a: StateId, x: InputSymbol, b: StateId| has_edge(t2, a, x, b) <==> has_edge(t0, a, x, b) || (a, x, b) == e by {
            if a == state {
                let v1 = t1[state as int]@;
                let v2 = t2[state as int]@;
                if v2.contains((x, b)) { let i = choose|i: int| 0 <= i < v2.len() && v2[i] == (x, b); if i < v1.len() { assert(v1[i] == (x, b)); assert(v1.contains((x, b))); } }
                if v1.contains((x, b)) { let i = choose|i: int| 0 <= i < v1.len() && v1[i] == (x, b); assert(v2[i] == (x, b)); }
                assert(v2[v1.len() as int] == (for_symbol, new_state));
            } else if a < t2.len() { assert(t2[a as int] == t1[a as int]); }
            if has_edge(t0, a, x, b) { assert(t1[a as int] == t0[a as int]); }
            if has_edge(t1, a, x, b) { if a < t0.len() { assert(t1[a as int] == t0[a as int]); } else { assert(t1[a as int]@.len() == 0); assert(!t1[a as int]@.contains((x, b))); } }
        }
        assert(self.graph().edges =~= g0.edges.insert(e));
    }
@@ fn MutableStateMachine for Ndfa::set_output_symbol
@end
    proof { assert(self.graph().outs =~= old(self).graph().outs.insert(state, new_output_symbol)); }
@@ fn MutableStateMachine for Ndfa::join_states
@start
    let ghost t0 = self.joined_with@;
    let ghost g0 = self.graph();
@loop 0
    invariant
        t0.len() <= self.joined_with@.len(), forall|i: int| 0 <= i < t0.len() ==> #[trigger] self.joined_with@[i] == t0[i],
        forall|i: int| t0.len() <= i < self.joined_with@.len() ==> (#[trigger] self.joined_with@[i])@.len() == 0,
        old(self).sm_ok(), self.transitions@ == old(self).transitions@, self.output_symbols@ == old(self).output_symbols@, self.max_state == top(top(old(self).max_state + 1, first_state), second_state) - 1, first_state < StateId::MAX,
        g0 == old(self).graph(), t0 == old(self).joined_with@,
    ensures self.joined_with@.len() > first_state,
    decreases first_state + 1 - self.joined_with@.len(),
@after loop 0
    let ghost t1 = self.joined_with@;
@end
    proof {
        let e = (first_state, second_state);
        let t2 = self.joined_with@;
        assert(t2[first_state as int]@ == t1[first_state as int]@.push(second_state));
        assert forall|a: StateId, b: StateId| has_join(t2, a, b) <==> has_join(t0, a, b) || (a, b) == e by {
            if a == first_state {
                let v1 = t1[first_state as int]@;
                let v2 = t2[first_state as int]@;
                if v2.contains(b) { let i = choose|i: int| 0 <= i < v2.len() && v2[i] == b; if i < v1.len() { assert(v1[i] == b); assert(v1.contains(b)); } }
                if v1.contains(b) { let i = choose|i: int| 0 <= i < v1.len() && v1[i] == b; assert(v2[i] == b); }
                assert(v2[v1.len() as int] == second_state);
            } else if a < t2.len() { assert(t2[a as int] == t1[a as int]); }
            if has_join(t0, a, b) { assert(t1[a as int] == t0[a as int]); }
            if has_join(t1, a, b) { if a < t0.len() { assert(t1[a as int] == t0[a as int]); } else { assert(t1[a as int]@.len() == 0); assert(!t1[a as int]@.contains(b)); } }
        }
        assert(self.graph().joins =~= g0.joins.insert(e));
    }
@@ fn Ndfa::fix_overlapping_ranges
@rewrite type symbol_map SymbolMap<Symbol>
@rewrite type new_transitions Vec<Vec<(SymbolRange<Symbol>, StateId)>>
@rewrite type result Vec<(SymbolRange<Symbol>, StateId)>
@rewrite type vx_out1 Vec<(SymbolRange<Symbol>, StateId)>
@spec
    requires lawful_sym::<Symbol>(), old(self).sm_ok(), ranges_ok(old(self).graph()),
    ensures final(self).sm_ok(), ranges_ok(final(self).graph()), apart(final(self).graph()), same_leads(old(self).graph(), final(self).graph()),
@start
    let ghost ts = self.transitions@;
    proof { assert forall|a: StateId, x: SymbolRange<Symbol>, b: StateId| #[trigger] has_edge(ts, a, x, b) implies nonempty(x) by { assert(self.graph().edges.contains((a, x, b))); } }
@loop 0 it
    invariant
        lawful_sym::<Symbol>(), ts == self.transitions@, it.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> *#[trigger] it.seq()[i] == ts[i],
        ts.len() <= StateId::MAX, forall|a: StateId, x: SymbolRange<Symbol>, b: StateId| #[trigger] has_edge(ts, a, x, b) ==> nonempty(x),
        symbol_map.wf(), all_nonempty(symbol_map.ranges@),
        forall|a: StateId, x: SymbolRange<Symbol>, b: StateId| a < it.index@ && #[trigger] has_edge(ts, a, x, b) ==> holds(symbol_map.ranges@, x),
@loop 0 start
    let ghost here = it.index@;
    proof { assert(*transit == ts[here]); }
@loop 1 it2
    invariant
        lawful_sym::<Symbol>(), 0 <= here < ts.len(), ts.len() <= StateId::MAX, *transit == ts[here], it2.seq().len() == ts[here]@.len(), forall|i: int| 0 <= i < ts[here]@.len() ==> *#[trigger] it2.seq()[i] == ts[here]@[i],
        forall|a: StateId, x: SymbolRange<Symbol>, b: StateId| #[trigger] has_edge(ts, a, x, b) ==> nonempty(x),
        symbol_map.wf(), all_nonempty(symbol_map.ranges@),
        forall|a: StateId, x: SymbolRange<Symbol>, b: StateId| a < here && #[trigger] has_edge(ts, a, x, b) ==> holds(symbol_map.ranges@, x),
        forall|i: int| 0 <= i < it2.index@ ==> holds(symbol_map.ranges@, (#[trigger] ts[here]@[i]).0),
@loop 1 start
    let ghost map0 = symbol_map.ranges@;
    proof {
        let e = ts[here]@[it2.index@];
        assert(ts[here]@.contains(e));
        assert(has_edge(ts, here as StateId, e.0, e.1));
        assert(*range == e.0);
    }
@loop 1 end
    proof {
        assert forall|k: int| 0 <= k < symbol_map.ranges@.len() implies nonempty(#[trigger] symbol_map.ranges@[k]) by {
            let x = symbol_map.ranges@[k];
            assert(holds(symbol_map.ranges@, x));
            if holds(map0, x) { let j = choose|j: int| 0 <= j < map0.len() && #[trigger] map0[j] == x; }
        }
    }
@loop 0 end
    proof {
        assert forall|a: StateId, x: SymbolRange<Symbol>, b: StateId| a < here + 1 && #[trigger] has_edge(ts, a, x, b) implies holds(symbol_map.ranges@, x) by {
            if a == here { let i = choose|i: int| 0 <= i < ts[here]@.len() && ts[here]@[i] == (x, b); assert(holds(symbol_map.ranges@, ts[here]@[i].0)); }
        }
    }
@before loop 2
    let ghost pieces = no_overlapping.ranges@;
    let ghost ranges = symbol_map.ranges@;
@loop 2 it
    invariant
        lawful_sym::<Symbol>(), ts == self.transitions@, it.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> *#[trigger] it.seq()[i] == ts[i], ts.len() <= StateId::MAX,
        forall|a: StateId, x: SymbolRange<Symbol>, b: StateId| #[trigger] has_edge(ts, a, x, b) ==> nonempty(x),
        no_overlapping.wf(), pieces == no_overlapping.ranges@, exact_split(ranges, pieces),
        new_transitions@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> split_row(pieces, (#[trigger] ts[i])@, new_transitions@[i]@),
@loop 2 start
    let ghost here = it.index@;
    proof { assert(*transit == ts[here]); }
@loop 3 it3
    invariant
        lawful_sym::<Symbol>(), 0 <= here < ts.len(), ts.len() <= StateId::MAX, *transit == ts[here], it3.seq().len() == ts[here]@.len(), forall|i: int| 0 <= i < ts[here]@.len() ==> *#[trigger] it3.seq()[i] == ts[here]@[i],
        forall|a: StateId, x: SymbolRange<Symbol>, b: StateId| #[trigger] has_edge(ts, a, x, b) ==> nonempty(x),
        no_overlapping.wf(), pieces == no_overlapping.ranges@, exact_split(ranges, pieces),
        split_row(pieces, ts[here]@.take(it3.index@), vx_out1@),
@loop 3 start
    let ghost k = it3.index@;
    let ghost out0 = vx_out1@;
    proof {
        let e = ts[here]@[k];
        assert(ts[here]@.contains(e));
        assert(has_edge(ts, here as StateId, e.0, e.1));
        assert(*vx_x2 == e);
    }
@loop 4 it4
    invariant
        lawful_sym::<Symbol>(), *vx_x2 == ts[here]@[k], state == ts[here]@[k].1,
        forall|i: int| 0 <= i < it4.seq().len() ==> holds(pieces, *#[trigger] it4.seq()[i]) && share(*it4.seq()[i], ts[here]@[k].0),
        forall|j: int| #![trigger pieces[j]] 0 <= j < pieces.len() && share(pieces[j], ts[here]@[k].0) ==> exists|i: int| 0 <= i < it4.seq().len() && *#[trigger] it4.seq()[i] == pieces[j],
        result@.len() == it4.index@, forall|i: int| 0 <= i < it4.index@ ==> #[trigger] result@[i] == (*it4.seq()[i], state),
        it4.index@ == it4.seq().len() ==> forall|j: int| #![trigger pieces[j]] 0 <= j < pieces.len() && share(pieces[j], ts[here]@[k].0) ==> result@.contains((pieces[j], state)),
@loop 4 start
    proof { lawful_range_clone::<Symbol>(); }
@loop 4 end
    proof {
        assert forall|j: int| #![trigger pieces[j]] it4.index@ + 1 == it4.seq().len() && 0 <= j < pieces.len() && share(pieces[j], ts[here]@[k].0) implies result@.contains((pieces[j], state)) by {
            let i = choose|i: int| 0 <= i < it4.seq().len() && *#[trigger] it4.seq()[i] == pieces[j];
            assert(result@[i] == (pieces[j], state));
        }
    }
@loop 5 it5
    invariant vx_out1@ =~= out0 + it5.seq().take(it5.index@),
@before loop 5
    let ghost new = vx_it3@;
    proof {
        let y = ts[here]@[k].0;
        let st = ts[here]@[k].1;
        assert forall|x: SymbolRange<Symbol>, t: StateId| #[trigger] new.contains((x, t)) <==> holds(pieces, x) && share(x, y) && t == st by {
            if new.contains((x, t)) { let i = choose|i: int| 0 <= i < new.len() && new[i] == (x, t); }
            if holds(pieces, x) && share(x, y) && t == st {
                let j = choose|j: int| 0 <= j < pieces.len() && #[trigger] pieces[j] == x;
            }
        }
    }
@loop 3 end
    proof {
        assert(new.take(new.len() as int) =~= new);
        assert(vx_out1@ =~= out0 + new);
        let old_row = ts[here]@.take(k);
        let row = ts[here]@.take(k + 1);
        let e = ts[here]@[k];
        assert(row =~= old_row.push(e));
        let w = vx_out1@;
        assert forall|x: SymbolRange<Symbol>, t: StateId| #[trigger] w.contains((x, t)) <==> holds(pieces, x) && exists|y: SymbolRange<Symbol>| #[trigger] row.contains((y, t)) && share(x, y) by {
            assert(row[k] == e);
            if w.contains((x, t)) {
                let i = choose|i: int| 0 <= i < w.len() && w[i] == (x, t);
                if i < out0.len() {
                    assert(out0[i] == (x, t)); assert(out0.contains((x, t)));
                    let y = choose|y: SymbolRange<Symbol>| #[trigger] old_row.contains((y, t)) && share(x, y);
                    let q = choose|q: int| 0 <= q < old_row.len() && old_row[q] == (y, t);
                    assert(row[q] == (y, t));
                    assert(row.contains((y, t)));
                } else { assert(new[i - out0.len()] == (x, t)); assert(new.contains((x, t))); assert(row.contains((e.0, t))); }
            }
            if holds(pieces, x) && exists|y: SymbolRange<Symbol>| #[trigger] row.contains((y, t)) && share(x, y) {
                let y = choose|y: SymbolRange<Symbol>| #[trigger] row.contains((y, t)) && share(x, y);
                let q = choose|q: int| 0 <= q < row.len() && row[q] == (y, t);
                if q < k {
                    assert(old_row[q] == (y, t)); assert(old_row.contains((y, t)));
                    assert(out0.contains((x, t)));
                    let i = choose|i: int| 0 <= i < out0.len() && out0[i] == (x, t);
                    assert(w[i] == (x, t));
                } else {
                    assert(new.contains((x, t)));
                    let i = choose|i: int| 0 <= i < new.len() && new[i] == (x, t);
                    assert(w[out0.len() + i] == (x, t));
                }
            }
        }
    }
@loop 2 end
    proof { assert(ts[here]@.take(ts[here]@.len() as int) =~= ts[here]@); }
@end
    proof { table_split(old(self).graph(), self.graph(), ranges, pieces, ts, self.transitions@); }
