@@ prelude dfa_builder
use crate::dfa_builder::*;
@@ prelude state_machine
use crate::state_machine::*;
@@ prelude symbol_range
broadcast use vstd::std_specs::hash::group_hash_axioms;
use vstd::map::Map;
use vstd::seq_lib::group_to_multiset_ensures;
use vstd::std_specs::iter::IteratorSpec;
/// ascending, each once
pub open spec fn rising(s: Seq<StateId>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub open spec fn all_below(s: Seq<StateId>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < n }
/// every ascending sequence of states below n
pub open spec fn subsets(n: nat) -> Set<Seq<StateId>>
    decreases n
{
    if n == 0 { set![Seq::<StateId>::empty()] } else { subsets((n - 1) as nat).union(subsets((n - 1) as nat).map(|s: Seq<StateId>| s.push((n - 1) as StateId))) }
}
pub proof fn in_subsets(s: Seq<StateId>, n: nat)
    requires rising(s), all_below(s, n as int), n <= StateId::MAX,
    ensures subsets(n).contains(s),
    decreases n,
{
    if n == 0 { assert(s.len() == 0 || s[0] < 0); assert(s =~= Seq::empty()); }
    else {
        let f = |s: Seq<StateId>| s.push((n - 1) as StateId);
        if s.len() > 0 && s.last() == n - 1 {
            let h = s.drop_last();
            assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] < n - 1 by { assert(s[i] < s[s.len() - 1]); }
            in_subsets(h, (n - 1) as nat);
            assert(h.push((n - 1) as StateId) =~= s);
            assert(subsets((n - 1) as nat).map(f).contains(f(h)));
        } else {
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < n - 1 by { if i < s.len() - 1 { assert(s[i] < s[s.len() - 1]); } }
            in_subsets(s, (n - 1) as nat);
        }
    }
}
/// trusted: states are compared and hashed by the sequence they hold
pub axiom fn axiom_dfa_state()
    ensures
        vstd::std_specs::hash::obeys_key_model::<DfaState>(),
        forall|a: DfaState, b: DfaState| #![trigger a.source_states@, b.source_states@] a.source_states@ == b.source_states@ ==> a == b;
/// a transition of the row leads on x to a state holding t
pub open spec fn row_has<I>(row: Seq<(I, DfaState)>, x: I, t: StateId) -> bool { exists|i: int| 0 <= i < row.len() && (#[trigger] row[i]).0 == x && row[i].1.source_states@.contains(t) }
pub open spec fn filled<I>(row: Seq<(I, DfaState)>) -> bool { forall|i: int| 0 <= i < row.len() ==> (#[trigger] row[i]).1.source_states@.len() > 0 }
pub open spec fn labels_rise<I: Ord, T>(row: Seq<(I, T)>) -> bool { forall|i: int, j: int| 0 <= i < j < row.len() ==> lt((#[trigger] row[i]).0, (#[trigger] row[j]).0) }
pub open spec fn tidy<I>(row: Seq<(I, DfaState)>) -> bool { forall|i: int| 0 <= i < row.len() ==> rising((#[trigger] row[i]).1.source_states@) }
/// one of the states moves to t on x
pub open spec fn set_moves<I, O>(g: Graph<I, O>, s: Seq<StateId>, x: I, t: StateId) -> bool { exists|m: StateId| #[trigger] s.contains(m) && g.moves(m, x, t) }
pub open spec fn set_gives<I, O>(g: Graph<I, O>, s: Seq<StateId>, o: O) -> bool { exists|m: StateId| #[trigger] s.contains(m) && g.gives(m, o) }
/// o is the lowest output the states give
pub open spec fn lowest<I, O: Ord>(g: Graph<I, O>, s: Seq<StateId>, o: Option<O>) -> bool {
    match o {
        None => forall|p: O| !set_gives(g, s, p),
        Some(o) => set_gives(g, s, o) && forall|p: O| #[trigger] set_gives(g, s, p) ==> le(o, p),
    }
}
/// a deterministic state that stands for the states of sets[i]
pub open spec fn stands_for<I: Ord, O: Ord>(g: Graph<I, O>, d: DState<I, O>, sets: Seq<Seq<StateId>>, i: int) -> bool {
    &&& labels_rise(d.row)
    &&& forall|k: int| 0 <= k < d.row.len() ==> {
            let (x, j) = #[trigger] d.row[k];
            &&& j < sets.len()
            &&& sets[j as int].len() > 0
            &&& forall|t: StateId| #[trigger] sets[j as int].contains(t) <==> set_moves(g, sets[i], x, t)
        }
    &&& forall|x: I, t: StateId| #[trigger] set_moves(g, sets[i], x, t) ==> exists|k: int| 0 <= k < d.row.len() && (#[trigger] d.row[k]).0 == x
    &&& lowest(g, sets[i], d.out)
}
/// d is the subset construction of g: state i of it stands for the set sets[i] of states of g
pub open spec fn det<I: Ord, O: Ord>(g: Graph<I, O>, d: Seq<DState<I, O>>, sets: Seq<Seq<StateId>>) -> bool {
    &&& d.len() == sets.len() && d.len() > 0 && sets[0] == seq![0 as StateId]
    &&& forall|i: int| 0 <= i < sets.len() ==> #[trigger] stands_for(g, d[i], sets, i) && rising(sets[i]) && all_below(sets[i], g.n)
}
pub proof fn same_members(a: Seq<StateId>, b: Seq<StateId>)
    requires a.to_multiset() == b.to_multiset(),
    ensures forall|t: StateId| a.contains(t) <==> b.contains(t),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|t: StateId| a.contains(t) <==> b.contains(t) by { assert(a.contains(t) <==> a.to_multiset().count(t) > 0); assert(b.contains(t) <==> b.to_multiset().count(t) > 0); }
}
pub proof fn runs_rise(s: Seq<StateId>)
    requires forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j],
    ensures rising(deduped(s)), forall|t: StateId| deduped(s).contains(t) <==> s.contains(t), s.len() > 0 ==> deduped(s).len() > 0 && deduped(s).last() == s.last(),
    decreases s.len(),
{
    if s.len() > 1 {
        let h = s.drop_last();
        runs_rise(h);
        assert forall|t: StateId| deduped(s).contains(t) <==> s.contains(t) by {
            if s.contains(t) { let i = choose|i: int| 0 <= i < s.len() && s[i] == t; if i < h.len() { assert(h[i] == t); assert(h.contains(t)); } else { assert(s.last() == t); } }
            if h.contains(t) { let i = choose|i: int| 0 <= i < h.len() && h[i] == t; assert(s[i] == t); }
            if s.last() == s[s.len() - 2] { assert(h[h.len() - 1] == s.last()); assert(h.contains(s.last())); }
            else {
                let r = deduped(h);
                assert(r.push(s.last())[r.len() as int] == s.last());
                if r.contains(t) { let i = choose|i: int| 0 <= i < r.len() && r[i] == t; assert(r.push(s.last())[i] == t); }
                if r.push(s.last()).contains(t) { let i = choose|i: int| 0 <= i < r.push(s.last()).len() && r.push(s.last())[i] == t; if i < r.len() { assert(r[i] == t); } }
                assert(s[s.len() - 1] == s.last());
            }
        }
        if s.last() != s[s.len() - 2] {
            let r = deduped(h);
            assert(r.last() == h.last());
            assert forall|i: int, j: int| 0 <= i < j < r.push(s.last()).len() implies #[trigger] r.push(s.last())[i] < #[trigger] r.push(s.last())[j] by { if i < r.len() - 1 { assert(r[i] < r[r.len() - 1]); } }
        }
    }
}

pub proof fn one_has<I>(e: (I, DfaState))
    ensures forall|x: I, t: StateId| #[trigger] row_has(seq![e], x, t) <==> x == e.0 && e.1.source_states@.contains(t),
{
    assert forall|x: I, t: StateId| x == e.0 && e.1.source_states@.contains(t) implies #[trigger] row_has(seq![e], x, t) by { assert(seq![e][0].0 == x); }
}
pub proof fn take_has<I>(row: Seq<(I, DfaState)>, k: int)
    requires 0 <= k < row.len(),
    ensures forall|x: I, t: StateId| #[trigger] row_has(row.take(k + 1), x, t) <==> row_has(row.take(k), x, t) || (x == row[k].0 && row[k].1.source_states@.contains(t)),
{
    let a = row.take(k);
    let b = row.take(k + 1);
    assert forall|x: I, t: StateId| #[trigger] row_has(b, x, t) <==> row_has(a, x, t) || (x == row[k].0 && row[k].1.source_states@.contains(t)) by {
        if row_has(b, x, t) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == x && b[i].1.source_states@.contains(t); if i < k { assert(a[i] == b[i]); assert(a[i].0 == x); } }
        if row_has(a, x, t) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == x && a[i].1.source_states@.contains(t); assert(b[i] == a[i]); assert(b[i].0 == x); }
        assert(b[k] == row[k]);
    }
}
/// a and b hold the same transitions in some order
pub proof fn same_row<I>(a: Seq<(I, DfaState)>, b: Seq<(I, DfaState)>)
    requires a.to_multiset() == b.to_multiset(),
    ensures a.len() == b.len(), forall|x: I, t: StateId| #![trigger row_has(a, x, t)] #![trigger row_has(b, x, t)] row_has(a, x, t) <==> row_has(b, x, t), filled(a) ==> filled(b), filled(b) ==> filled(a),
{
    half_row(a, b);
    half_row(b, a);
}
proof fn half_row<I>(a: Seq<(I, DfaState)>, b: Seq<(I, DfaState)>)
    requires a.to_multiset() == b.to_multiset(),
    ensures a.len() == b.len(), forall|x: I, t: StateId| #[trigger] row_has(a, x, t) ==> row_has(b, x, t), filled(b) ==> filled(a),
{
    broadcast use group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by { assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); }
    assert forall|x: I, t: StateId| #[trigger] row_has(a, x, t) implies row_has(b, x, t) by {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == x && a[i].1.source_states@.contains(t);
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        assert(b[j].0 == x);
    }
    if filled(b) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).1.source_states@.len() > 0 by { let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j].1.source_states@.len() > 0); } }
}
/// the states of one transition sorted, the others kept
pub open spec fn row_tidied<I>(a: Seq<(I, DfaState)>, b: Seq<(I, DfaState)>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).0 == a[i].0 && rising(b[i].1.source_states@)
    &&& forall|i: int, t: StateId| 0 <= i < a.len() ==> (#[trigger] b[i].1.source_states@.contains(t) <==> a[i].1.source_states@.contains(t))
}
pub proof fn tidied_same<I: Ord>(a: Seq<(I, DfaState)>, b: Seq<(I, DfaState)>)
    requires row_tidied(a, b), labels_rise(a),
    ensures labels_rise(b), tidy(b), forall|x: I, t: StateId| #![trigger row_has(a, x, t)] #![trigger row_has(b, x, t)] row_has(a, x, t) <==> row_has(b, x, t), filled(a) ==> filled(b),
{
    assert forall|x: I, t: StateId| #[trigger] row_has(a, x, t) <==> row_has(b, x, t) by {
        if row_has(a, x, t) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == x && a[i].1.source_states@.contains(t); assert(b[i].0 == x && b[i].1.source_states@.contains(t)); }
        if row_has(b, x, t) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == x && b[i].1.source_states@.contains(t); assert(a[i].0 == x && a[i].1.source_states@.contains(t)); }
    }
    if filled(a) { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).1.source_states@.len() > 0 by { let t = a[i].1.source_states@[0]; assert(a[i].1.source_states@.contains(t)); assert(b[i].1.source_states@.contains(t)); } }
}
/// one more transition of the row, put with the last one if it has the same label
pub open spec fn one_merged<I>(old: Seq<(I, DfaState)>, e: (I, DfaState), new: Seq<(I, DfaState)>) -> bool {
    if old.len() > 0 && old.last().0 == e.0 {
        &&& new.len() == old.len()
        &&& forall|i: int| 0 <= i < old.len() - 1 ==> #[trigger] new[i] == old[i]
        &&& new.last().0 == e.0
        &&& new.last().1.source_states@ == old.last().1.source_states@ + e.1.source_states@
    } else {
        new == old.push((e.0, new.last().1)) && new.last().1.source_states@ == e.1.source_states@
    }
}
pub proof fn merged_has<I>(old: Seq<(I, DfaState)>, e: (I, DfaState), new: Seq<(I, DfaState)>)
    requires one_merged(old, e, new),
    ensures forall|x: I, t: StateId| #[trigger] row_has(new, x, t) <==> row_has(old, x, t) || (x == e.0 && e.1.source_states@.contains(t)), filled(old) && e.1.source_states@.len() > 0 ==> filled(new),
{
    let same = old.len() > 0 && old.last().0 == e.0;
    let k = new.len() - 1;
    assert forall|x: I, t: StateId| #[trigger] row_has(new, x, t) <==> row_has(old, x, t) || (x == e.0 && e.1.source_states@.contains(t)) by {
        let ns = new[k].1.source_states@;
        if same {
            let a = old[k].1.source_states@;
            let b = e.1.source_states@;
            assert(ns == a + b);
            assert(ns.contains(t) <==> a.contains(t) || b.contains(t)) by {
                if a.contains(t) { let i = choose|i: int| 0 <= i < a.len() && a[i] == t; assert(ns[i] == t); }
                if b.contains(t) { let i = choose|i: int| 0 <= i < b.len() && b[i] == t; assert(ns[a.len() + i] == t); }
            }
        } else { assert(new[k] == (e.0, new.last().1)); }
        if row_has(new, x, t) {
            let i = choose|i: int| 0 <= i < new.len() && (#[trigger] new[i]).0 == x && new[i].1.source_states@.contains(t);
            if i < k { assert(old[i] == new[i]); assert(old[i].0 == x); } else if same { assert(old[k].0 == x); }
        }
        if row_has(old, x, t) {
            let i = choose|i: int| 0 <= i < old.len() && (#[trigger] old[i]).0 == x && old[i].1.source_states@.contains(t);
            if i < k { assert(new[i] == old[i]); } else { assert(same); }
            assert(new[i].0 == x && new[i].1.source_states@.contains(t));
        }
        if x == e.0 && e.1.source_states@.contains(t) { assert(new[k].0 == x && new[k].1.source_states@.contains(t)); }
    }
    if filled(old) && e.1.source_states@.len() > 0 { assert forall|i: int| 0 <= i < new.len() implies (#[trigger] new[i]).1.source_states@.len() > 0 by { if i < k { assert(new[i] == old[i]); } else if same { assert(old[k].1.source_states@.len() > 0); } } }
}
/// the row that leads from the states of s: what `merge_states` leaves
pub open spec fn row_of<I: Ord, O>(g: Graph<I, O>, s: Seq<StateId>, row: Seq<(I, DfaState)>) -> bool {
    &&& labels_rise(row) && tidy(row) && filled(row)
    &&& forall|x: I, t: StateId| #[trigger] row_has(row, x, t) <==> set_moves(g, s, x, t)
}
pub open spec fn outs_of<I, O>(g: Graph<I, O>, s: Seq<StateId>, out: Seq<O>) -> bool { forall|o: O| #[trigger] out.contains(o) <==> set_gives(g, s, o) }
/// the states processed so far, and the sets of states they stand for
pub open spec fn processed<I: Ord, O: Ord>(g: Graph<I, O>, states: Seq<DfaTransitions<I, O>>, sets: Seq<Seq<StateId>>) -> bool {
    &&& states.len() == sets.len()
    &&& sets.len() > 0 ==> sets[0] == seq![0 as StateId]
    &&& forall|i: int| 0 <= i < sets.len() ==> rising(#[trigger] sets[i]) && all_below(sets[i], g.n)
    &&& forall|i: int| 0 <= i < sets.len() ==> row_of(g, sets[i], (#[trigger] states[i]).transitions@) && outs_of(g, sets[i], states[i].output@)
}
pub open spec fn numbered(known: Map<DfaState, StateId>, sets: Seq<Seq<StateId>>) -> bool {
    &&& forall|d: DfaState| #[trigger] known.contains_key(d) ==> (known[d] < sets.len() && sets[known[d] as int] == d.source_states@) || (sets.len() == 0 && d.source_states@ == seq![0 as StateId] && known[d] == 0)
    &&& forall|d: DfaState| #[trigger] sets.contains(d.source_states@) ==> known.contains_key(d)
}
pub open spec fn waiting(stack: Seq<DfaState>, n: int) -> bool { forall|i: int| 0 <= i < stack.len() ==> rising((#[trigger] stack[i]).source_states@) && all_below(stack[i].source_states@, n) }
/// every state a processed state leads to is processed or waiting
pub open spec fn followed<I, O: Ord>(states: Seq<DfaTransitions<I, O>>, known: Map<DfaState, StateId>, stack: Seq<DfaState>) -> bool {
    forall|i: int, j: int| #![trigger states[i].transitions@[j]] 0 <= i < states.len() && 0 <= j < states[i].transitions@.len() ==> known.contains_key(states[i].transitions@[j].1) || stack.contains(states[i].transitions@[j].1)
}
/// waiting states that are processed already
pub open spec fn again(stack: Seq<DfaState>, sets: Seq<Seq<StateId>>) -> nat
    decreases stack.len()
{
    if stack.len() == 0 { 0 } else { again(stack.drop_last(), sets) + if sets.contains(stack.last().source_states@) { 1nat } else { 0nat } }
}
pub open spec fn unprocessed(n: int, sets: Seq<Seq<StateId>>) -> nat { subsets(n as nat).difference(sets.to_set()).len() }
pub proof fn again_same(stack: Seq<DfaState>, a: Seq<Seq<StateId>>, b: Seq<Seq<StateId>>)
    requires forall|s: Seq<StateId>| a.contains(s) <==> b.contains(s),
    ensures again(stack, a) == again(stack, b),
    decreases stack.len(),
{ if stack.len() > 0 { again_same(stack.drop_last(), a, b); } }
/// processing s once more leaves one waiting processed state fewer; processing it for the first time leaves one unprocessed set fewer
pub proof fn step_down(n: int, sets: Seq<Seq<StateId>>, s: Seq<StateId>, stack: Seq<DfaState>)
    requires 0 <= n <= StateId::MAX, rising(s), all_below(s, n),
    ensures
        sets.contains(s) ==> unprocessed(n, sets.push(s)) == unprocessed(n, sets) && again(stack, sets.push(s)) == again(stack, sets),
        !sets.contains(s) ==> unprocessed(n, sets.push(s)) < unprocessed(n, sets),
{
    let more = sets.push(s);
    in_subsets(s, n as nat);
    assert(more[sets.len() as int] == s);
    assert forall|q: Seq<StateId>| more.contains(q) <==> sets.contains(q) || q == s by {
        if sets.contains(q) { let i = choose|i: int| 0 <= i < sets.len() && sets[i] == q; assert(more[i] == q); }
        if more.contains(q) { let i = choose|i: int| 0 <= i < more.len() && more[i] == q; if i < sets.len() { assert(sets[i] == q); } }
    }
    let all = subsets(n as nat);
    if sets.contains(s) {
        assert(all.difference(more.to_set()) =~= all.difference(sets.to_set()));
        again_same(stack, sets, more);
    } else {
        assert(all.difference(more.to_set()) =~= all.difference(sets.to_set()).remove(s));
        assert(all.difference(sets.to_set()).contains(s));
    }
}
pub proof fn one_state<I, O>(g: Graph<I, O>, s: Seq<StateId>, k: int)
    requires 0 <= k < s.len(),
    ensures
        forall|x: I, t: StateId| #[trigger] set_moves(g, s.take(k + 1), x, t) <==> set_moves(g, s.take(k), x, t) || g.moves(s[k], x, t),
        forall|o: O| #[trigger] set_gives(g, s.take(k + 1), o) <==> set_gives(g, s.take(k), o) || g.gives(s[k], o),
{
    let a = s.take(k);
    let b = s.take(k + 1);
    assert(b[k] == s[k]);
    assert forall|m: StateId| b.contains(m) <==> a.contains(m) || m == s[k] by {
        if a.contains(m) { let i = choose|i: int| 0 <= i < a.len() && a[i] == m; assert(b[i] == m); }
        if b.contains(m) { let i = choose|i: int| 0 <= i < b.len() && b[i] == m; if i < k { assert(a[i] == m); } }
    }
    assert forall|x: I, t: StateId| #[trigger] set_moves(g, b, x, t) <==> set_moves(g, a, x, t) || g.moves(s[k], x, t) by {
        if set_moves(g, b, x, t) { let m = choose|m: StateId| #[trigger] b.contains(m) && g.moves(m, x, t); if m != s[k] { assert(a.contains(m)); } }
        if set_moves(g, a, x, t) { let m = choose|m: StateId| #[trigger] a.contains(m) && g.moves(m, x, t); assert(b.contains(m)); }
        if g.moves(s[k], x, t) { assert(b.contains(s[k])); }
    }
    assert forall|o: O| #[trigger] set_gives(g, b, o) <==> set_gives(g, a, o) || g.gives(s[k], o) by {
        if set_gives(g, b, o) { let m = choose|m: StateId| #[trigger] b.contains(m) && g.gives(m, o); if m != s[k] { assert(a.contains(m)); } }
        if set_gives(g, a, o) { let m = choose|m: StateId| #[trigger] a.contains(m) && g.gives(m, o); assert(b.contains(m)); }
        if g.gives(s[k], o) { assert(b.contains(s[k])); }
    }
}
/// one more transition, to one state
pub proof fn push_has<I>(row: Seq<(I, DfaState)>, e: (I, DfaState), m: StateId)
    requires forall|t: StateId| e.1.source_states@.contains(t) <==> t == m,
    ensures forall|x: I, t: StateId| #[trigger] row_has(row.push(e), x, t) <==> row_has(row, x, t) || (x, t) == (e.0, m), filled(row) ==> filled(row.push(e)),
{
    let w = row.push(e);
    assert(w[row.len() as int] == e);
    assert(e.1.source_states@.contains(m));
    assert forall|x: I, t: StateId| #[trigger] row_has(w, x, t) <==> row_has(row, x, t) || (x, t) == (e.0, m) by {
        if row_has(row, x, t) { let i = choose|i: int| 0 <= i < row.len() && (#[trigger] row[i]).0 == x && row[i].1.source_states@.contains(t); assert(w[i] == row[i]); assert(w[i].0 == x); }
        if row_has(w, x, t) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == x && w[i].1.source_states@.contains(t); if i < row.len() { assert(w[i] == row[i]); assert(row[i].0 == x); } }
        if (x, t) == (e.0, m) { assert(w[row.len() as int].0 == x); }
    }
    if filled(row) { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).1.source_states@.len() > 0 by { if i < row.len() { assert(w[i] == row[i]); } } }
}
/// the members of a state of the row are the states the set moves to on its label
pub proof fn row_targets<I: Ord, O>(g: Graph<I, O>, s: Seq<StateId>, row: Seq<(I, DfaState)>, k: int)
    requires lawful_ord::<I>(), row_of(g, s, row), 0 <= k < row.len(),
    ensures forall|t: StateId| #[trigger] row[k].1.source_states@.contains(t) <==> set_moves(g, s, row[k].0, t),
{
    let x = row[k].0;
    assert forall|t: StateId| #[trigger] row[k].1.source_states@.contains(t) <==> set_moves(g, s, x, t) by {
        if row[k].1.source_states@.contains(t) { assert(row_has(row, x, t)); }
        if set_moves(g, s, x, t) {
            assert(row_has(row, x, t));
            let i = choose|i: int| 0 <= i < row.len() && (#[trigger] row[i]).0 == x && row[i].1.source_states@.contains(t);
            if i < k { assert(lt(row[i].0, row[k].0)); } else if k < i { assert(lt(row[k].0, row[i].0)); }
        }
    }
}
pub proof fn row_below<I: Ord, O>(g: Graph<I, O>, s: Seq<StateId>, row: Seq<(I, DfaState)>)
    requires lawful_ord::<I>(), g.closed(), row_of(g, s, row),
    ensures forall|k: int| 0 <= k < row.len() ==> rising((#[trigger] row[k]).1.source_states@) && all_below(row[k].1.source_states@, g.n),
{
    assert forall|k: int| 0 <= k < row.len() implies rising((#[trigger] row[k]).1.source_states@) && all_below(row[k].1.source_states@, g.n) by {
        row_targets(g, s, row, k);
        assert forall|i: int| 0 <= i < row[k].1.source_states@.len() implies #[trigger] row[k].1.source_states@[i] < g.n by {
            let t = row[k].1.source_states@[i];
            assert(row[k].1.source_states@.contains(t));
            let m = choose|m: StateId| #[trigger] s.contains(m) && g.moves(m, row[k].0, t);
            let j = choose|j: StateId| #[trigger] g.joined(m, j) && g.edges.contains((j, row[k].0, t));
        }
    }
}
pub open spec fn as_row<I>(row: Seq<(I, DfaState)>, known: Map<DfaState, StateId>) -> Seq<(I, StateId)> { Seq::new(row.len(), |k: int| (row[k].0, known[row[k].1])) }
/// the labels of the row are labels of g
pub open spec fn labelled<I, O>(g: Graph<I, O>, row: Seq<(I, StateId)>) -> bool { forall|k: int| 0 <= k < row.len() ==> is_label(g, (#[trigger] row[k]).0) }
pub open spec fn is_label<I, O>(g: Graph<I, O>, x: I) -> bool { exists|a: StateId, b: StateId| #[trigger] g.edges.contains((a, x, b)) }
pub proof fn row_labelled<I: Ord, O>(g: Graph<I, O>, s: Seq<StateId>, row: Seq<(I, DfaState)>, known: Map<DfaState, StateId>, n: int)
    requires lawful_ord::<I>(), row_of(g, s, row), 0 <= n <= row.len(),
    ensures labelled(g, as_row(row.take(n), known)), labels_rise(as_row(row.take(n), known)),
{
    let w = as_row(row.take(n), known);
    assert forall|k: int| 0 <= k < w.len() implies is_label(g, (#[trigger] w[k]).0) by {
        let t = row[k].1.source_states@[0];
        row_targets(g, s, row, k);
        assert(row[k].1.source_states@.contains(t));
        let m = choose|m: StateId| #[trigger] s.contains(m) && g.moves(m, row[k].0, t);
        let j = choose|j: StateId| #[trigger] g.joined(m, j) && g.edges.contains((j, row[k].0, t));
        assert(w[k].0 == row[k].0);
        assert(g.edges.contains((j, w[k].0, t)));
    }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies lt((#[trigger] w[i]).0, (#[trigger] w[j]).0) by { assert(lt(row[i].0, row[j].0)); }
}
/// everything is processed: the table is the subset construction
pub proof fn all_done<I: Ord, O: Ord>(g: Graph<I, O>, states: Seq<DfaTransitions<I, O>>, sets: Seq<Seq<StateId>>, known: Map<DfaState, StateId>, d: Seq<DState<I, O>>)
    requires
        lawful_ord::<I>(), processed(g, states, sets), numbered(known, sets), followed(states, known, seq![]), sets.len() > 0,
        d.len() == sets.len(), forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).row == as_row(states[i].transitions@, known) && lowest(g, sets[i], d[i].out),
    ensures det(g, d, sets),
{
    assert forall|i: int| 0 <= i < sets.len() implies #[trigger] stands_for(g, d[i], sets, i) && rising(sets[i]) && all_below(sets[i], g.n) by {
        let row = states[i].transitions@;
        let s = sets[i];
        assert(row_of(g, s, row));
        row_labelled(g, s, row, known, row.len() as int);
        assert(row.take(row.len() as int) =~= row);
        assert forall|k: int| 0 <= k < d[i].row.len() implies {
            let (x, j) = #[trigger] d[i].row[k];
            &&& j < sets.len()
            &&& sets[j as int].len() > 0
            &&& forall|t: StateId| #[trigger] sets[j as int].contains(t) <==> set_moves(g, sets[i], x, t)
        } by {
            assert(known.contains_key(states[i].transitions@[k].1));
            row_targets(g, s, row, k);
        }
        assert forall|x: I, t: StateId| #[trigger] set_moves(g, sets[i], x, t) implies exists|k: int| 0 <= k < d[i].row.len() && (#[trigger] d[i].row[k]).0 == x by {
            assert(row_has(row, x, t));
            let k = choose|k: int| 0 <= k < row.len() && (#[trigger] row[k]).0 == x && row[k].1.source_states@.contains(t);
            assert(d[i].row[k].0 == x);
        }
    }
}
/// trusted: fewer than StateId::MAX states fit in memory
pub axiom fn axiom_state_count<I, O: Ord>(v: &Vec<DfaTransitions<I, O>>)
    ensures v@.len() < StateId::MAX;

/// what compiling asks for: lawful symbols, a complete machine, a fresh builder that takes the machine's labels in ascending order
pub open spec fn compilable<I: Ord + Clone, O: Ord + Clone, DfaType, B: DfaBuilder<I, O, DfaType>>(g: Graph<I, O>, b: B) -> bool {
    &&& lawful_ord::<I>() && lawful_clone::<I>() && lawful_ord::<O>() && lawful_clone::<O>()
    &&& g.closed() && g.n <= StateId::MAX
    &&& b.models(seq![])
    &&& forall|row: Seq<(I, StateId)>| labels_rise(row) && labelled(g, row) ==> #[trigger] B::row_ok(row)
}

/// the source machine can be in state t after reading the labels w
pub open spec fn reaches<I, O>(g: Graph<I, O>, w: Seq<I>, t: StateId) -> bool
    decreases w.len()
{
    if w.len() == 0 { t == 0 } else { exists|m: StateId| #[trigger] g.moves(m, w.last(), t) && reaches(g, w.drop_last(), m) }
}
/// the source machine can produce the output o for w
pub open spec fn produces<I, O>(g: Graph<I, O>, w: Seq<I>, o: O) -> bool { exists|t: StateId| #[trigger] reaches(g, w, t) && g.gives(t, o) }
/// the state the declared deterministic machine is in after reading w
pub open spec fn walk<I, O>(d: Seq<DState<I, O>>, w: Seq<I>) -> Option<int>
    decreases w.len()
{
    if w.len() == 0 { Some(0) } else {
        match walk(d, w.drop_last()) {
            None => None,
            Some(i) => if exists|k: int| 0 <= k < d[i].row.len() && (#[trigger] d[i].row[k]).0 == w.last() { Some(d[i].row[choose|k: int| 0 <= k < d[i].row.len() && (#[trigger] d[i].row[k]).0 == w.last()].1 as int) } else { None },
        }
    }
}
/// C04: after any word the deterministic machine is in the state that stands for all the states the source machine can be in
pub proof fn determinised<I: Ord, O: Ord>(g: Graph<I, O>, d: Seq<DState<I, O>>, sets: Seq<Seq<StateId>>, w: Seq<I>)
    requires det(g, d, sets),
    ensures
        walk(d, w) is None ==> forall|t: StateId| !#[trigger] reaches(g, w, t),
        walk(d, w) is Some ==> 0 <= walk(d, w).unwrap() < d.len() && forall|t: StateId| #[trigger] sets[walk(d, w).unwrap()].contains(t) <==> reaches(g, w, t),
    decreases w.len(),
{
    if w.len() == 0 {
        assert(sets[0][0] == 0);
    } else {
        let v = w.drop_last();
        let x = w.last();
        determinised(g, d, sets, v);
        if walk(d, v) is Some {
            let i = walk(d, v).unwrap();
            assert(stands_for(g, d[i], sets, i));
            assert forall|t: StateId| #[trigger] reaches(g, w, t) <==> set_moves(g, sets[i], x, t) by {
                if reaches(g, w, t) { let m = choose|m: StateId| #[trigger] g.moves(m, x, t) && reaches(g, v, m); assert(sets[i].contains(m)); }
                if set_moves(g, sets[i], x, t) { let m = choose|m: StateId| #[trigger] sets[i].contains(m) && g.moves(m, x, t); assert(reaches(g, v, m)); }
            }
            if walk(d, w) is Some {
                let k = choose|k: int| 0 <= k < d[i].row.len() && (#[trigger] d[i].row[k]).0 == x;
                assert(d[i].row[k].1 < sets.len());
                let j = d[i].row[k].1 as int;
                assert forall|t: StateId| #[trigger] sets[j].contains(t) <==> reaches(g, w, t) by {}
            } else {
                assert forall|t: StateId| !#[trigger] reaches(g, w, t) by { if reaches(g, w, t) { assert(set_moves(g, sets[i], x, t)); } }
            }
        } else {
            assert forall|t: StateId| !#[trigger] reaches(g, w, t) by { if reaches(g, w, t) { let m = choose|m: StateId| #[trigger] g.moves(m, x, t) && reaches(g, v, m); } }
        }
    }
}
/// C04: it accepts a word exactly if the source machine can, with the lowest output the source machine can produce
pub proof fn same_answers<I: Ord, O: Ord>(g: Graph<I, O>, d: Seq<DState<I, O>>, sets: Seq<Seq<StateId>>, w: Seq<I>)
    requires det(g, d, sets),
    ensures
        (walk(d, w) is Some && d[walk(d, w).unwrap()].out is Some) <==> exists|o: O| produces(g, w, o),
        walk(d, w) is Some && d[walk(d, w).unwrap()].out is Some ==> produces(g, w, d[walk(d, w).unwrap()].out.unwrap()) && forall|o: O| #[trigger] produces(g, w, o) ==> le(d[walk(d, w).unwrap()].out.unwrap(), o),
{
    determinised(g, d, sets, w);
    if walk(d, w) is Some {
        let i = walk(d, w).unwrap();
        let s = sets[i];
        assert(stands_for(g, d[i], sets, i));
        assert forall|o: O| #[trigger] produces(g, w, o) <==> set_gives(g, s, o) by {
            if produces(g, w, o) { let t = choose|t: StateId| #[trigger] reaches(g, w, t) && g.gives(t, o); assert(s.contains(t)); }
            if set_gives(g, s, o) { let t = choose|t: StateId| #[trigger] s.contains(t) && g.gives(t, o); assert(reaches(g, w, t)); }
        }
        if d[i].out is Some { assert(produces(g, w, d[i].out.unwrap())); }
    }
}
@@ fn PartialEq for DfaState::eq
@flag external_body
@@ fn Clone for DfaState::clone
@ret r
@spec
    ensures r.source_states@ == self.source_states@,
@@ fn DfaState::create
@rewrite for 1 vx_members
@rewrite type set HashSet<StateId>
@rewrite type vx_out1 Vec<StateId>
@ret r
@spec
    ensures r.source_states@.no_duplicates(), forall|t: StateId| #[trigger] r.source_states@.contains(t) <==> source_states@.contains(t),
@start
    let ghost given = source_states@;
@loop 0 it
    invariant it.seq() == given, forall|t: StateId| #[trigger] set@.contains(t) <==> exists|i: int| 0 <= i < it.index@ && #[trigger] given[i] == t,
@loop 0 start
    let ghost set0 = set@;
@loop 0 end
    proof {
        assert forall|t: StateId| #[trigger] set@.contains(t) <==> exists|i: int| 0 <= i < it.index@ + 1 && #[trigger] given[i] == t by {
            if t == given[it.index@ as int] { assert(set@.contains(t)); }
            if set0.contains(t) { let i = choose|i: int| 0 <= i < it.index@ && #[trigger] given[i] == t; }
        }
    }
@after loop 0
    let ghost members = set@;
@loop 1 it
    invariant it.seq().to_set() == members, it.seq().no_duplicates(), vx_out1@ == it.seq().take(it.index@ as int), it.index@ == it.seq().len() ==> vx_out1@ == it.seq(),
@loop 1 end
    proof { assert(vx_out1@ =~= it.seq().take(it.index@ + 1)); assert(it.seq().take(it.seq().len() as int) =~= it.seq()); }
@after loop 1
    proof { assert(vx_out1@.to_set() == members && vx_out1@.no_duplicates()); assert(forall|t: StateId| vx_out1@.contains(t) <==> vx_out1@.to_set().contains(t)); }
@@ fn DfaState::dedupe
@spec
    ensures rising(final(self).source_states@), forall|t: StateId| #[trigger] final(self).source_states@.contains(t) <==> old(self).source_states@.contains(t),
@start
    proof { crate::lawful_u32(); }
@after call sort
    let ghost sorted = self.source_states@;
    proof { same_members(sorted, old(self).source_states@); assert forall|i: int, j: int| 0 <= i <= j < sorted.len() implies sorted[i] <= sorted[j] by { assert(le(sorted[i], sorted[j])); } runs_rise(sorted); }

@@ fn DfaTransitions::merge_states
@spec
    requires lawful_ord::<InputSymbol>(), lawful_clone::<InputSymbol>(),
    ensures
        final(self).state_id == old(self).state_id, final(self).output == old(self).output,
        labels_rise(final(self).transitions@), tidy(final(self).transitions@),
        forall|x: InputSymbol, t: StateId| #[trigger] row_has(final(self).transitions@, x, t) <==> row_has(old(self).transitions@, x, t),
        filled(old(self).transitions@) ==> filled(final(self).transitions@),
@rewrite for 1 iter_mut
@closure 0 r std::cmp::Ordering
    ensures r == ocmp(a.0, b.0),
@start
    let ghost row0 = self.transitions@;
    let ghost by_label = |a: (InputSymbol, DfaState), b: (InputSymbol, DfaState)| ocmp(a.0, b.0);
    proof { assert(total_order(by_label)); }
@after call sort_by
    let ghost row1 = self.transitions@;
    proof {
        same_row(row0, row1);
        assert forall|i: int, j: int| 0 <= i <= j < row1.len() implies le((#[trigger] row1[i]).0, (#[trigger] row1[j]).0) by { assert(by_label(row1[i], row1[j]) != std::cmp::Ordering::Greater); }
    }
@before loop 0
    proof { merged_has(Seq::empty(), row1[0], new_transitions@); assert(row1.take(1) =~= seq![row1[0]]); one_has(row1[0]); }
@loop 0 it
    invariant
        lawful_ord::<InputSymbol>(), lawful_clone::<InputSymbol>(), it.seq().len() == row1.len() - 1, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i + 1,
        self.state_id == old(self).state_id, self.output == old(self).output, self.transitions@.len() == row1.len(), row1.len() > 0,
        forall|k: int| it.index@ + 1 <= k < row1.len() ==> #[trigger] self.transitions@[k] == row1[k],
        forall|i: int, j: int| 0 <= i <= j < row1.len() ==> le((#[trigger] row1[i]).0, (#[trigger] row1[j]).0),
        new_transitions@.len() > 0, labels_rise(new_transitions@), new_transitions@.last().0 == row1[it.index@ as int].0,
        forall|x: InputSymbol, t: StateId| #[trigger] row_has(new_transitions@, x, t) <==> row_has(row1.take(it.index@ + 1), x, t),
        filled(row1) ==> filled(new_transitions@),
@loop 0 start
    let ghost new0 = new_transitions@;
    let ghost e = row1[transit_idx as int];
@loop 0 end
    proof {
        let new1 = new_transitions@;
        assert(one_merged(new0, e, new1));
        merged_has(new0, e, new1);
        take_has(row1, transit_idx as int);
        assert(le(row1[transit_idx - 1].0, row1[transit_idx as int].0));
        assert forall|i: int, j: int| 0 <= i < j < new1.len() implies lt((#[trigger] new1[i]).0, (#[trigger] new1[j]).0) by {
            if j == new0.len() { assert(le(new0[i].0, new0.last().0)); assert(lt(new0.last().0, e.0)); }
        }
    }
@after loop 0
    let ghost row2 = new_transitions@;
    proof { assert(row1.take(row1.len() as int) =~= row1); }
@loop 1 it2
    invariant
        IteratorSpec::remaining(&it2.snapshot@).len() == row2.len(),
        forall|i: int| 0 <= i < row2.len() ==> *(#[trigger] IteratorSpec::remaining(&it2.snapshot@)[i]) == row2[i],
        forall|i: int| 0 <= i < it2.index@ ==> (*final(#[trigger] IteratorSpec::remaining(&it2.snapshot@)[i])).0 == row2[i].0 && rising((*final(IteratorSpec::remaining(&it2.snapshot@)[i])).1.source_states@),
        forall|i: int, t: StateId| 0 <= i < it2.index@ ==> (#[trigger] (*final(IteratorSpec::remaining(&it2.snapshot@)[i])).1.source_states@.contains(t) <==> row2[i].1.source_states@.contains(t)),
@after loop 1
    proof { assert(row_tidied(row2, new_transitions@)); tidied_same(row2, new_transitions@); }
@@ fn DfaTransitions::output_symbol
@ret r
@spec
    requires lawful_ord::<OutputSymbol>(),
    ensures
        final(self).transitions == old(self).transitions, final(self).state_id == old(self).state_id,
        r is None <==> old(self).output@.len() == 0,
        r is Some ==> old(self).output@.contains(*r.unwrap()) && forall|i: int| 0 <= i < old(self).output@.len() ==> le(*r.unwrap(), #[trigger] old(self).output@[i]),
@after call sort
    proof {
        broadcast use group_to_multiset_ensures;
        let a = old(self).output@;
        let b = self.output@;
        assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
        assert forall|i: int| 0 <= i < a.len() implies le(b[0], #[trigger] a[i]) by { assert(a.contains(a[i])); assert(b.to_multiset().count(a[i]) > 0); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(le(b[0], b[j])); }
        assert(b.contains(b[0])); assert(a.to_multiset().count(b[0]) > 0);
    }
@@ fn DfaCompiler::new
@ret r
@spec
    ensures r.ndfa == ndfa, r.builder == builder,
@@ fn DfaCompiler::build
@ret r
@spec
    requires compilable::<InputSymbol, OutputSymbol, DfaType, Builder>(ndfa.graph(), builder), ndfa.sm_ok(),
    ensures exists|d: Seq<DState<InputSymbol, OutputSymbol>>, sets: Seq<Seq<StateId>>| #[trigger] det(ndfa.graph(), d, sets) && Builder::built(r, d) && d.len() < StateId::MAX,
@@ fn DfaCompiler::compile
@ret r
@rewrite type states Vec<DfaTransitions<InputSymbol, OutputSymbol>>
@rewrite type known_states HashMap<DfaState, StateId>
@rewrite type to_process Vec<DfaState>
@rewrite type transitions Vec<(InputSymbol, DfaState)>
@rewrite type output Vec<OutputSymbol>
@spec
    requires compilable::<InputSymbol, OutputSymbol, DfaType, Builder>(self.ndfa.graph(), self.builder), self.ndfa.sm_ok(),
    ensures exists|d: Seq<DState<InputSymbol, OutputSymbol>>, sets: Seq<Seq<StateId>>| #[trigger] det(self.ndfa.graph(), d, sets) && Builder::built(r, d) && d.len() < StateId::MAX,
@start
    let ghost g = self.ndfa.graph();
    let ghost mut sets = Seq::<Seq<StateId>>::empty();
    proof { axiom_dfa_state(); }
@after let state_zero
    proof {
        assert(state_zero.source_states@.contains(0));
        assert(state_zero.source_states@ =~= seq![0 as StateId]) by {
            let v = state_zero.source_states@;
            assert forall|i: int| 0 <= i < v.len() implies v[i] == 0 by { assert(v.contains(v[i])); }
            assert(v.len() <= 1) by { if v.len() > 1 { assert(v[0] != v[1]); } }
        }
    }
@before loop 0
    let ghost mut whole = to_process@;
@loop 0
    invariant
        whole == to_process@,
        compilable::<InputSymbol, OutputSymbol, DfaType, Builder>(g, self.builder), g == self.ndfa.graph(), self.ndfa.sm_ok(),
        vstd::std_specs::hash::obeys_key_model::<DfaState>(), forall|a: DfaState, b: DfaState| #![trigger a.source_states@, b.source_states@] a.source_states@ == b.source_states@ ==> a == b,
        processed(g, states@, sets), numbered(known_states@, sets), waiting(to_process@, g.n), followed(states@, known_states@, to_process@),
        sets.len() == 0 ==> to_process@.len() == 1 && to_process@[0].source_states@ == seq![0 as StateId],
    ensures to_process@.len() == 0,
    decreases unprocessed(g.n, sets), again(to_process@, sets),
@loop 0 start
    let ghost rest = to_process@;
    let ghost ss = state.source_states@;
    let ghost sets0 = sets;
    let ghost states0 = states@;
    let ghost known0 = known_states@;
    proof { assert(rest.push(state) =~= whole); assert(whole.last() == state); assert(whole.drop_last() =~= rest); assert(whole[whole.len() - 1] == state); }
@loop 1 it1
    invariant
        it1.seq().len() == ss.len(), forall|i: int| 0 <= i < ss.len() ==> *#[trigger] it1.seq()[i] == ss[i], all_below(ss, g.n), g == self.ndfa.graph(), self.ndfa.sm_ok(), lawful_clone::<OutputSymbol>(),
        forall|x: InputSymbol, t: StateId| #[trigger] row_has(transitions@, x, t) <==> set_moves(g, ss.take(it1.index@ as int), x, t),
        filled(transitions@),
        outs_of(g, ss.take(it1.index@ as int), output@),
@loop 1 start
    let ghost tr0 = transitions@;
    let ghost out0 = output@;
    let ghost here = it1.index@;
    proof { assert(*source_state == ss[here]); }
@before loop 2
    let ghost st = source_transitions@;
@loop 2 it2
    invariant
        it2.seq() == st, filled(transitions@),
        forall|x: InputSymbol, t: StateId| #[trigger] row_has(transitions@, x, t) <==> row_has(tr0, x, t) || exists|i: int| 0 <= i < it2.index@ && #[trigger] st[i] == (x, t),
@loop 2 start
    let ghost tr1 = transitions@;
@loop 2 end
    proof {
        let e = transitions@.last();
        assert(transitions@ =~= tr1.push(e));
        let m = st[it2.index@ as int].1;
        assert forall|t: StateId| e.1.source_states@.contains(t) <==> t == m by { assert(seq![m][0] == m); }
        push_has(tr1, e, m);
    }
@loop 3 it3
    invariant
        lawful_clone::<OutputSymbol>(),
        forall|i: int| 0 <= i < it3.seq().len() ==> g.gives(ss[here], *#[trigger] it3.seq()[i]),
        forall|o: OutputSymbol| g.gives(ss[here], o) ==> exists|i: int| 0 <= i < it3.seq().len() && *#[trigger] it3.seq()[i] == o,
        forall|o: OutputSymbol| #[trigger] output@.contains(o) <==> out0.contains(o) || exists|i: int| 0 <= i < it3.index@ && *#[trigger] it3.seq()[i] == o,
        it3.index@ == it3.seq().len() ==> forall|o: OutputSymbol| #[trigger] output@.contains(o) <==> out0.contains(o) || g.gives(ss[here], o),
@loop 3 start
    let ghost out1 = output@;
@loop 3 end
    proof {
        let k = it3.index@ as int;
        let e = *it3.seq()[k];
        assert(output@ =~= out1.push(e));
        assert(output@[out1.len() as int] == e);
        assert forall|o: OutputSymbol| #[trigger] output@.contains(o) <==> out0.contains(o) || exists|i: int| 0 <= i < k + 1 && *#[trigger] it3.seq()[i] == o by {
            if output@.contains(o) { let i = choose|i: int| 0 <= i < output@.len() && output@[i] == o; if i < out1.len() { assert(out1[i] == o); assert(out1.contains(o)); } }
            if out1.contains(o) { let i = choose|i: int| 0 <= i < out1.len() && out1[i] == o; assert(output@[i] == o); }
        }
    }
@loop 1 end
    proof {
        one_state(g, ss, here as int);
        assert forall|x: InputSymbol, t: StateId| #[trigger] row_has(transitions@, x, t) <==> row_has(tr0, x, t) || g.moves(ss[here], x, t) by { assert(st.contains((x, t)) <==> g.moves(ss[here], x, t)); }
    }
@before let dfa_transitions
    proof { axiom_state_count(&states); assert(ss.take(ss.len() as int) =~= ss); }
@before loop 4
    let ghost row = dfa_transitions.transitions@;
    proof { row_below(g, ss, row); }
@loop 4 it4
    invariant
        it4.seq().len() == row.len(), forall|i: int| 0 <= i < row.len() ==> *#[trigger] it4.seq()[i] == row[i],
        vstd::std_specs::hash::obeys_key_model::<DfaState>(), forall|a: DfaState, b: DfaState| #![trigger a.source_states@, b.source_states@] a.source_states@ == b.source_states@ ==> a == b,
        forall|k: int| 0 <= k < row.len() ==> rising((#[trigger] row[k]).1.source_states@) && all_below(row[k].1.source_states@, g.n),
        known_states@ == known0, numbered(known0, sets), sets == sets0,
        waiting(to_process@, g.n), rest.len() <= to_process@.len(), forall|i: int| 0 <= i < rest.len() ==> #[trigger] to_process@[i] == rest[i],
        again(to_process@, sets) == again(rest, sets),
        forall|j: int| 0 <= j < it4.index@ ==> known0.contains_key((#[trigger] row[j]).1) || to_process@.contains(row[j].1),
@loop 4 start
    let ghost stack0 = to_process@;
    proof { assert(*maybe_new_state == row[it4.index@ as int].1); }
@loop 4 end
    proof {
        let c = row[it4.index@ as int].1;
        if !known0.contains_key(c) {
            assert(to_process@ =~= stack0.push(c));
            assert(to_process@.drop_last() =~= stack0);
            assert(!sets.contains(c.source_states@));
            assert(to_process@[stack0.len() as int] == c);
        }
        assert forall|q: DfaState| stack0.contains(q) implies to_process@.contains(q) by { let i = choose|i: int| 0 <= i < stack0.len() && stack0[i] == q; assert(to_process@[i] == q); }
    }
@loop 0 end
    proof {
        sets = sets0.push(ss);
        step_down(g.n, sets0, ss, to_process@);
        whole = to_process@;
        let states1 = states@;
        let known1 = known_states@;
        assert(sets[sets0.len() as int] == ss);
        assert forall|d: DfaState| #[trigger] known1.contains_key(d) implies known1[d] < sets.len() && sets[known1[d] as int] == d.source_states@ by {
            if d != state { assert(known0.contains_key(d)); assert(d.source_states@ != ss); }
        }
        assert forall|d: DfaState| #[trigger] sets.contains(d.source_states@) implies known1.contains_key(d) by {
            let i = choose|i: int| 0 <= i < sets.len() && sets[i] == d.source_states@;
            if i < sets0.len() { assert(sets0[i] == d.source_states@); assert(sets0.contains(d.source_states@)); } else { assert(d == state); }
        }
        assert forall|i: int, j: int| #![trigger states1[i].transitions@[j]] 0 <= i < states1.len() && 0 <= j < states1[i].transitions@.len() implies known1.contains_key(states1[i].transitions@[j].1) || to_process@.contains(states1[i].transitions@[j].1) by {
            let c = states1[i].transitions@[j].1;
            if i < states0.len() {
                assert(states1[i] == states0[i]);
                assert(known0.contains_key(states0[i].transitions@[j].1) || rest.push(state).contains(c));
                if rest.push(state).contains(c) {
                    let q = choose|q: int| 0 <= q < rest.push(state).len() && rest.push(state)[q] == c;
                    if q < rest.len() { assert(to_process@[q] == c); } else { assert(c == state); }
                }
            } else { assert(c == row[j].1); }
        }
    }
@after loop 0
    let ghost table = states@;
    let ghost known = known_states@;
    let ghost mut d = Seq::<DState<InputSymbol, OutputSymbol>>::empty();
    proof { assert(to_process@ =~= seq![]); axiom_state_count(&states); }
@loop 5 it5
    invariant
        compilable::<InputSymbol, OutputSymbol, DfaType, Builder>(g, self.builder),
        vstd::std_specs::hash::obeys_key_model::<DfaState>(),
        processed(g, table, sets), numbered(known, sets), followed(table, known, seq![]), known == known_states@,
        it5.seq() == table, builder.models(d), d.len() == it5.index@,
        forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).row == as_row(table[i].transitions@, known) && lowest(g, sets[i], d[i].out),
@loop 5 start
    let ghost here = it5.index@ as int;
    let ghost s = sets[here];
    let ghost row = table[here].transitions@;
    proof { assert(dfa_state == table[here]); assert(row_of(g, s, row) && outs_of(g, s, table[here].output@)); }
@after call start_state
    let ghost d0 = d.push(blank());
    let ghost mut d1 = d0;
    proof { assert(builder.models(d0)); }
@then 1 end
    proof {
        d1 = with_out(d0, *output_symbol);
        assert(table[here].output@.contains(*output_symbol));
        assert forall|p: OutputSymbol| #[trigger] set_gives(g, s, p) implies le(*output_symbol, p) by { assert(table[here].output@.contains(p)); let i = choose|i: int| 0 <= i < table[here].output@.len() && table[here].output@[i] == p; }
    }
@before loop 6
    proof {
        assert(d1.last().row =~= as_row(row.take(0), known));
        assert(d1.drop_last() =~= d);
        if d1 == d0 { assert forall|p: OutputSymbol| !set_gives(g, s, p) by { assert(!table[here].output@.contains(p)); } }
        assert(lowest(g, s, d1.last().out));
    }
@loop 6 it6
    invariant
        compilable::<InputSymbol, OutputSymbol, DfaType, Builder>(g, self.builder),
        vstd::std_specs::hash::obeys_key_model::<DfaState>(), known == known_states@,
        it6.seq() == row, row_of(g, s, row), forall|j: int| 0 <= j < row.len() ==> known.contains_key((#[trigger] row[j]).1),
        builder.models(d1), d1.len() == d.len() + 1, d1.drop_last() == d, lowest(g, s, d1.last().out), d1.last().row == as_row(row.take(it6.index@ as int), known),
@loop 6 start
    let ghost k = it6.index@ as int;
    let ghost t = known[target_state];
    proof {
        assert(row[k] == (symbol, target_state));
        assert(as_row(row.take(k + 1), known) =~= as_row(row.take(k), known).push((symbol, t)));
        row_labelled(g, s, row, known, k + 1);
        assert(Builder::row_ok(d1.last().row.push((symbol, t))));
    }
@loop 6 end
    proof {
        d1 = more(d1, symbol, t);
        assert(d1.drop_last() =~= d);
    }
@loop 5 end
    proof {
        let d2 = d.push(d1.last());
        assert(d2 =~= d1);
        assert(row.take(row.len() as int) =~= row);
        d = d2;
    }
@after loop 5
    proof { assert(d.len() == table.len()); all_done(g, table, sets, known, d); }
