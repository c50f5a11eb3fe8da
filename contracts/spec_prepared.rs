//@needs symbol_range state_machine ndfa dfa_builder dfa_compiler symbol_range_dfa
// What a prepared matcher has to do with the state machine it was made from.
use crate::spec_base::*;
use vstd::std_specs::cmp::*;
use crate::countable::*;
use crate::symbol_range::*;
use crate::state_machine::*;
use crate::ndfa::*;
use crate::spec_runs::*;
use crate::spec_words::*;
use crate::dfa_builder::*;
use crate::dfa_compiler::*;
use crate::symbol_range_dfa::*;

/// the matcher accepts what the machine can produce an output for, with the lowest such output
pub open spec fn answers<S: Ord, O: Ord>(g: Graph<SymbolRange<S>, O>, w: Seq<S>, a: Option<O>) -> bool {
    match a {
        Some(o) => yields(g, w, o) && forall|p: O| #[trigger] yields(g, w, p) ==> le(o, p),
        None => forall|p: O| !#[trigger] yields(g, w, p),
    }
}
pub open spec fn settles<S: Ord, O: Ord>(g: Graph<SymbolRange<S>, O>, r: SymbolRangeDfa<S, O>) -> bool {
    r.wf() && forall|w: Seq<S>| answers(g, w, #[trigger] r.accepts(0, w))
}
/// the set holds the states the machine can be in after u
pub open spec fn holds_at<S: Ord, O>(g: Graph<SymbolRange<S>, O>, u: Seq<S>, s: Seq<StateId>) -> bool { forall|t: StateId| #![trigger s.contains(t)] #![trigger comes(g, u, t)] s.contains(t) <==> comes(g, u, t) }
pub open spec fn lost<S: Ord, O>(g: Graph<SymbolRange<S>, O>, u: Seq<S>) -> bool { forall|t: StateId| !#[trigger] comes(g, u, t) }

proof fn still_lost<S: Ord, O>(g: Graph<SymbolRange<S>, O>, u: Seq<S>, w: Seq<S>)
    requires lost(g, u),
    ensures lost(g, u + w),
    decreases w.len(),
{
    if w.len() == 0 { assert(u + w =~= u); }
    else {
        still_lost(g, u, w.drop_last());
        assert((u + w).drop_last() =~= u + w.drop_last());
        assert forall|t: StateId| !#[trigger] comes(g, u + w, t) by {
            if comes(g, u + w, t) { let m = choose|m: StateId| #[trigger] goes(g, m, (u + w).last(), t) && comes(g, (u + w).drop_last(), m); }
        }
    }
}
/// the states after one more symbol, when the set moves on the label that holds it
proof fn one_symbol<S: Ord, O: Ord>(g: Graph<SymbolRange<S>, O>, d: DState<SymbolRange<S>, O>, sets: Seq<Seq<StateId>>, i: int, u: Seq<S>, c: S, k: int)
    requires ready(g), stands_for(g, d, sets, i), 0 <= i < sets.len(), holds_at(g, u, sets[i]), 0 <= k < d.row.len(), in_range(d.row[k].0, c),
    ensures d.row[k].1 < sets.len(), holds_at(g, u.push(c), sets[d.row[k].1 as int]),
{
    let (x, j) = d.row[k];
    let v = u.push(c);
    assert(v.drop_last() =~= u && v.last() == c && v.len() > 0);
    let t0 = sets[j as int][0];
    assert(sets[j as int].contains(t0));
    assert(set_moves(g, sets[i], x, t0));
    let m0 = choose|m: StateId| #[trigger] sets[i].contains(m) && g.moves(m, x, t0);
    let e0 = choose|e: StateId| #[trigger] g.joined(m0, e) && g.edges.contains((e, x, t0));
    assert forall|t: StateId| sets[j as int].contains(t) <==> #[trigger] comes(g, v, t) by {
        if sets[j as int].contains(t) {
            assert(set_moves(g, sets[i], x, t));
            let m = choose|m: StateId| #[trigger] sets[i].contains(m) && g.moves(m, x, t);
            assert(comes(g, u, m));
            assert(goes(g, m, v.last(), t) && comes(g, v.drop_last(), m));
            assert(comes(g, v, t));
        }
        if comes(g, v, t) {
            let m = choose|m: StateId| #[trigger] goes(g, m, c, t) && comes(g, u, m);
            let y = choose|y: SymbolRange<S>| #[trigger] g.moves(m, y, t) && in_range(y, c);
            let e = choose|e: StateId| #[trigger] g.joined(m, e) && g.edges.contains((e, y, t));
            assert(g.edges.contains((e0, x, t0)) && g.edges.contains((e, y, t)));
            assert(share(x, y)) by { assert(in_range(x, c) && in_range(y, c)); }
            assert(x == y);
            assert(sets[i].contains(m));
            assert(set_moves(g, sets[i], x, t));
        }
    }
}
proof fn no_symbol<S: Ord, O: Ord>(g: Graph<SymbolRange<S>, O>, d: DState<SymbolRange<S>, O>, sets: Seq<Seq<StateId>>, i: int, u: Seq<S>, c: S)
    requires stands_for(g, d, sets, i), 0 <= i < sets.len(), holds_at(g, u, sets[i]), forall|k: int| 0 <= k < d.row.len() ==> !in_range((#[trigger] d.row[k]).0, c),
    ensures lost(g, u.push(c)),
{
    let v = u.push(c);
    assert(v.drop_last() =~= u);
    assert forall|t: StateId| !#[trigger] comes(g, v, t) by {
        if comes(g, v, t) {
            let m = choose|m: StateId| #[trigger] goes(g, m, c, t) && comes(g, u, m);
            let y = choose|y: SymbolRange<S>| #[trigger] g.moves(m, y, t) && in_range(y, c);
            assert(sets[i].contains(m));
            assert(set_moves(g, sets[i], y, t));
            let k = choose|k: int| 0 <= k < d.row.len() && (#[trigger] d.row[k]).0 == y;
        }
    }
}
proof fn keeps_up<S: Ord + Clone + Countable, O: Ord + Clone>(g: Graph<SymbolRange<S>, O>, d: Seq<DState<SymbolRange<S>, O>>, sets: Seq<Seq<StateId>>, r: SymbolRangeDfa<S, O>, u: Seq<S>, i: StateId, w: Seq<S>)
    requires ready(g), det(g, d, sets), SymbolRangeDfaBuilder::<S, O>::built(r, d), d.len() < StateId::MAX, i < d.len(), holds_at(g, u, sets[i as int]),
    ensures
        match r.drun(i, w) { Some(j) => j < d.len() && holds_at(g, u + w, sets[j as int]), None => lost(g, u + w) },
    decreases w.len(),
{
    if w.len() == 0 { assert(u + w =~= u); }
    else {
        let c = w[0];
        let v = u.push(c);
        let row = d[i as int].row;
        assert(u + w =~= v + w.drop_first());
        assert(stands_for(g, d[i as int], sets, i as int));
        assert(same_hits(r.row(i as int), row));
        match r.dstep(i, c) {
            Some(t) => {
                assert(hits(r.row(i as int), c, t));
                assert(hits(row, c, t));
                let k = choose|k: int| 0 <= k < row.len() && in_range((#[trigger] row[k]).0, c) && row[k].1 == t;
                one_symbol(g, d[i as int], sets, i as int, u, c, k);
                keeps_up(g, d, sets, r, v, t, w.drop_first());
            }
            None => {
                assert forall|k: int| 0 <= k < row.len() implies !in_range((#[trigger] row[k]).0, c) by { if in_range(row[k].0, c) { assert(hits(row, c, row[k].1)); assert(hits(r.row(i as int), c, row[k].1)); } }
                no_symbol(g, d[i as int], sets, i as int, u, c);
                still_lost(g, v, w.drop_first());
            }
        }
    }
}
/// compiling a machine whose labels are apart makes a matcher that does what the machine does
pub proof fn settled<S: Ord + Clone + Countable, O: Ord + Clone>(g: Graph<SymbolRange<S>, O>, d: Seq<DState<SymbolRange<S>, O>>, sets: Seq<Seq<StateId>>, r: SymbolRangeDfa<S, O>)
    requires ready(g), det(g, d, sets), SymbolRangeDfaBuilder::<S, O>::built(r, d), d.len() < StateId::MAX,
    ensures settles(g, r),
{
    assert forall|i: int| 0 <= i < r.n() implies separate(#[trigger] r.row(i)) && targets_in(r.row(i), r.n()) by {
        assert(stands_for(g, d[i], sets, i));
        assert(same_hits(r.row(i), d[i].row));
        assert forall|k: int| 0 <= k < r.row(i).len() implies (#[trigger] r.row(i)[k]).1 < r.n() by {
            let (x, t) = r.row(i)[k];
            assert(nonempty(x));
            assert(x.lowest.cmp_spec(&x.lowest) == std::cmp::Ordering::Equal);
            assert(hits(r.row(i), x.lowest, t));
            assert(hits(d[i].row, x.lowest, t));
        }
    }
    assert forall|w: Seq<S>| answers(g, w, #[trigger] r.accepts(0, w)) by {
        let e = Seq::<S>::empty();
        assert(sets[0][0] == 0);
        assert(holds_at(g, e, sets[0]));
        keeps_up(g, d, sets, r, e, 0, w);
        assert(e + w =~= w);
        match r.drun(0, w) {
            Some(j) => {
                let s = sets[j as int];
                assert(stands_for(g, d[j as int], sets, j as int));
                assert forall|o: O| #[trigger] yields(g, w, o) <==> set_gives(g, s, o) by {
                    if yields(g, w, o) { let t = choose|t: StateId| #[trigger] comes(g, w, t) && g.gives(t, o); assert(s.contains(t)); }
                    if set_gives(g, s, o) { let t = choose|t: StateId| #[trigger] s.contains(t) && g.gives(t, o); assert(comes(g, w, t)); }
                }
                assert(r.accept@[j as int] == d[j as int].out);
                if d[j as int].out is Some { assert(set_gives(g, s, d[j as int].out.unwrap())); }
            }
            None => {}
        }
    }
}
/// rows with the labels of such a machine in ascending order can be declared to a builder
pub proof fn rows_separate<S: Ord + Clone, O>(g: Graph<SymbolRange<S>, O>, row: Seq<(SymbolRange<S>, StateId)>)
    requires lawful_ord::<S>(), ready(g), labels_rise(row), labelled(g, row),
    ensures separate(row),
{
    assert forall|i: int| 0 <= i < row.len() implies nonempty((#[trigger] row[i]).0) by { assert(is_label(g, row[i].0)); }
    assert forall|i: int, j: int| 0 <= i < j < row.len() implies lt((#[trigger] row[i]).0.highest, (#[trigger] row[j]).0.lowest) by {
        let (x, y) = (row[i].0, row[j].0);
        assert(lt(x, y));
        assert(is_label(g, x) && is_label(g, y));
        let (a, b) = choose|a: StateId, b: StateId| #[trigger] g.edges.contains((a, x, b));
        let (c, e) = choose|c: StateId, e: StateId| #[trigger] g.edges.contains((c, y, e));
        assert(x != y) by { lawful_ranges::<S>(); }
        share_iff_touches(x, y);
        assert(!touches(x, y));
        assert(range_cmp(x, y) == std::cmp::Ordering::Less);
        assert(le(x.lowest, y.lowest));
        if le(y.lowest, x.highest) { assert(le(y.lowest, y.highest)); assert(le(x.lowest, y.highest)); }
    }
}
/// such a machine can be compiled
pub proof fn can_compile<S: Ord + Clone + Countable, O: Ord + Clone>(g: Graph<SymbolRange<S>, O>, b: SymbolRangeDfaBuilder<S, O>)
    requires lawful_sym::<S>(), lawful_ord::<O>(), lawful_clone::<O>(), ready(g), b.states@.len() == 0, b.transitions@.len() == 0, b.accept@.len() == 0,
    ensures compilable::<SymbolRange<S>, O, SymbolRangeDfa<S, O>, SymbolRangeDfaBuilder<S, O>>(g, b),
{
    lawful_ranges::<S>();
    lawful_range_clone::<S>();
    fresh_models(b);
    assert forall|row: Seq<(SymbolRange<S>, StateId)>| labels_rise(row) && labelled(g, row) implies #[trigger] SymbolRangeDfaBuilder::<S, O>::row_ok(row) by { rows_separate(g, row); }
}
