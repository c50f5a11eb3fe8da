//@needs symbol_range state_machine ndfa regular_pattern dfa_compiler symbol_range_dfa
// What a list of patterns with outputs stands for, and what a stream is cut into by it.
use crate::spec_base::*;
use vstd::std_specs::cmp::*;
use std::ops::Range;
use crate::countable::*;
use crate::symbol_range::*;
use crate::state_machine::*;
use crate::ndfa::*;
use crate::regular_pattern::*;
use crate::symbol_range_dfa::*;
use crate::spec_runs::*;
use crate::spec_words::*;
use crate::spec_lang::*;
use crate::spec_prepared::*;

/// w is in the language of one of the first k patterns, and o is the output of that pattern
pub open spec fn one_of<S: Clone + Ord, O>(ps: Seq<(Pattern<S>, O)>, k: int, w: Seq<S>, o: O) -> bool { exists|i: int| 0 <= i < k && lang((#[trigger] ps[i]).0, w) && ps[i].1 == o }
/// C17: the lowest output among those of the patterns that match
pub open spec fn picks<S: Clone + Ord, O: Ord>(ps: Seq<(Pattern<S>, O)>, w: Seq<S>, a: Option<O>) -> bool {
    match a {
        Some(o) => one_of(ps, ps.len() as int, w, o) && forall|p: O| #[trigger] one_of(ps, ps.len() as int, w, p) ==> le(o, p),
        None => forall|i: int| 0 <= i < ps.len() ==> !lang((#[trigger] ps[i]).0, w),
    }
}
pub open spec fn picker<S: Clone + Ord, O: Ord>(ps: Seq<(Pattern<S>, O)>, r: SymbolRangeDfa<S, O>) -> bool { r.wf() && forall|w: Seq<S>| picks(ps, w, #[trigger] r.accepts(0, w)) }
/// the machine produces for each sequence the outputs of the patterns that match it
pub open spec fn machine_of_all<S: Clone + Ord, O>(ps: Seq<(Pattern<S>, O)>, g: Graph<SymbolRange<S>, O>) -> bool {
    ready(g) && forall|w: Seq<S>, o: O| #[trigger] yields(g, w, o) <==> one_of(ps, ps.len() as int, w, o)
}
/// the most states the first k patterns take
pub open spec fn bulk<S: Clone, O>(ps: Seq<(Pattern<S>, O)>, k: nat) -> nat
    decreases k
{ if k == 0 || k > ps.len() { 0 } else { bulk(ps, (k - 1) as nat) + size(ps[k - 1].0) + 1 } }
pub proof fn bulk_grows<S: Clone, O>(ps: Seq<(Pattern<S>, O)>, i: nat, k: nat)
    requires i < k <= ps.len(),
    ensures bulk(ps, i + 1) == bulk(ps, i) + size(ps[i as int].0) + 1, bulk(ps, i + 1) <= bulk(ps, k),
    decreases k,
{ if i + 1 < k { bulk_grows(ps, i, (k - 1) as nat); } }
pub open spec fn all_fit<S: Clone + Ord, O>(ps: Seq<(Pattern<S>, O)>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> fits((#[trigger] ps[i]).0)
    &&& 1 + bulk(ps, ps.len()) < u32::MAX
}
/// a machine for the first k patterns, hung from its start state
pub open spec fn choosing<S: Clone + Ord, O>(ps: Seq<(Pattern<S>, O)>, k: int, g: Graph<SymbolRange<S>, O>) -> bool {
    &&& g.closed() && ranges_ok(g) && hangs(net(g), 0, 1)
    &&& forall|w: Seq<S>, o: O| #[trigger] run_yields(g, w, o) <==> one_of(ps, k, w, o)
}
pub proof fn none_chosen<S: Clone + Ord, O>(ps: Seq<(Pattern<S>, O)>, g: Graph<SymbolRange<S>, O>)
    requires g.n == 1, g.edges == ISet::<(Id, SymbolRange<S>, Id)>::empty(), g.joins == ISet::<(Id, Id)>::empty(), g.outs == IMap::<Id, O>::empty(),
    ensures choosing(ps, 0, g),
{}
/// one pattern more: compiled from the start state, its end joined to a state of its own that has the output
pub proof fn one_more_token<S: Clone + Ord, O>(ps: Seq<(Pattern<S>, O)>, k: int, g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>, r: Id, t: Id, z: Graph<SymbolRange<S>, O>)
    requires
        0 <= k < ps.len(), choosing(ps, k, g), compiled(g, 0, h, r, ps[k].0), t == h.n,
        z == (Graph { n: top(top(h.n, r), t), joins: h.joins.insert((r, t)), outs: h.outs.insert(t, ps[k].1), ..h }),
    ensures choosing(ps, k + 1, z), z.n == h.n + 1,
{
    let (p, f) = (net(g), added(g, h));
    let u = net(h);
    assert(u.edges =~= plus(p, f).edges);
    assert(u.joins =~= plus(p, f).joins);
    assert(u == plus(p, f));
    assert(net(z) == plus_join(u, r, t));
    assert(within(p, g.n));
    assert(dead(u, t));
    assert(ranges_ok(z)) by {
        assert forall|a: Id, x: SymbolRange<S>, b: Id| #[trigger] z.edges.contains((a, x, b)) implies nonempty(x) by {
            if g.edges.contains((a, x, b)) { } else { assert(f.edges.contains((a, x, b))); }
        }
    }
    assert forall|w: Seq<S>, o: O| #[trigger] run_yields(z, w, o) <==> one_of(ps, k + 1, w, o) by {
        assert(runs(net(z), 0, w, t) <==> lang(ps[k].0, w)) by {
            exit_runs(u, r, t, 0, w, t);
            if runs(u, 0, w, t) { nowhere(u, h.n, 0, w, t); }
            if r == 0 { never_back(p, 0, 1, w); old_runs(p, f, 0, g.n, 0, w, 0); nothing_runs::<S>(0, w, 0); assert(runs(f, 0, w, r) <==> w.len() == 0); }
            else {
                new_runs(p, f, 0, g.n, 0, w, r);
                if runs(u, 0, w, r) {
                    let j = choose|j: int| #[trigger] in_two(p, f, 0, 0, w, r, j);
                    never_back(p, 0, 1, w.take(j));
                    assert(w.skip(j) =~= w);
                }
                if runs(f, 0, w, r) { runs_mono(f, u, 0, w, r); }
            }
            assert(runs(f, 0, w, r) <==> lang(ps[k].0, w));
        }
        if run_yields(z, w, o) {
            let b = choose|b: Id| #[trigger] runs(net(z), 0, w, b) && z.outs.contains_pair(b, o);
            if b == t { assert(ps[k].1 == o); }
            else {
                assert(g.outs.contains_pair(b, o));
                exit_runs(u, r, t, 0, w, b);
                old_runs(p, f, 0, g.n, 0, w, b);
                assert(run_yields(g, w, o));
                let i = choose|i: int| 0 <= i < k && lang((#[trigger] ps[i]).0, w) && ps[i].1 == o;
                assert(0 <= i < k + 1);
            }
        }
        if one_of(ps, k + 1, w, o) {
            let i = choose|i: int| 0 <= i < k + 1 && lang((#[trigger] ps[i]).0, w) && ps[i].1 == o;
            if i == k { assert(z.outs.contains_pair(t, o)); }
            else {
                assert(0 <= i < k);
                assert(run_yields(g, w, o));
                let b = choose|b: Id| #[trigger] runs(net(g), 0, w, b) && g.outs.contains_pair(b, o);
                assert(g.outs.dom().contains(b));
                exit_runs(u, r, t, 0, w, b);
                old_runs(p, f, 0, g.n, 0, w, b);
                assert(runs(net(z), 0, w, b) && z.outs.contains_pair(b, o));
            }
        }
    }
}
/// no run leads to a state that is not there
proof fn nowhere<S: Ord>(p: Net<S>, n: int, a: Id, w: Seq<S>, t: Id)
    requires within(p, n), a < n, t >= n,
    ensures !runs(p, a, w, t),
{
    if runs(p, a, w, t) { let k = choose|k: nat| run(p, a, w, t, k); nowhere_in(p, n, a, w, t, k); }
}
proof fn nowhere_in<S: Ord>(p: Net<S>, n: int, a: Id, w: Seq<S>, t: Id, k: nat)
    requires within(p, n), a < n, t >= n, run(p, a, w, t, k),
    ensures false,
    decreases k,
{
    if k > 0 {
        let (j, m) = first_step(p, a, w, t, k);
        if j { nowhere_in(p, n, m, w, t, (k - 1) as nat); }
        else {
            let x = choose|x: SymbolRange<S>| #[trigger] p.edges.contains((a, x, m)) && in_range(x, w[0]);
            nowhere_in(p, n, m, w.skip(1), t, (k - 1) as nat);
        }
    }
}
pub proof fn all_chosen<S: Clone + Ord, O>(ps: Seq<(Pattern<S>, O)>, g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>)
    requires lawful_ord::<S>(), choosing(ps, ps.len() as int, g), g.n <= u32::MAX, same_leads(g, h), ranges_ok(h), apart(h),
    ensures machine_of_all(ps, h),
{
    split_ready(g, h);
    assert forall|w: Seq<S>, o: O| #[trigger] yields(h, w, o) <==> one_of(ps, ps.len() as int, w, o) by {
        same_yields(g, h, w, o);
        yields_runs(g, w, o);
    }
}
pub proof fn settled_picks<S: Clone + Ord, O: Ord>(ps: Seq<(Pattern<S>, O)>, g: Graph<SymbolRange<S>, O>, r: SymbolRangeDfa<S, O>)
    requires machine_of_all(ps, g), settles(g, r),
    ensures picker(ps, r),
{
    assert forall|w: Seq<S>| picks(ps, w, #[trigger] r.accepts(0, w)) by {
        let a = r.accepts(0, w);
        assert(answers(g, w, a));
        match a {
            Some(o) => { assert(yields(g, w, o)); assert forall|p: O| #[trigger] one_of(ps, ps.len() as int, w, p) implies le(o, p) by { assert(yields(g, w, p)); } }
            None => { assert forall|i: int| 0 <= i < ps.len() implies !lang((#[trigger] ps[i]).0, w) by { if lang(ps[i].0, w) { assert(one_of(ps, ps.len() as int, w, ps[i].1)); assert(yields(g, w, ps[i].1)); } } }
        }
    }
}

// ---- tokens -------------------------------------------------------------------------------------
/// C15: the token at the start of w: the longest non-empty prefix the machine accepts, with its output
pub open spec fn token_at<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>, n: int, o: O) -> bool {
    0 < n <= w.len() && d.accepts(0, w.take(n)) == Some(o) && forall|m: int| n < m <= w.len() ==> d.accepts(0, #[trigger] w.take(m)) is None
}
pub open spec fn no_token<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>) -> bool { forall|m: int| 0 < m <= w.len() ==> d.accepts(0, #[trigger] w.take(m)) is None }
/// what a token read at a position of the stream is
pub open spec fn is_token<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>, pos: int, t: (Range<usize>, O)) -> bool {
    t.0.start == pos && token_at(d, w, t.0.end - t.0.start, t.1)
}
/// C16: the next token of w, after as few symbols as possible
pub open spec fn token_after<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>, pos: int, k: int, t: (Range<usize>, O)) -> bool {
    0 <= k <= w.len() && is_token(d, w.skip(k), pos + k, t) && forall|j: int| 0 <= j < k ==> no_token(d, #[trigger] w.skip(j))
}
pub open spec fn no_more<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>) -> bool { forall|j: int| 0 <= j <= w.len() ==> no_token(d, #[trigger] w.skip(j)) }
pub proof fn one_token<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>, n: int, o: O, m: int, p: O)
    requires token_at(d, w, n, o), token_at(d, w, m, p),
    ensures n == m, o == p,
{}
/// the outputs of the tokens that follow one another from the start of w, up to the first place with none
pub open spec fn tokens_now<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>) -> Seq<O>
    decreases w.len()
{
    if exists|n: int, o: O| #[trigger] token_at(d, w, n, o) {
        let (n, o) = choose|n: int, o: O| #[trigger] token_at(d, w, n, o);
        seq![o] + tokens_now(d, w.skip(n))
    } else { seq![] }
}
pub proof fn first_now<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>, n: int, o: O)
    requires token_at(d, w, n, o),
    ensures tokens_now(d, w) == seq![o] + tokens_now(d, w.skip(n)),
{
    let (m, p) = choose|m: int, p: O| #[trigger] token_at(d, w, m, p);
    one_token(d, w, n, o, m, p);
}
pub proof fn none_now<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>)
    requires no_token(d, w),
    ensures tokens_now(d, w) == Seq::<O>::empty(),
{}
/// C16: everything found in the stream, in order
pub open spec fn toks<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>, pos: int) -> Seq<(Range<usize>, O)>
    decreases w.len()
{
    if exists|k: int, t: (Range<usize>, O)| #[trigger] token_after(d, w, pos, k, t) {
        let (k, t) = choose|k: int, t: (Range<usize>, O)| #[trigger] token_after(d, w, pos, k, t);
        seq![t] + toks(d, w.skip(k + t.0.end - t.0.start), t.0.end as int)
    } else { seq![] }
}
/// there is only one next token
pub proof fn one_after<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>, pos: int, k: int, t: (Range<usize>, O), j: int, u: (Range<usize>, O))
    requires token_after(d, w, pos, k, t), token_after(d, w, pos, j, u),
    ensures k == j, t == u,
{
    if k < j { assert(no_token(d, w.skip(k))); }
    if j < k { assert(no_token(d, w.skip(j))); }
    one_token(d, w.skip(k), t.0.end - t.0.start, t.1, u.0.end - u.0.start, u.1);
}
pub proof fn first_tok<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>, pos: int, k: int, t: (Range<usize>, O))
    requires token_after(d, w, pos, k, t),
    ensures toks(d, w, pos) == seq![t] + toks(d, w.skip(k + t.0.end - t.0.start), t.0.end as int),
{
    let (j, u) = choose|j: int, u: (Range<usize>, O)| #[trigger] token_after(d, w, pos, j, u);
    one_after(d, w, pos, k, t, j, u);
}
pub proof fn no_toks<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>, pos: int)
    requires no_more(d, w),
    ensures toks(d, w, pos) == Seq::<(Range<usize>, O)>::empty(),
{
    if exists|k: int, t: (Range<usize>, O)| #[trigger] token_after(d, w, pos, k, t) {
        let (k, t) = choose|k: int, t: (Range<usize>, O)| #[trigger] token_after(d, w, pos, k, t);
        assert(no_token(d, w.skip(k)));
    }
}
/// the tokens of a stream lie in it one after the other
pub proof fn toks_apart<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>, pos: int, i: int)
    requires 0 <= i < toks(d, w, pos).len(), 0 <= pos,
    ensures ({
        let t = toks(d, w, pos);
        &&& pos <= t[i].0.start < t[i].0.end <= pos + w.len()
        &&& i > 0 ==> t[i - 1].0.end <= t[i].0.start
    }),
    decreases i,
{
    let (k, t) = choose|k: int, t: (Range<usize>, O)| #[trigger] token_after(d, w, pos, k, t);
    let v = w.skip(k + t.0.end - t.0.start);
    assert(toks(d, w, pos) =~= seq![t] + toks(d, v, t.0.end as int));
    if i > 0 { toks_apart(d, v, t.0.end as int, i - 1); }
}
