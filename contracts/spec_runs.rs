//@needs symbol_range state_machine
// Runs of a machine over symbols, following transitions and joins; how runs of a machine put together
// from parts decompose into runs of the parts.
use crate::spec_base::*;
use crate::symbol_range::*;
use crate::state_machine::*;

pub type Id = u32;
/// the transitions and joins of a machine, or of a part of one
#[verifier::reject_recursive_types(S)]
pub struct Net<S: Ord> { pub edges: ISet<(Id, SymbolRange<S>, Id)>, pub joins: ISet<(Id, Id)> }
pub open spec fn net<S: Ord, O>(g: Graph<SymbolRange<S>, O>) -> Net<S> { Net { edges: g.edges, joins: g.joins } }
pub open spec fn nothing<S: Ord>() -> Net<S> { Net { edges: ISet::empty(), joins: ISet::empty() } }
pub open spec fn minus<S: Ord>(a: Net<S>, b: Net<S>) -> Net<S> { Net { edges: a.edges.difference(b.edges), joins: a.joins.difference(b.joins) } }
pub open spec fn plus<S: Ord>(a: Net<S>, b: Net<S>) -> Net<S> { Net { edges: a.edges.union(b.edges), joins: a.joins.union(b.joins) } }
pub open spec fn plus_join<S: Ord>(a: Net<S>, x: Id, y: Id) -> Net<S> { Net { joins: a.joins.insert((x, y)), ..a } }
pub open spec fn part_of<S: Ord>(a: Net<S>, b: Net<S>) -> bool { a.edges.subset_of(b.edges) && a.joins.subset_of(b.joins) }
/// a transition leads from a to m on the symbol
pub open spec fn estep<S: Ord>(nw: Net<S>, a: Id, c: S, m: Id) -> bool { exists|x: SymbolRange<S>| #[trigger] nw.edges.contains((a, x, m)) && in_range(x, c) }
/// b is reached from a in k steps that read w
pub open spec fn run<S: Ord>(nw: Net<S>, a: Id, w: Seq<S>, b: Id, k: nat) -> bool
    decreases k
{
    if k == 0 { a == b && w.len() == 0 } else {
        ||| exists|m: Id| #[trigger] nw.joins.contains((a, m)) && run(nw, m, w, b, (k - 1) as nat)
        ||| w.len() > 0 && exists|m: Id| #[trigger] estep(nw, a, w[0], m) && run(nw, m, w.skip(1), b, (k - 1) as nat)
    }
}
pub open spec fn runs<S: Ord>(nw: Net<S>, a: Id, w: Seq<S>, b: Id) -> bool { exists|k: nat| run(nw, a, w, b, k) }

/// the first step of a run
pub open spec fn by_join<S: Ord>(nw: Net<S>, a: Id, w: Seq<S>, b: Id, k: nat, m: Id) -> bool { k > 0 && nw.joins.contains((a, m)) && run(nw, m, w, b, (k - 1) as nat) }
pub open spec fn by_edge<S: Ord>(nw: Net<S>, a: Id, w: Seq<S>, b: Id, k: nat, m: Id) -> bool { k > 0 && w.len() > 0 && estep(nw, a, w[0], m) && run(nw, m, w.skip(1), b, (k - 1) as nat) }
pub proof fn first_step<S: Ord>(nw: Net<S>, a: Id, w: Seq<S>, b: Id, k: nat) -> (r: (bool, Id))
    requires run(nw, a, w, b, k), k > 0,
    ensures r.0 ==> by_join(nw, a, w, b, k, r.1), !r.0 ==> by_edge(nw, a, w, b, k, r.1),
{
    if exists|m: Id| #[trigger] nw.joins.contains((a, m)) && run(nw, m, w, b, (k - 1) as nat) {
        (true, choose|m: Id| #[trigger] nw.joins.contains((a, m)) && run(nw, m, w, b, (k - 1) as nat))
    } else {
        (false, choose|m: Id| #[trigger] estep(nw, a, w[0], m) && run(nw, m, w.skip(1), b, (k - 1) as nat))
    }
}
pub proof fn runs_none<S: Ord>(nw: Net<S>, a: Id)
    ensures runs(nw, a, Seq::<S>::empty(), a),
{ assert(run(nw, a, Seq::<S>::empty(), a, 0)); }
pub proof fn runs_join<S: Ord>(nw: Net<S>, a: Id, m: Id, w: Seq<S>, b: Id)
    requires nw.joins.contains((a, m)), runs(nw, m, w, b),
    ensures runs(nw, a, w, b),
{ let k = choose|k: nat| run(nw, m, w, b, k); assert(run(nw, a, w, b, k + 1)); }
pub proof fn runs_edge<S: Ord>(nw: Net<S>, a: Id, m: Id, w: Seq<S>, b: Id)
    requires w.len() > 0, estep(nw, a, w[0], m), runs(nw, m, w.skip(1), b),
    ensures runs(nw, a, w, b),
{ let k = choose|k: nat| run(nw, m, w.skip(1), b, k); assert(run(nw, a, w, b, k + 1)); }
pub proof fn run_mono<S: Ord>(p: Net<S>, q: Net<S>, a: Id, w: Seq<S>, b: Id, k: nat)
    requires part_of(p, q), run(p, a, w, b, k),
    ensures run(q, a, w, b, k),
    decreases k,
{
    if k > 0 {
        let (j, m) = first_step(p, a, w, b, k);
        if j { run_mono(p, q, m, w, b, (k - 1) as nat); assert(q.joins.contains((a, m))); }
        else {
            run_mono(p, q, m, w.skip(1), b, (k - 1) as nat);
            let x = choose|x: SymbolRange<S>| #[trigger] p.edges.contains((a, x, m)) && in_range(x, w[0]);
            assert(q.edges.contains((a, x, m)));
            assert(estep(q, a, w[0], m));
        }
    }
}
pub proof fn runs_mono<S: Ord>(p: Net<S>, q: Net<S>, a: Id, w: Seq<S>, b: Id)
    requires part_of(p, q), runs(p, a, w, b),
    ensures runs(q, a, w, b),
{ let k = choose|k: nat| run(p, a, w, b, k); run_mono(p, q, a, w, b, k); }
pub proof fn runs_cat<S: Ord>(nw: Net<S>, a: Id, u: Seq<S>, b: Id, v: Seq<S>, c: Id)
    requires runs(nw, a, u, b), runs(nw, b, v, c),
    ensures runs(nw, a, u + v, c),
{ let k = choose|k: nat| run(nw, a, u, b, k); run_cat(nw, a, u, b, v, c, k); }
proof fn run_cat<S: Ord>(nw: Net<S>, a: Id, u: Seq<S>, b: Id, v: Seq<S>, c: Id, k: nat)
    requires run(nw, a, u, b, k), runs(nw, b, v, c),
    ensures runs(nw, a, u + v, c),
    decreases k,
{
    if k == 0 { assert(u + v =~= v); }
    else {
        let (j, m) = first_step(nw, a, u, b, k);
        if j { run_cat(nw, m, u, b, v, c, (k - 1) as nat); runs_join(nw, a, m, u + v, c); }
        else { run_cat(nw, m, u.skip(1), b, v, c, (k - 1) as nat); assert((u + v).skip(1) =~= u.skip(1) + v); assert((u + v)[0] == u[0]); runs_edge(nw, a, m, u + v, c); }
    }
}
/// the part mentions only states below hi
pub open spec fn within<S: Ord>(p: Net<S>, hi: int) -> bool {
    &&& forall|a: Id, x: SymbolRange<S>, b: Id| #[trigger] p.edges.contains((a, x, b)) ==> a < hi && b < hi
    &&& forall|a: Id, b: Id| #[trigger] p.joins.contains((a, b)) ==> a < hi && b < hi
}
/// the part leads from q and states from lo on, to states from lo on (or it joins q to itself)
pub open spec fn hangs<S: Ord>(p: Net<S>, q: Id, lo: int) -> bool {
    &&& forall|a: Id, x: SymbolRange<S>, b: Id| #[trigger] p.edges.contains((a, x, b)) ==> (a == q || a >= lo) && b >= lo
    &&& forall|a: Id, b: Id| #[trigger] p.joins.contains((a, b)) ==> (a == q || a >= lo) && (b >= lo || (a, b) == (q, q))
}
/// nothing leads from t
pub open spec fn dead<S: Ord>(p: Net<S>, t: Id) -> bool {
    &&& forall|x: SymbolRange<S>, b: Id| !#[trigger] p.edges.contains((t, x, b))
    &&& forall|b: Id| !#[trigger] p.joins.contains((t, b))
}
pub proof fn dead_run<S: Ord>(p: Net<S>, t: Id, w: Seq<S>, b: Id)
    requires dead(p, t),
    ensures runs(p, t, w, b) <==> t == b && w.len() == 0,
{
    if runs(p, t, w, b) {
        let k = choose|k: nat| run(p, t, w, b, k);
        if k > 0 { let (j, m) = first_step(p, t, w, b, k); }
    }
    if t == b && w.len() == 0 { assert(w =~= Seq::empty()); runs_none(p, t); }
}
/// a part that hangs from s never comes back to it
pub proof fn never_back<S: Ord>(p: Net<S>, s: Id, lo: int, w: Seq<S>)
    requires hangs(p, s, lo), s < lo,
    ensures runs(p, s, w, s) <==> w.len() == 0,
{
    if runs(p, s, w, s) { let k = choose|k: nat| run(p, s, w, s, k); not_back(p, s, lo, s, w, k); }
    if w.len() == 0 { assert(w =~= Seq::empty()); runs_none(p, s); }
}
proof fn not_back<S: Ord>(p: Net<S>, s: Id, lo: int, a: Id, w: Seq<S>, k: nat)
    requires hangs(p, s, lo), s < lo, run(p, a, w, s, k),
    ensures a == s, w.len() == 0,
    decreases k,
{
    if k > 0 {
        let (j, m) = first_step(p, a, w, s, k);
        if j { not_back(p, s, lo, m, w, (k - 1) as nat); }
        else {
            not_back(p, s, lo, m, w.skip(1), (k - 1) as nat);
            let x = choose|x: SymbolRange<S>| #[trigger] p.edges.contains((a, x, m)) && in_range(x, w[0]);
        }
    }
}
/// once in the new part, a run stays there
proof fn stays<S: Ord>(p: Net<S>, f: Net<S>, q: Id, n: int, b: Id, w: Seq<S>, r: Id, k: nat)
    requires within(p, n), hangs(f, q, n), q < n, b >= n, run(plus(p, f), b, w, r, k),
    ensures r >= n, run(f, b, w, r, k),
    decreases k,
{
    if k > 0 {
        let (j, m) = first_step(plus(p, f), b, w, r, k);
        if j { assert(f.joins.contains((b, m))); stays(p, f, q, n, m, w, r, (k - 1) as nat); }
        else {
            let x = choose|x: SymbolRange<S>| #[trigger] plus(p, f).edges.contains((b, x, m)) && in_range(x, w[0]);
            assert(f.edges.contains((b, x, m)));
            assert(estep(f, b, w[0], m));
            stays(p, f, q, n, m, w.skip(1), r, (k - 1) as nat);
        }
    }
}
/// a part hung from q adds nothing to the runs that end in the old part
pub proof fn old_runs<S: Ord>(p: Net<S>, f: Net<S>, q: Id, n: int, a: Id, w: Seq<S>, r: Id)
    requires within(p, n), hangs(f, q, n), q < n, a < n, r < n,
    ensures runs(plus(p, f), a, w, r) <==> runs(p, a, w, r),
{
    if runs(plus(p, f), a, w, r) { let k = choose|k: nat| run(plus(p, f), a, w, r, k); old_run(p, f, q, n, a, w, r, k); }
    if runs(p, a, w, r) { runs_mono(p, plus(p, f), a, w, r); }
}
proof fn old_run<S: Ord>(p: Net<S>, f: Net<S>, q: Id, n: int, a: Id, w: Seq<S>, r: Id, k: nat)
    requires within(p, n), hangs(f, q, n), q < n, a < n, r < n, run(plus(p, f), a, w, r, k),
    ensures runs(p, a, w, r),
    decreases k,
{
    if k == 0 { assert(run(p, a, w, r, 0)); }
    else {
        let (j, m) = first_step(plus(p, f), a, w, r, k);
        if m >= n { if j { stays(p, f, q, n, m, w, r, (k - 1) as nat); } else { stays(p, f, q, n, m, w.skip(1), r, (k - 1) as nat); } }
        else if j {
            old_run(p, f, q, n, m, w, r, (k - 1) as nat);
            if p.joins.contains((a, m)) { runs_join(p, a, m, w, r); }
        } else {
            old_run(p, f, q, n, m, w.skip(1), r, (k - 1) as nat);
            let x = choose|x: SymbolRange<S>| #[trigger] plus(p, f).edges.contains((a, x, m)) && in_range(x, w[0]);
            assert(p.edges.contains((a, x, m)));
            assert(estep(p, a, w[0], m));
            runs_edge(p, a, m, w, r);
        }
    }
}
/// w is read by going to q in the old part, then to r in the new one
pub open spec fn in_two<S: Ord>(p: Net<S>, f: Net<S>, q: Id, a: Id, w: Seq<S>, r: Id, i: int) -> bool { 0 <= i <= w.len() && runs(p, a, w.take(i), q) && runs(f, q, w.skip(i), r) }
/// the runs into a part hung from q
pub proof fn new_runs<S: Ord>(p: Net<S>, f: Net<S>, q: Id, n: int, a: Id, w: Seq<S>, r: Id)
    requires within(p, n), hangs(f, q, n), q < n, a < n, r >= n,
    ensures runs(plus(p, f), a, w, r) <==> exists|i: int| #[trigger] in_two(p, f, q, a, w, r, i),
{
    if runs(plus(p, f), a, w, r) { let k = choose|k: nat| run(plus(p, f), a, w, r, k); let i = new_run(p, f, q, n, a, w, r, k); }
    if exists|i: int| #[trigger] in_two(p, f, q, a, w, r, i) {
        let i = choose|i: int| #[trigger] in_two(p, f, q, a, w, r, i);
        runs_mono(p, plus(p, f), a, w.take(i), q);
        runs_mono(f, plus(p, f), q, w.skip(i), r);
        runs_cat(plus(p, f), a, w.take(i), q, w.skip(i), r);
        assert(w.take(i) + w.skip(i) =~= w);
    }
}
proof fn new_run<S: Ord>(p: Net<S>, f: Net<S>, q: Id, n: int, a: Id, w: Seq<S>, r: Id, k: nat) -> (i: int)
    requires within(p, n), hangs(f, q, n), q < n, a < n, r >= n, run(plus(p, f), a, w, r, k),
    ensures in_two(p, f, q, a, w, r, i),
    decreases k,
{
    let (j, m) = first_step(plus(p, f), a, w, r, k);
    if j {
        if m >= n {
            assert(f.joins.contains((a, m)) && a == q);
            stays(p, f, q, n, m, w, r, (k - 1) as nat);
            runs_join(f, q, m, w, r);
            runs_none(p, q);
            assert(w.take(0) =~= Seq::empty() && w.skip(0) =~= w);
            0
        } else {
            let i = new_run(p, f, q, n, m, w, r, (k - 1) as nat);
            if p.joins.contains((a, m)) { runs_join(p, a, m, w.take(i), q); }
            i
        }
    } else {
        let x = choose|x: SymbolRange<S>| #[trigger] plus(p, f).edges.contains((a, x, m)) && in_range(x, w[0]);
        if m >= n {
            assert(f.edges.contains((a, x, m)) && a == q);
            stays(p, f, q, n, m, w.skip(1), r, (k - 1) as nat);
            assert(estep(f, q, w[0], m));
            runs_edge(f, q, m, w, r);
            runs_none(p, q);
            assert(w.take(0) =~= Seq::empty() && w.skip(0) =~= w);
            0
        } else {
            let i = new_run(p, f, q, n, m, w.skip(1), r, (k - 1) as nat);
            assert(p.edges.contains((a, x, m)));
            assert(estep(p, a, w[0], m));
            assert(w.take(i + 1).skip(1) =~= w.skip(1).take(i));
            assert(w.skip(i + 1) =~= w.skip(1).skip(i));
            assert(w.take(i + 1)[0] == w[0]);
            runs_edge(p, a, m, w.take(i + 1), q);
            i + 1
        }
    }
}
/// a join from q to a state nothing leads from
pub proof fn exit_runs<S: Ord>(p: Net<S>, q: Id, t: Id, a: Id, w: Seq<S>, b: Id)
    requires dead(p, t), q != t,
    ensures
        b == t ==> (runs(plus_join(p, q, t), a, w, t) <==> runs(p, a, w, t) || runs(p, a, w, q)),
        b != t ==> (runs(plus_join(p, q, t), a, w, b) <==> runs(p, a, w, b)),
{
    let u = plus_join(p, q, t);
    if runs(u, a, w, b) { let k = choose|k: nat| run(u, a, w, b, k); exit_run(p, q, t, a, w, b, k); }
    if runs(p, a, w, b) { runs_mono(p, u, a, w, b); }
    if b == t && runs(p, a, w, q) {
        runs_mono(p, u, a, w, q);
        runs_none(u, t);
        runs_join(u, q, t, Seq::empty(), t);
        runs_cat(u, a, w, q, Seq::empty(), t);
        assert(w + Seq::<S>::empty() =~= w);
    }
}
proof fn exit_run<S: Ord>(p: Net<S>, q: Id, t: Id, a: Id, w: Seq<S>, b: Id, k: nat)
    requires dead(p, t), q != t, run(plus_join(p, q, t), a, w, b, k),
    ensures b == t ==> runs(p, a, w, t) || runs(p, a, w, q), b != t ==> runs(p, a, w, b),
    decreases k,
{
    let u = plus_join(p, q, t);
    if k == 0 { assert(run(p, a, w, b, 0)); }
    else {
        let (j, m) = first_step(u, a, w, b, k);
        if j {
            if p.joins.contains((a, m)) {
                exit_run(p, q, t, m, w, b, (k - 1) as nat);
                if runs(p, m, w, b) { runs_join(p, a, m, w, b); }
                if runs(p, m, w, q) { runs_join(p, a, m, w, q); }
            } else {
                assert(a == q && m == t);
                if k > 1 { let (j2, m2) = first_step(u, t, w, b, (k - 1) as nat); assert(!estep(u, t, w[0], m2)); assert(false); }
                assert(w =~= Seq::empty());
                runs_none(p, q);
            }
        } else {
            let x = choose|x: SymbolRange<S>| #[trigger] u.edges.contains((a, x, m)) && in_range(x, w[0]);
            assert(p.edges.contains((a, x, m)));
            assert(estep(p, a, w[0], m));
            exit_run(p, q, t, m, w.skip(1), b, (k - 1) as nat);
            if runs(p, m, w.skip(1), b) { runs_edge(p, a, m, w, b); }
            if runs(p, m, w.skip(1), q) { runs_edge(p, a, m, w, q); }
        }
    }
}
/// w is split into j pieces, each of which leads from q to r in the part
pub open spec fn laps<S: Ord>(f: Net<S>, q: Id, r: Id, w: Seq<S>, j: nat) -> bool
    decreases j
{
    if j == 0 { w.len() == 0 } else { exists|i: int| 0 <= i <= w.len() && #[trigger] runs(f, q, w.take(i), r) && laps(f, q, r, w.skip(i), (j - 1) as nat) }
}
pub open spec fn then_laps<S: Ord>(p: Net<S>, a: Id, f: Net<S>, q: Id, r: Id, w: Seq<S>, b: Id, i: int, j: nat) -> bool { 0 <= i <= w.len() && runs(p, a, w.take(i), b) && laps(f, q, r, w.skip(i), j) }
/// what a loop rests on: t is reached from q by a join only, nothing leads from t, the part f hangs from q and ends at r
pub open spec fn looped<S: Ord>(p: Net<S>, f: Net<S>, q: Id, r: Id, t: Id, n: int) -> bool {
    &&& within(p, n) && hangs(f, q, n) && q < n && t < n && q != t && dead(p, t)
    &&& p.joins.contains((q, t))
    &&& forall|x: SymbolRange<S>, b: Id| !#[trigger] p.edges.contains((q, x, b))
    &&& forall|b: Id| #[trigger] p.joins.contains((q, b)) ==> b == t
    &&& r >= n && dead(f, r) || r == q && f == nothing::<S>()
}
proof fn at_q<S: Ord>(p: Net<S>, f: Net<S>, q: Id, r: Id, t: Id, n: int, w: Seq<S>)
    requires looped(p, f, q, r, t, n),
    ensures runs(p, q, w, t) <==> w.len() == 0, runs(p, q, w, q) <==> w.len() == 0,
{
    dead_run(p, t, w, t);
    dead_run(p, t, w, q);
    if runs(p, q, w, t) { let k = choose|k: nat| run(p, q, w, t, k); let (j, m) = first_step(p, q, w, t, k); assert(!estep(p, q, w[0], m)); assert(runs(p, t, w, t)); }
    if runs(p, q, w, q) { let k = choose|k: nat| run(p, q, w, q, k); if k > 0 { let (j, m) = first_step(p, q, w, q, k); assert(!estep(p, q, w[0], m)); assert(runs(p, t, w, q)); } }
    if w.len() == 0 { assert(w =~= Seq::empty()); runs_none(p, q); runs_join(p, q, t, w, t); }
}
/// the runs to t when the end of the part is joined back to its start
pub proof fn loop_runs<S: Ord>(p: Net<S>, f: Net<S>, q: Id, r: Id, t: Id, n: int, a: Id, w: Seq<S>)
    requires looped(p, f, q, r, t, n), a < n,
    ensures runs(plus_join(plus(p, f), r, q), a, w, t) <==> runs(p, a, w, t) || exists|i: int, j: nat| #[trigger] then_laps(p, a, f, q, r, w, q, i, j),
{
    let u = plus_join(plus(p, f), r, q);
    if runs(u, a, w, t) { let k = choose|k: nat| run(u, a, w, t, k); if !runs(p, a, w, t) { loop_run(p, f, q, r, t, n, a, w, k); } }
    if runs(p, a, w, t) { runs_mono(p, u, a, w, t); }
    if exists|i: int, j: nat| #[trigger] then_laps(p, a, f, q, r, w, q, i, j) {
        let (i, j) = choose|i: int, j: nat| #[trigger] then_laps(p, a, f, q, r, w, q, i, j);
        runs_mono(p, u, a, w.take(i), q);
        laps_run(p, f, q, r, t, n, w.skip(i), j);
        runs_cat(u, a, w.take(i), q, w.skip(i), t);
        assert(w.take(i) + w.skip(i) =~= w);
    }
}
proof fn laps_run<S: Ord>(p: Net<S>, f: Net<S>, q: Id, r: Id, t: Id, n: int, w: Seq<S>, j: nat)
    requires looped(p, f, q, r, t, n), laps(f, q, r, w, j),
    ensures runs(plus_join(plus(p, f), r, q), q, w, t),
    decreases j,
{
    let u = plus_join(plus(p, f), r, q);
    if j == 0 { at_q(p, f, q, r, t, n, w); runs_mono(p, u, q, w, t); }
    else {
        let i = choose|i: int| 0 <= i <= w.len() && #[trigger] runs(f, q, w.take(i), r) && laps(f, q, r, w.skip(i), (j - 1) as nat);
        laps_run(p, f, q, r, t, n, w.skip(i), (j - 1) as nat);
        runs_mono(f, u, q, w.take(i), r);
        runs_join(u, r, q, w.skip(i), t);
        runs_cat(u, q, w.take(i), r, w.skip(i), t);
        assert(w.take(i) + w.skip(i) =~= w);
    }
}
/// one step put before what is known of the rest
proof fn before_laps<S: Ord>(p: Net<S>, a: Id, m: Id, f: Net<S>, q: Id, r: Id, w: Seq<S>, b: Id, i: int, j: nat)
    requires w.len() > 0, estep(p, a, w[0], m), then_laps(p, m, f, q, r, w.skip(1), b, i, j),
    ensures then_laps(p, a, f, q, r, w, b, i + 1, j),
{
    assert(w.take(i + 1).skip(1) =~= w.skip(1).take(i));
    assert(w.skip(i + 1) =~= w.skip(1).skip(i));
    assert(w.take(i + 1)[0] == w[0]);
    runs_edge(p, a, m, w.take(i + 1), b);
}
proof fn loop_run<S: Ord>(p: Net<S>, f: Net<S>, q: Id, r: Id, t: Id, n: int, a: Id, w: Seq<S>, k: nat)
    requires looped(p, f, q, r, t, n), run(plus_join(plus(p, f), r, q), a, w, t, k),
    ensures
        a < n ==> runs(p, a, w, t) || exists|i: int, j: nat| #[trigger] then_laps(p, a, f, q, r, w, q, i, j),
        a >= n ==> exists|i: int, j: nat| #[trigger] then_laps(f, a, f, q, r, w, r, i, j),
    decreases k,
{
    let u = plus_join(plus(p, f), r, q);
    if k == 0 { assert(run(p, a, w, t, 0)); }
    else {
        let (jn, m) = first_step(u, a, w, t, k);
        let k1 = (k - 1) as nat;
        if jn {
            loop_run(p, f, q, r, t, n, m, w, k1);
            if a < n {
                if p.joins.contains((a, m)) {
                    if runs(p, m, w, t) { runs_join(p, a, m, w, t); }
                    else { let (i, j) = choose|i: int, j: nat| #[trigger] then_laps(p, m, f, q, r, w, q, i, j); runs_join(p, a, m, w.take(i), q); assert(then_laps(p, a, f, q, r, w, q, i, j)); }
                } else if f.joins.contains((a, m)) && m >= n {
                    enter(p, f, q, r, t, n, m, w, w, k1);
                } else { assert(a == q && m == q); }
            } else {
                if f.joins.contains((a, m)) {
                    assert(m >= n || (a, m) == (q, q));
                    let (i, j) = choose|i: int, j: nat| #[trigger] then_laps(f, m, f, q, r, w, r, i, j);
                    runs_join(f, a, m, w.take(i), r);
                    assert(then_laps(f, a, f, q, r, w, r, i, j));
                } else {
                    assert(a == r && m == q);
                    at_q_laps(p, f, q, r, t, n, w);
                    let j = choose|j: nat| laps(f, q, r, w, j);
                    runs_none(f, r);
                    assert(w.take(0) =~= Seq::empty() && w.skip(0) =~= w);
                    assert(then_laps(f, a, f, q, r, w, r, 0, j));
                }
            }
        } else {
            loop_run(p, f, q, r, t, n, m, w.skip(1), k1);
            let x = choose|x: SymbolRange<S>| #[trigger] u.edges.contains((a, x, m)) && in_range(x, w[0]);
            let v = w.skip(1);
            if a < n {
                if p.edges.contains((a, x, m)) {
                    assert(estep(p, a, w[0], m));
                    if runs(p, m, v, t) { runs_edge(p, a, m, w, t); }
                    else { let (i, j) = choose|i: int, j: nat| #[trigger] then_laps(p, m, f, q, r, v, q, i, j); before_laps(p, a, m, f, q, r, w, q, i, j); }
                } else {
                    assert(f.edges.contains((a, x, m)));
                    assert(a == q && m >= n);
                    assert(estep(f, q, w[0], m));
                    enter(p, f, q, r, t, n, m, v, w, k1);
                }
            } else {
                assert(f.edges.contains((a, x, m)));
                assert(estep(f, a, w[0], m));
                let (i, j) = choose|i: int, j: nat| #[trigger] then_laps(f, m, f, q, r, v, r, i, j);
                before_laps(f, a, m, f, q, r, w, r, i, j);
            }
        }
    }
}
/// from q into the part: one more lap
proof fn enter<S: Ord>(p: Net<S>, f: Net<S>, q: Id, r: Id, t: Id, n: int, m: Id, v: Seq<S>, w: Seq<S>, k: nat)
    requires
        looped(p, f, q, r, t, n), m >= n,
        exists|i: int, j: nat| #[trigger] then_laps(f, m, f, q, r, v, r, i, j),
        (v == w && f.joins.contains((q, m))) || (w.len() > 0 && v == w.skip(1) && estep(f, q, w[0], m)),
    ensures exists|i: int, j: nat| #[trigger] then_laps(p, q, f, q, r, w, q, i, j),
{
    let (i, j) = choose|i: int, j: nat| #[trigger] then_laps(f, m, f, q, r, v, r, i, j);
    if w.len() > 0 && v == w.skip(1) && estep(f, q, w[0], m) {
        before_laps(f, q, m, f, q, r, w, r, i, j);
        assert(runs(f, q, w.take(i + 1), r) && laps(f, q, r, w.skip(i + 1), j));
    } else {
        runs_join(f, q, m, w.take(i), r);
        assert(runs(f, q, w.take(i), r) && laps(f, q, r, w.skip(i), j));
    }
    assert(laps(f, q, r, w, j + 1));
    runs_none(p, q);
    assert(w.take(0) =~= Seq::empty() && w.skip(0) =~= w);
    assert(then_laps(p, q, f, q, r, w, q, 0, j + 1));
}
/// what is known of a run from q, as laps
proof fn at_q_laps<S: Ord>(p: Net<S>, f: Net<S>, q: Id, r: Id, t: Id, n: int, w: Seq<S>)
    requires looped(p, f, q, r, t, n), runs(p, q, w, t) || exists|i: int, j: nat| #[trigger] then_laps(p, q, f, q, r, w, q, i, j),
    ensures exists|j: nat| laps(f, q, r, w, j),
{
    if runs(p, q, w, t) { at_q(p, f, q, r, t, n, w); assert(laps(f, q, r, w, 0)); }
    else {
        let (i, j) = choose|i: int, j: nat| #[trigger] then_laps(p, q, f, q, r, w, q, i, j);
        at_q(p, f, q, r, t, n, w.take(i));
        assert(w.skip(i) =~= w);
    }
}
