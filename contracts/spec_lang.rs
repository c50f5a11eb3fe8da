//@needs symbol_range state_machine ndfa regular_pattern
// The language of a pattern, and how the parts of a compiled machine read it.
use crate::spec_base::*;
use vstd::std_specs::cmp::*;
use crate::countable::*;
use crate::symbol_range::*;
use crate::state_machine::*;
use crate::regular_pattern::*;
use crate::spec_runs::*;
use crate::spec_words::*;
use crate::ndfa::*;

pub open spec fn at_least(k: nat, n: nat) -> bool { k >= n }
pub open spec fn in_count(k: nat, lo: nat, hi: nat) -> bool { lo <= k < hi }
/// the order of the symbols, as a pattern's ranges read it
pub open spec fn upto<S: Ord>() -> spec_fn(S, S) -> bool { |a: S, b: S| le(a, b) }
/// the sequences a pattern matches, when ranges are read by the given order
pub open spec fn lang_by<S: Clone>(o: spec_fn(S, S) -> bool, p: Pattern<S>, w: Seq<S>) -> bool
    decreases p, 0nat, 0nat
{
    match p {
        Pattern::Epsilon => w.len() == 0,
        Pattern::Match(v) => w == v@,
        Pattern::MatchRange(a, b) => w.len() == 1 && o(a, w[0]) && o(w[0], b),
        Pattern::RepeatInfinite(n, q) => exists|k: nat| #[trigger] at_least(k, n as nat) && power_by(o, *q, k, w),
        Pattern::Repeat(r, q) => exists|k: nat| #[trigger] in_count(k, r.start as nat, r.end as nat) && power_by(o, *q, k, w),
        Pattern::MatchAll(v) => chain_by(o, v, v@.len(), w),
        Pattern::MatchAny(v) => exists|i: int| 0 <= i < v@.len() && lang_by(o, #[trigger] v@[i], w),
    }
}
/// k matches of the pattern, one after the other
pub open spec fn power_by<S: Clone>(o: spec_fn(S, S) -> bool, p: Pattern<S>, k: nat, w: Seq<S>) -> bool
    decreases p, 1nat, k
{
    if k == 0 { w.len() == 0 } else { exists|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && power_by(o, p, (k - 1) as nat, w.take(i)) && lang_by(o, p, w.skip(i)) }
}
/// a match of each of the first k patterns, one after the other
pub open spec fn chain_by<S: Clone>(o: spec_fn(S, S) -> bool, v: Vec<Pattern<S>>, k: nat, w: Seq<S>) -> bool
    decreases v, k, 0nat
{
    if k == 0 { w.len() == 0 } else if k <= v@.len() { exists|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && chain_by(o, v, (k - 1) as nat, w.take(i)) && lang_by(o, v@[k - 1], w.skip(i)) } else { false }
}
/// C03: the sequences a pattern matches
pub open spec fn lang<S: Clone + Ord>(p: Pattern<S>, w: Seq<S>) -> bool { lang_by(upto::<S>(), p, w) }
pub open spec fn power<S: Clone + Ord>(p: Pattern<S>, k: nat, w: Seq<S>) -> bool { power_by(upto::<S>(), p, k, w) }
pub open spec fn chain<S: Clone + Ord>(v: Vec<Pattern<S>>, k: nat, w: Seq<S>) -> bool { chain_by(upto::<S>(), v, k, w) }
/// one of the first k patterns
pub open spec fn any_of<S: Clone + Ord>(v: Vec<Pattern<S>>, k: int, w: Seq<S>) -> bool { exists|i: int| 0 <= i < k && lang(#[trigger] v@[i], w) }
pub open spec fn between<S: Clone + Ord>(p: Pattern<S>, lo: nat, hi: nat, w: Seq<S>) -> bool { exists|k: nat| lo <= k < hi && #[trigger] power(p, k, w) }
/// the most states compiling the pattern adds
pub open spec fn size<S: Clone>(p: Pattern<S>) -> nat
    decreases p, 0nat
{
    match p {
        Pattern::Epsilon => 0,
        Pattern::Match(v) => v@.len(),
        Pattern::MatchRange(a, b) => 1,
        Pattern::RepeatInfinite(n, q) => 1 + (n as nat + 2) * size(*q),
        Pattern::Repeat(r, q) => 1 + (r.end as nat) * size(*q),
        Pattern::MatchAll(v) => total(v, v@.len()),
        Pattern::MatchAny(v) => 1 + total(v, v@.len()),
    }
}
pub open spec fn total<S: Clone>(v: Vec<Pattern<S>>, k: nat) -> nat
    decreases v, k
{
    if k == 0 || k > v@.len() { 0 } else { total(v, (k - 1) as nat) + size(v@[k - 1]) }
}
/// the pattern has no range that ends before it starts and no count too large to be counted to
pub open spec fn fits_by<S: Clone>(o: spec_fn(S, S) -> bool, p: Pattern<S>) -> bool
    decreases p
{
    match p {
        Pattern::Epsilon => true,
        Pattern::Match(v) => true,
        Pattern::MatchRange(a, b) => o(a, b),
        Pattern::RepeatInfinite(n, q) => n + 2 <= u32::MAX && fits_by(o, *q),
        Pattern::Repeat(r, q) => fits_by(o, *q),
        Pattern::MatchAll(v) => forall|i: int| 0 <= i < v@.len() ==> fits_by(o, #[trigger] v@[i]),
        Pattern::MatchAny(v) => forall|i: int| 0 <= i < v@.len() ==> fits_by(o, #[trigger] v@[i]),
    }
}
pub open spec fn fits<S: Clone + Ord>(p: Pattern<S>) -> bool { fits_by(upto::<S>(), p) }
/// the pattern is compiled to nothing: it ends where it starts
pub open spec fn idle<S: Clone>(p: Pattern<S>) -> bool
    decreases p
{
    match p {
        Pattern::Epsilon => true,
        Pattern::Match(v) => v@.len() == 0,
        Pattern::MatchAll(v) => forall|i: int| 0 <= i < v@.len() ==> idle(#[trigger] v@[i]),
        _ => false,
    }
}

// ---- parts of a machine -------------------------------------------------------------------------
pub open spec fn added<S: Ord, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>) -> Net<S> { minus(net(h), net(g)) }
/// h is g with a part added that hangs from s
pub open spec fn grown<S: Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>) -> bool {
    &&& part_of(net(g), net(h)) && h.outs == g.outs && g.n <= h.n && h.closed()
    &&& hangs(added(g, h), s, g.n)
    &&& within(added(g, h), h.n)
    &&& forall|a: Id, x: SymbolRange<S>, b: Id| #[trigger] added(g, h).edges.contains((a, x, b)) ==> nonempty(x)
}
/// and ends at r: a new state nothing leads from, or s itself if nothing was added
pub open spec fn ends<S: Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>, r: Id) -> bool {
    r == s && added(g, h) == nothing::<S>() || g.n <= r < h.n && dead(added(g, h), r)
}
/// C03: the part reads exactly the language of the pattern
pub open spec fn reads<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>, r: Id, p: Pattern<S>) -> bool {
    forall|w: Seq<S>| #[trigger] runs(added(g, h), s, w, r) <==> lang(p, w)
}
pub open spec fn compiled<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>, r: Id, p: Pattern<S>) -> bool {
    &&& grown(g, s, h) && ends(g, s, h, r) && reads(g, s, h, r, p)
    &&& h.n <= g.n + size(p)
    &&& (r == s) == idle(p)
}
pub proof fn added_nothing<S: Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>)
    requires g.closed(), h.closed(), h.edges == g.edges, h.joins == g.joins, h.outs == g.outs, h.n >= g.n,
    ensures grown(g, s, h), added(g, h) == nothing::<S>(),
{ assert(added(g, h).edges =~= ISet::empty()); assert(added(g, h).joins =~= ISet::empty()); }
pub proof fn nothing_runs<S: Ord>(s: Id, w: Seq<S>, r: Id)
    ensures runs(nothing::<S>(), s, w, r) <==> s == r && w.len() == 0,
{ dead_run(nothing::<S>(), s, w, r); }
/// what is added in two goes
pub proof fn added_cat<S: Ord, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>, k: Graph<SymbolRange<S>, O>)
    requires part_of(net(g), net(h)), part_of(net(h), net(k)),
    ensures part_of(net(g), net(k)), added(g, k) == plus(added(g, h), added(h, k)),
{
    assert(added(g, k).edges =~= plus(added(g, h), added(h, k)).edges);
    assert(added(g, k).joins =~= plus(added(g, h), added(h, k)).joins);
}
/// the next part hangs from s or from a state of the part before
pub proof fn grown_cat<S: Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>, q: Id, k: Graph<SymbolRange<S>, O>)
    requires g.closed(), grown(g, s, h), grown(h, q, k), q == s || g.n <= q < h.n, s < g.n,
    ensures grown(g, s, k), added(g, k) == plus(added(g, h), added(h, k)),
{ added_cat(g, h, k); }
/// a part after a part
pub proof fn then<S: Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>, q: Id, k: Graph<SymbolRange<S>, O>, r: Id)
    requires g.closed(), s < g.n, grown(g, s, h), q == s || g.n <= q < h.n, grown(h, q, k), ends(h, q, k, r),
    ensures
        grown(g, s, k), added(g, k) == plus(added(g, h), added(h, k)),
        ends(g, s, h, q) ==> ends(g, s, k, r),
        forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, r) <==> exists|i: int| #[trigger] in_two(added(g, h), added(h, k), q, s, w, r, i),
{
    grown_cat(g, s, h, q, k);
    let (p, f) = (added(g, h), added(h, k));
    assert forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, r) <==> exists|i: int| #[trigger] in_two(p, f, q, s, w, r, i) by {
        if r >= h.n { new_runs(p, f, q, h.n, s, w, r); }
        else {
            plus_nothing(p);
            if runs(p, s, w, r) {
                assert(w.take(w.len() as int) =~= w);
                nothing_runs::<S>(q, w.skip(w.len() as int), r);
                assert(in_two(p, f, q, s, w, r, w.len() as int));
            }
            if exists|i: int| #[trigger] in_two(p, f, q, s, w, r, i) {
                let i = choose|i: int| #[trigger] in_two(p, f, q, s, w, r, i);
                nothing_runs::<S>(q, w.skip(i), r);
                assert(w.take(i) =~= w);
            }
        }
    }
    if ends(g, s, h, q) {
        if r >= h.n { assert(dead(added(g, k), r)); }
        else { plus_nothing(p); }
        if q == s { nothing_plus(f); }
    }
}
pub proof fn plus_nothing<S: Ord>(p: Net<S>)
    ensures plus(p, nothing::<S>()) == p,
{ assert(plus(p, nothing::<S>()).edges =~= p.edges); assert(plus(p, nothing::<S>()).joins =~= p.joins); }
pub proof fn nothing_plus<S: Ord>(p: Net<S>)
    ensures plus(nothing::<S>(), p) == p,
{ assert(plus(nothing::<S>(), p).edges =~= p.edges); assert(plus(nothing::<S>(), p).joins =~= p.joins); }
/// a single transition to a new state
pub proof fn single<S: Ord, O>(g: Graph<SymbolRange<S>, O>, q: Id, x: SymbolRange<S>, m: Id, h: Graph<SymbolRange<S>, O>)
    requires g.closed(), q < g.n, m == g.n, nonempty(x), h == (Graph { n: top(top(g.n, q), m), edges: g.edges.insert((q, x, m)), ..g }),
    ensures grown(g, q, h), ends(g, q, h, m), forall|w: Seq<S>| #[trigger] runs(added(g, h), q, w, m) <==> w.len() == 1 && in_range(x, w[0]),
{
    let f = added(g, h);
    assert(!g.edges.contains((q, x, m)));
    assert forall|a: Id, y: SymbolRange<S>, b: Id| #[trigger] f.edges.contains((a, y, b)) implies (a, y, b) == (q, x, m) by { }
    assert(f.edges.contains((q, x, m)));
    assert(f.joins =~= ISet::empty());
    assert(dead(f, m));
    assert forall|w: Seq<S>| #[trigger] runs(f, q, w, m) <==> w.len() == 1 && in_range(x, w[0]) by {
        if runs(f, q, w, m) {
            let k = choose|k: nat| run(f, q, w, m, k);
            let (j, t) = first_step(f, q, w, m, k);
            let y = choose|y: SymbolRange<S>| #[trigger] f.edges.contains((q, y, t)) && in_range(y, w[0]);
            assert(runs(f, m, w.skip(1), m));
            dead_run(f, m, w.skip(1), m);
        }
        if w.len() == 1 && in_range(x, w[0]) {
            assert(estep(f, q, w[0], m));
            assert(w.skip(1) =~= Seq::empty());
            runs_none(f, m);
            runs_edge(f, q, m, w, m);
        }
    }
}
/// one more symbol of a literal
pub proof fn then_symbol<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>, q: Id, k: Graph<SymbolRange<S>, O>, r: Id, x: SymbolRange<S>, v: Seq<S>, i: int)
    requires
        lawful_ord::<S>(), g.closed(), s < g.n, grown(g, s, h), ends(g, s, h, q), grown(h, q, k), ends(h, q, k, r),
        forall|w: Seq<S>| #[trigger] runs(added(g, h), s, w, q) <==> w == v.take(i),
        forall|w: Seq<S>| #[trigger] runs(added(h, k), q, w, r) <==> w.len() == 1 && in_range(x, w[0]),
        0 <= i < v.len(), x.lowest == v[i], x.highest == v[i],
    ensures
        grown(g, s, k), ends(g, s, k, r),
        forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, r) <==> w == v.take(i + 1),
{
    then(g, s, h, q, k, r);
    let (p, f) = (added(g, h), added(h, k));
    assert forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, r) <==> w == v.take(i + 1) by {
        if runs(added(g, k), s, w, r) {
            let j = choose|j: int| #[trigger] in_two(p, f, q, s, w, r, j);
            assert(w.take(j) == v.take(i));
            assert(w.skip(j).len() == 1 && in_range(x, w.skip(j)[0]));
            assert(w.skip(j)[0] == v[i]);
            assert(w =~= v.take(i + 1)) by { assert(w[j] == w.skip(j)[0]); assert forall|z: int| 0 <= z < j implies w[z] == v[z] by { assert(w.take(j)[z] == v.take(i)[z]); } }
        }
        if w == v.take(i + 1) {
            assert(w.take(i) =~= v.take(i));
            assert(w.skip(i).len() == 1 && w.skip(i)[0] == v[i]);
            assert(v[i].cmp_spec(&v[i]) == std::cmp::Ordering::Equal);
            assert(in_two(p, f, q, s, w, r, i));
        }
    }
}
/// one more pattern of a sequence
pub proof fn then_chain<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>, q: Id, k: Graph<SymbolRange<S>, O>, r: Id, v: Vec<Pattern<S>>, i: nat)
    requires
        g.closed(), s < g.n, grown(g, s, h), ends(g, s, h, q), i < v@.len(), compiled(h, q, k, r, v@[i as int]),
        forall|w: Seq<S>| #[trigger] runs(added(g, h), s, w, q) <==> chain(v, i, w),
    ensures
        grown(g, s, k), ends(g, s, k, r),
        forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, r) <==> chain(v, i + 1, w),
{
    then(g, s, h, q, k, r);
    let (p, f) = (added(g, h), added(h, k));
    assert forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, r) <==> chain(v, i + 1, w) by {
        if runs(added(g, k), s, w, r) {
            let j = choose|j: int| #[trigger] in_two(p, f, q, s, w, r, j);
            assert(chain(v, i, w.take(j)) && lang(v@[i as int], w.skip(j)));
        }
        if chain(v, i + 1, w) {
            let j = choose|j: int| #![trigger w.take(j)] 0 <= j <= w.len() && chain(v, i, w.take(j)) && lang(v@[i as int], w.skip(j));
            assert(in_two(p, f, q, s, w, r, j));
        }
    }
}
/// one more round of a repetition
pub proof fn then_power<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>, q: Id, k: Graph<SymbolRange<S>, O>, r: Id, c: Pattern<S>, i: nat)
    requires
        g.closed(), s < g.n, grown(g, s, h), q == s || g.n <= q < h.n, compiled(h, q, k, r, c),
        forall|w: Seq<S>| #[trigger] runs(added(g, h), s, w, q) <==> power(c, i, w),
    ensures
        grown(g, s, k),
        forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, r) <==> power(c, i + 1, w),
{
    then(g, s, h, q, k, r);
    let (p, f) = (added(g, h), added(h, k));
    assert forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, r) <==> power(c, i + 1, w) by {
        if runs(added(g, k), s, w, r) {
            let j = choose|j: int| #[trigger] in_two(p, f, q, s, w, r, j);
            assert(power(c, i, w.take(j)) && lang(c, w.skip(j)));
        }
        if power(c, i + 1, w) {
            let j = choose|j: int| #![trigger w.take(j)] 0 <= j <= w.len() && power(c, i, w.take(j)) && lang(c, w.skip(j));
            assert(in_two(p, f, q, s, w, r, j));
        }
    }
}
// ---- repetitions --------------------------------------------------------------------------------
/// a machine with a target t, made first, and a chain of rounds that has come to q
pub open spec fn rounds<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, t: Id, h: Graph<SymbolRange<S>, O>, q: Id, c: Pattern<S>, i: nat, lo: nat, hi: nat) -> bool {
    let f = added(g, h);
    &&& g.closed() && grown(g, s, h) && s < g.n && t == g.n && t < h.n && dead(f, t)
    &&& q == s || t < q < h.n
    &&& i > 0 && q == s ==> idle(c)
    &&& forall|x: SymbolRange<S>, b: Id| !#[trigger] f.edges.contains((q, x, b))
    &&& forall|b: Id| #[trigger] f.joins.contains((q, b)) ==> b == t
    &&& forall|w: Seq<S>| #[trigger] runs(f, s, w, q) <==> power(c, i, w)
    &&& forall|w: Seq<S>| #[trigger] runs(f, s, w, t) <==> between(c, lo, hi, w)
}
pub proof fn first_round<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, t: Id, h: Graph<SymbolRange<S>, O>, c: Pattern<S>, lo: nat)
    requires g.closed(), s < g.n, t == g.n, h == (Graph { n: top(g.n, t), ..g }),
    ensures rounds(g, s, t, h, s, c, 0, lo, 0),
{
    added_nothing(g, s, h);
    assert forall|w: Seq<S>| #[trigger] runs(added(g, h), s, w, s) <==> power(c, 0, w) by { nothing_runs::<S>(s, w, s); }
    assert forall|w: Seq<S>| #[trigger] runs(added(g, h), s, w, t) <==> between(c, lo, 0, w) by { nothing_runs::<S>(s, w, t); }
}
pub proof fn joined_on<S: Ord, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>, a: Id, b: Id, k: Graph<SymbolRange<S>, O>)
    requires part_of(net(g), net(h)), k.edges == h.edges, k.joins == h.joins.insert((a, b)), !g.joins.contains((a, b)),
    ensures part_of(net(g), net(k)), added(g, k) == plus_join(added(g, h), a, b),
{ assert(added(g, k).edges =~= added(g, h).edges); assert(added(g, k).joins =~= plus_join(added(g, h), a, b).joins); }
/// the rounds so far may be all
pub proof fn may_stop<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, t: Id, h: Graph<SymbolRange<S>, O>, q: Id, k: Graph<SymbolRange<S>, O>, c: Pattern<S>, i: nat, lo: nat)
    requires rounds(g, s, t, h, q, c, i, lo, i), k == (Graph { n: top(top(h.n, q), t), joins: h.joins.insert((q, t)), ..h }), i >= lo,
    ensures rounds(g, s, t, k, q, c, i, lo, i + 1), added(g, k).joins.contains((q, t)),
{
    joined_on(g, h, q, t, k);
    let f = added(g, h);
    assert forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, q) <==> power(c, i, w) by { exit_runs(f, q, t, s, w, q); }
    assert forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, t) <==> between(c, lo, i + 1, w) by {
        exit_runs(f, q, t, s, w, t);
        if between(c, lo, i, w) { let j = choose|j: nat| lo <= j < i && #[trigger] power(c, j, w); assert(lo <= j < i + 1); }
        if between(c, lo, i + 1, w) { let j = choose|j: nat| lo <= j < i + 1 && #[trigger] power(c, j, w); if j < i { assert(lo <= j < i); } }
    }
}
pub proof fn may_not_stop<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, t: Id, h: Graph<SymbolRange<S>, O>, q: Id, c: Pattern<S>, i: nat, lo: nat)
    requires rounds(g, s, t, h, q, c, i, lo, i), i < lo,
    ensures rounds(g, s, t, h, q, c, i, lo, i + 1),
{
    assert forall|w: Seq<S>| #[trigger] runs(added(g, h), s, w, t) <==> between(c, lo, i + 1, w) by { }
}
/// one more round
pub proof fn next_round<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, t: Id, h: Graph<SymbolRange<S>, O>, q: Id, k: Graph<SymbolRange<S>, O>, r: Id, c: Pattern<S>, i: nat, lo: nat)
    requires rounds(g, s, t, h, q, c, i, lo, i + 1), compiled(h, q, k, r, c),
    ensures rounds(g, s, t, k, r, c, i + 1, lo, i + 1), added(g, k) == plus(added(g, h), added(h, k)),
{
    then_power(g, s, h, q, k, r, c, i);
    grown_cat(g, s, h, q, k);
    assert forall|w: Seq<S>| #[trigger] runs(added(g, k), s, w, t) <==> between(c, lo, i + 1, w) by { old_runs(added(g, h), added(h, k), q, h.n, s, w, t); }
    if r == q { plus_nothing(added(g, h)); }
}
pub proof fn laps_end<S: Ord>(f: Net<S>, q: Id, r: Id, u: Seq<S>, v: Seq<S>, j: nat)
    requires laps(f, q, r, u, j), runs(f, q, v, r),
    ensures laps(f, q, r, u + v, j + 1),
    decreases j,
{
    let w = u + v;
    if j == 0 { assert(w.take(w.len() as int) =~= v); assert(w.skip(w.len() as int).len() == 0); assert(laps(f, q, r, w.skip(w.len() as int), 0)); }
    else {
        let i = choose|i: int| 0 <= i <= u.len() && #[trigger] runs(f, q, u.take(i), r) && laps(f, q, r, u.skip(i), (j - 1) as nat);
        laps_end(f, q, r, u.skip(i), v, (j - 1) as nat);
        assert(w.take(i) =~= u.take(i));
        assert(w.skip(i) =~= u.skip(i) + v);
    }
}
pub proof fn power_laps<S: Clone + Ord>(c: Pattern<S>, f: Net<S>, q: Id, r: Id, w: Seq<S>, n: nat, j: nat) -> (i: int)
    requires power(c, n + j, w), forall|v: Seq<S>| #[trigger] runs(f, q, v, r) <==> lang(c, v),
    ensures 0 <= i <= w.len(), power(c, n, w.take(i)), laps(f, q, r, w.skip(i), j),
    decreases j,
{
    if j == 0 { assert(w.take(w.len() as int) =~= w); w.len() as int }
    else {
        let m = choose|m: int| #![trigger w.take(m)] 0 <= m <= w.len() && power(c, (n + j - 1) as nat, w.take(m)) && lang(c, w.skip(m));
        let i = power_laps(c, f, q, r, w.take(m), n, (j - 1) as nat);
        laps_end(f, q, r, w.take(m).skip(i), w.skip(m), (j - 1) as nat);
        assert(w.take(m).take(i) =~= w.take(i));
        assert(w.take(m).skip(i) + w.skip(m) =~= w.skip(i));
        i
    }
}
pub proof fn laps_power<S: Clone + Ord>(c: Pattern<S>, f: Net<S>, q: Id, r: Id, u: Seq<S>, v: Seq<S>, n: nat, j: nat)
    requires power(c, n, u), laps(f, q, r, v, j), forall|v: Seq<S>| #[trigger] runs(f, q, v, r) <==> lang(c, v),
    ensures power(c, n + j, u + v),
    decreases j,
{
    if j == 0 { assert(u + v =~= u); }
    else {
        let i = choose|i: int| 0 <= i <= v.len() && #[trigger] runs(f, q, v.take(i), r) && laps(f, q, r, v.skip(i), (j - 1) as nat);
        let x = u + v.take(i);
        assert(x.take(u.len() as int) =~= u);
        assert(x.skip(u.len() as int) =~= v.take(i));
        assert(power(c, n + 1, x));
        laps_power(c, f, q, r, x, v.skip(i), n + 1, (j - 1) as nat);
        assert(x + v.skip(i) =~= u + v);
    }
}
/// a join from a state to itself adds no runs
pub proof fn self_join<S: Ord>(p: Net<S>, q: Id, a: Id, w: Seq<S>, b: Id)
    ensures runs(plus_join(p, q, q), a, w, b) <==> runs(p, a, w, b),
{
    if runs(p, a, w, b) { runs_mono(p, plus_join(p, q, q), a, w, b); }
    if runs(plus_join(p, q, q), a, w, b) { let k = choose|k: nat| run(plus_join(p, q, q), a, w, b, k); self_joined(p, q, a, w, b, k); }
}
proof fn self_joined<S: Ord>(p: Net<S>, q: Id, a: Id, w: Seq<S>, b: Id, k: nat)
    requires run(plus_join(p, q, q), a, w, b, k),
    ensures runs(p, a, w, b),
    decreases k,
{
    if k == 0 { assert(run(p, a, w, b, 0)); }
    else {
        let (j, m) = first_step(plus_join(p, q, q), a, w, b, k);
        if j { self_joined(p, q, m, w, b, (k - 1) as nat); if p.joins.contains((a, m)) { runs_join(p, a, m, w, b); } }
        else {
            self_joined(p, q, m, w.skip(1), b, (k - 1) as nat);
            let x = choose|x: SymbolRange<S>| #[trigger] plus_join(p, q, q).edges.contains((a, x, m)) && in_range(x, w[0]);
            assert(p.edges.contains((a, x, m)));
            assert(estep(p, a, w[0], m));
            runs_edge(p, a, m, w, b);
        }
    }
}
/// the last round of an unbounded repetition, joined back to its start
pub proof fn last_round<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, t: Id, h: Graph<SymbolRange<S>, O>, q: Id, k: Graph<SymbolRange<S>, O>, r: Id, z: Graph<SymbolRange<S>, O>, c: Pattern<S>, n: nat)
    requires
        rounds(g, s, t, h, q, c, n + 1, n, n + 2), added(g, h).joins.contains((q, t)), compiled(h, q, k, r, c),
        z == (Graph { n: top(top(k.n, r), q), joins: k.joins.insert((r, q)), ..k }),
    ensures
        grown(g, s, z), ends(g, s, z, t),
        forall|w: Seq<S>| #[trigger] runs(added(g, z), s, w, t) <==> exists|j: nat| j >= n && #[trigger] power(c, j, w),
{
    let (p, f) = (added(g, h), added(h, k));
    grown_cat(g, s, h, q, k);
    if r == q { plus_nothing(p); }
    let l = plus_join(plus(p, f), r, q);
    assert(dead(plus(p, f), t));
    if g.joins.contains((r, q)) {
        assert(r == q);
        assert(z.joins =~= k.joins);
        assert(z == k);
    } else {
        joined_on(g, k, r, q, z);
    }
    assert(looped(p, f, q, r, t, h.n));
    assert forall|w: Seq<S>| #[trigger] runs(added(g, z), s, w, t) <==> exists|j: nat| j >= n && #[trigger] power(c, j, w) by {
        if g.joins.contains((r, q)) { self_join(plus(p, f), q, s, w, t); }
        assert(runs(added(g, z), s, w, t) <==> runs(l, s, w, t));
        loop_runs(p, f, q, r, t, h.n, s, w);
        if runs(p, s, w, t) { let j = choose|j: nat| n <= j < n + 2 && #[trigger] power(c, j, w); assert(j >= n && power(c, j, w)); }
        if exists|i: int, j: nat| #[trigger] then_laps(p, s, f, q, r, w, q, i, j) {
            let (i, j) = choose|i: int, j: nat| #[trigger] then_laps(p, s, f, q, r, w, q, i, j);
            laps_power(c, f, q, r, w.take(i), w.skip(i), n + 1, j);
            assert(w.take(i) + w.skip(i) =~= w);
            assert(n + 1 + j >= n && power(c, n + 1 + j, w));
        }
        if exists|j: nat| j >= n && #[trigger] power(c, j, w) {
            let j = choose|j: nat| j >= n && #[trigger] power(c, j, w);
            if j < n + 2 { assert(between(c, n, n + 2, w)); }
            else {
                let i = power_laps(c, f, q, r, w, n + 1, (j - n - 1) as nat);
                assert(then_laps(p, s, f, q, r, w, q, i, (j - n - 1) as nat));
            }
        }
    }
}
// ---- alternatives -------------------------------------------------------------------------------
pub open spec fn choices<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, t: Id, h: Graph<SymbolRange<S>, O>, v: Vec<Pattern<S>>, i: int) -> bool {
    let f = added(g, h);
    &&& g.closed() && grown(g, s, h) && s < g.n && t == g.n && t < h.n && dead(f, t)
    &&& forall|w: Seq<S>| #[trigger] runs(f, s, w, t) <==> any_of(v, i, w)
}
pub proof fn no_choice<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, t: Id, h: Graph<SymbolRange<S>, O>, v: Vec<Pattern<S>>)
    requires g.closed(), s < g.n, t == g.n, h == (Graph { n: top(g.n, t), ..g }),
    ensures choices(g, s, t, h, v, 0),
{
    added_nothing(g, s, h);
    assert forall|w: Seq<S>| #[trigger] runs(added(g, h), s, w, t) <==> any_of(v, 0, w) by { nothing_runs::<S>(s, w, t); }
}
pub proof fn one_choice_more<S: Clone + Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, t: Id, h: Graph<SymbolRange<S>, O>, k: Graph<SymbolRange<S>, O>, r: Id, z: Graph<SymbolRange<S>, O>, v: Vec<Pattern<S>>, i: int)
    requires
        choices(g, s, t, h, v, i), 0 <= i < v@.len(), compiled(h, s, k, r, v@[i]),
        z == (Graph { n: top(top(k.n, r), t), joins: k.joins.insert((r, t)), ..k }),
    ensures choices(g, s, t, z, v, i + 1),
{
    let (p, f) = (added(g, h), added(h, k));
    grown_cat(g, s, h, s, k);
    if r == s { plus_nothing(p); }
    joined_on(g, k, r, t, z);
    assert(dead(plus(p, f), t));
    assert forall|w: Seq<S>| #[trigger] runs(added(g, z), s, w, t) <==> any_of(v, i + 1, w) by {
        exit_runs(plus(p, f), r, t, s, w, t);
        old_runs(p, f, s, h.n, s, w, t);
        assert(runs(plus(p, f), s, w, r) <==> lang(v@[i], w)) by {
            if r == s { never_back(p, s, g.n, w); nothing_runs::<S>(s, w, s); assert(runs(f, s, w, r) <==> w.len() == 0); }
            else {
                new_runs(p, f, s, h.n, s, w, r);
                if runs(plus(p, f), s, w, r) {
                    let j = choose|j: int| #[trigger] in_two(p, f, s, s, w, r, j);
                    never_back(p, s, g.n, w.take(j));
                    assert(w.skip(j) =~= w);
                }
                if runs(f, s, w, r) { runs_mono(f, plus(p, f), s, w, r); }
            }
        }
        if any_of(v, i, w) { let j = choose|j: int| 0 <= j < i && lang(#[trigger] v@[j], w); assert(0 <= j < i + 1); }
        if any_of(v, i + 1, w) { let j = choose|j: int| 0 <= j < i + 1 && lang(#[trigger] v@[j], w); if j < i { assert(0 <= j < i); } }
    }
}
// ---- room ---------------------------------------------------------------------------------------
pub proof fn room_rounds(i: nat, n: nat, z: nat)
    requires i < n,
    ensures (i + 1) * z == i * z + z, i * z + z <= n * z,
{ assert((i + 1) * z == i * z + z) by(nonlinear_arith); assert((i + 1) * z <= n * z) by(nonlinear_arith) requires i + 1 <= n; }
pub proof fn room_chain<S: Clone>(v: Vec<Pattern<S>>, i: nat, k: nat)
    requires i < k <= v@.len(),
    ensures total(v, i + 1) == total(v, i) + size(v@[i as int]), total(v, i + 1) <= total(v, k),
    decreases k,
{ if i + 1 < k { room_chain(v, i, (k - 1) as nat); } }
// ---- what a language is, arm by arm -------------------------------------------------------------
pub proof fn lang_repeat<S: Clone + Ord>(p: Pattern<S>, w: Seq<S>)
    requires p is Repeat,
    ensures lang(p, w) <==> between(*p->Repeat_1, p->Repeat_0.start as nat, p->Repeat_0.end as nat, w),
{
    let (r, c) = (p->Repeat_0, *p->Repeat_1);
    if lang(p, w) { let j = choose|j: nat| #[trigger] in_count(j, r.start as nat, r.end as nat) && power(c, j, w); assert(r.start as nat <= j < r.end as nat && power(c, j, w)); }
    if between(c, r.start as nat, r.end as nat, w) { let j = choose|j: nat| r.start as nat <= j < r.end as nat && #[trigger] power(c, j, w); assert(in_count(j, r.start as nat, r.end as nat)); }
}
pub proof fn lang_forever<S: Clone + Ord>(p: Pattern<S>, w: Seq<S>)
    requires p is RepeatInfinite,
    ensures lang(p, w) <==> exists|j: nat| j >= p->RepeatInfinite_0 && #[trigger] power(*p->RepeatInfinite_1, j, w),
{
    let (n, c) = (p->RepeatInfinite_0, *p->RepeatInfinite_1);
    if lang(p, w) { let j = choose|j: nat| #[trigger] at_least(j, n as nat) && power(c, j, w); assert(j >= n && power(c, j, w)); }
    if exists|j: nat| j >= n && #[trigger] power(c, j, w) { let j = choose|j: nat| j >= n && #[trigger] power(c, j, w); assert(at_least(j, n as nat)); }
}
// ---- a pattern's machine ------------------------------------------------------------------------
/// C03: the machine accepts exactly the language of the pattern, with the output
pub open spec fn machine_for<S: Clone + Ord, O>(p: Pattern<S>, output: O, g: Graph<SymbolRange<S>, O>) -> bool {
    ready(g) && forall|w: Seq<S>, o: O| #[trigger] yields(g, w, o) <==> lang(p, w) && o == output
}
pub open spec fn room<S: Clone>(p: Pattern<S>) -> bool { 1 + size(p) < StateId::MAX }
pub proof fn whole_machine<S: Clone + Ord, O>(g0: Graph<SymbolRange<S>, O>, g1: Graph<SymbolRange<S>, O>, r: Id, g2: Graph<SymbolRange<S>, O>, g3: Graph<SymbolRange<S>, O>, p: Pattern<S>, output: O)
    requires
        lawful_ord::<S>(), g0.n == 1, g0.edges == ISet::<(Id, SymbolRange<S>, Id)>::empty(), g0.joins == ISet::<(Id, Id)>::empty(), g0.outs == IMap::<Id, O>::empty(),
        compiled(g0, 0, g1, r, p), g1.n < StateId::MAX,
        g2 == (Graph { n: top(g1.n, r), outs: g1.outs.insert(r, output), ..g1 }),
        same_leads(g2, g3), ranges_ok(g3), apart(g3),
    ensures machine_for(p, output, g3),
{
    assert(added(g0, g1).edges =~= net(g1).edges);
    assert(added(g0, g1).joins =~= net(g1).joins);
    split_ready(g2, g3);
    assert forall|w: Seq<S>, o: O| #[trigger] yields(g3, w, o) <==> lang(p, w) && o == output by {
        same_yields(g2, g3, w, o);
        yields_runs(g2, w, o);
        assert(net(g2) == net(g1));
        if run_yields(g2, w, o) { let b = choose|b: StateId| #[trigger] runs(net(g2), 0, w, b) && g2.outs.contains_pair(b, o); assert(b == r); }
        if lang(p, w) && o == output { assert(runs(net(g2), 0, w, r)); assert(g2.outs.contains_pair(r, o)); }
    }
}
// ---- values as patterns, and patterns put together ----------------------------------------------
/// the two patterns match the same, whatever the order of the symbols
pub open spec fn alike<S: Clone>(p: Pattern<S>, q: Pattern<S>) -> bool {
    &&& forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #![trigger lang_by(o, p, w)] #![trigger lang_by(o, q, w)] lang_by(o, p, w) == lang_by(o, q, w)
    &&& forall|o: spec_fn(S, S) -> bool| #![trigger fits_by(o, p)] #![trigger fits_by(o, q)] fits_by(o, p) == fits_by(o, q)
    &&& size(p) == size(q)
}
/// C26: the pattern matches just the symbols s
pub open spec fn denotes<S: Clone>(p: Pattern<S>, s: Seq<S>) -> bool {
    &&& forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, p, w) <==> w == s
    &&& forall|o: spec_fn(S, S) -> bool| #[trigger] fits_by(o, p)
    &&& size(p) <= s.len()
}
/// the machine accepts just the symbols s, with the output
pub open spec fn machine_of<S: Clone + Ord, O>(s: Seq<S>, output: O, g: Graph<SymbolRange<S>, O>) -> bool {
    ready(g) && forall|w: Seq<S>, o: O| #[trigger] yields(g, w, o) <==> w == s && o == output
}
pub open spec fn in_parts<S: Clone>(o: spec_fn(S, S) -> bool, p: Pattern<S>, q: Pattern<S>, w: Seq<S>, i: int) -> bool { 0 <= i <= w.len() && lang_by(o, p, w.take(i)) && lang_by(o, q, w.skip(i)) }
/// C02: the pattern matches the concatenations
pub open spec fn appended<S: Clone>(p: Pattern<S>, q: Pattern<S>, r: Pattern<S>) -> bool {
    &&& forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> exists|i: int| #[trigger] in_parts(o, p, q, w, i)
    &&& forall|o: spec_fn(S, S) -> bool| fits_by(o, p) && fits_by(o, q) ==> #[trigger] fits_by(o, r)
    &&& size(r) <= size(p) + size(q)
}
/// C02: the pattern matches the union
pub open spec fn either<S: Clone>(p: Pattern<S>, q: Pattern<S>, r: Pattern<S>) -> bool {
    &&& forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> lang_by(o, p, w) || lang_by(o, q, w)
    &&& forall|o: spec_fn(S, S) -> bool| fits_by(o, p) && fits_by(o, q) ==> #[trigger] fits_by(o, r)
    &&& size(r) <= size(p) + size(q) + 1
}
/// C02: w is k strings of the pattern, one after the other
pub open spec fn strings<S: Clone>(o: spec_fn(S, S) -> bool, p: Pattern<S>, k: nat, w: Seq<S>) -> bool
    decreases k
{
    if k == 0 { w.len() == 0 } else { exists|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && strings(o, p, (k - 1) as nat, w.take(i)) && lang_by(o, p, w.skip(i)) }
}
pub proof fn power_strings<S: Clone>(o: spec_fn(S, S) -> bool, p: Pattern<S>, k: nat, w: Seq<S>)
    ensures power_by(o, p, k, w) == strings(o, p, k, w),
    decreases k,
{
    if k > 0 {
        if power_by(o, p, k, w) { let i = choose|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && power_by(o, p, (k - 1) as nat, w.take(i)) && lang_by(o, p, w.skip(i)); power_strings(o, p, (k - 1) as nat, w.take(i)); }
        if strings(o, p, k, w) { let i = choose|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && strings(o, p, (k - 1) as nat, w.take(i)) && lang_by(o, p, w.skip(i)); power_strings(o, p, (k - 1) as nat, w.take(i)); }
    }
}
/// C02: the pattern matches the concatenations of lo up to but not including hi strings
pub open spec fn repeated<S: Clone>(p: Pattern<S>, lo: nat, hi: nat, r: Pattern<S>) -> bool {
    &&& forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> exists|k: nat| #[trigger] strings(o, p, k, w) && lo <= k < hi
    &&& forall|o: spec_fn(S, S) -> bool| fits_by(o, p) ==> #[trigger] fits_by(o, r)
}
/// C02: the pattern matches the concatenations of lo or more strings
pub open spec fn forever<S: Clone>(p: Pattern<S>, lo: nat, r: Pattern<S>) -> bool {
    &&& forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> exists|k: nat| #[trigger] strings(o, p, k, w) && lo <= k
    &&& forall|o: spec_fn(S, S) -> bool| fits_by(o, p) && lo + 2 <= u32::MAX ==> #[trigger] fits_by(o, r)
}
pub proof fn is_repeated<S: Clone>(r: Pattern<S>)
    requires r is Repeat,
    ensures repeated(*r->Repeat_1, r->Repeat_0.start as nat, r->Repeat_0.end as nat, r),
{
    let (p, lo, hi) = (*r->Repeat_1, r->Repeat_0.start as nat, r->Repeat_0.end as nat);
    assert forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> exists|k: nat| #[trigger] strings(o, p, k, w) && lo <= k < hi by {
        if lang_by(o, r, w) { let k = choose|k: nat| #[trigger] in_count(k, lo, hi) && power_by(o, p, k, w); power_strings(o, p, k, w); assert(strings(o, p, k, w)); }
        if exists|k: nat| #[trigger] strings(o, p, k, w) && lo <= k < hi { let k = choose|k: nat| #[trigger] strings(o, p, k, w) && lo <= k < hi; power_strings(o, p, k, w); assert(in_count(k, lo, hi)); }
    }
}
pub proof fn is_forever<S: Clone>(r: Pattern<S>)
    requires r is RepeatInfinite,
    ensures forever(*r->RepeatInfinite_1, r->RepeatInfinite_0 as nat, r),
{
    let (p, lo) = (*r->RepeatInfinite_1, r->RepeatInfinite_0 as nat);
    assert forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> exists|k: nat| #[trigger] strings(o, p, k, w) && lo <= k by {
        if lang_by(o, r, w) { let k = choose|k: nat| #[trigger] at_least(k, lo) && power_by(o, p, k, w); power_strings(o, p, k, w); assert(strings(o, p, k, w)); }
        if exists|k: nat| #[trigger] strings(o, p, k, w) && lo <= k { let k = choose|k: nat| #[trigger] strings(o, p, k, w) && lo <= k; power_strings(o, p, k, w); assert(at_least(k, lo)); }
    }
}
pub proof fn chain_same<S: Clone>(o: spec_fn(S, S) -> bool, u: Vec<Pattern<S>>, v: Vec<Pattern<S>>, k: nat, w: Seq<S>)
    requires k <= u@.len(), k <= v@.len(), forall|j: int| 0 <= j < k ==> alike(#[trigger] u@[j], v@[j]),
    ensures chain_by(o, u, k, w) == chain_by(o, v, k, w),
    decreases k,
{
    if k > 0 {
        assert(alike(u@[k - 1], v@[k - 1]));
        if chain_by(o, u, k, w) { let i = choose|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && chain_by(o, u, (k - 1) as nat, w.take(i)) && lang_by(o, u@[k - 1], w.skip(i)); chain_same(o, u, v, (k - 1) as nat, w.take(i)); }
        if chain_by(o, v, k, w) { let i = choose|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && chain_by(o, v, (k - 1) as nat, w.take(i)) && lang_by(o, v@[k - 1], w.skip(i)); chain_same(o, u, v, (k - 1) as nat, w.take(i)); }
    }
}
pub open spec fn in_chains<S: Clone>(o: spec_fn(S, S) -> bool, x: Vec<Pattern<S>>, a: nat, y: Vec<Pattern<S>>, b: nat, w: Seq<S>, i: int) -> bool { 0 <= i <= w.len() && chain_by(o, x, a, w.take(i)) && chain_by(o, y, b, w.skip(i)) }
/// a sequence of patterns that is a first sequence and then a second one
pub proof fn chain_split<S: Clone>(o: spec_fn(S, S) -> bool, r: Vec<Pattern<S>>, x: Vec<Pattern<S>>, a: nat, y: Vec<Pattern<S>>, b: nat, w: Seq<S>)
    requires
        a + b <= r@.len(), a <= x@.len(), b <= y@.len(),
        forall|j: int| 0 <= j < a ==> alike(#[trigger] r@[j], x@[j]),
        forall|j: int| 0 <= j < b ==> alike(r@[a + j], #[trigger] y@[j]),
    ensures chain_by(o, r, a + b, w) <==> exists|i: int| #[trigger] in_chains(o, x, a, y, b, w, i),
    decreases b,
{
    let n = w.len() as int;
    if b == 0 {
        assert(w.take(n) =~= w);
        chain_same(o, r, x, a, w);
        if chain_by(o, r, a, w) { assert(in_chains(o, x, a, y, b, w, n)); }
        if exists|i: int| #[trigger] in_chains(o, x, a, y, b, w, i) { let i = choose|i: int| #[trigger] in_chains(o, x, a, y, b, w, i); assert(w.take(i) =~= w); }
    } else {
        let c = (b - 1) as nat;
        assert(alike(r@[(a + c) as int], y@[c as int]));
        if chain_by(o, r, a + b, w) {
            let m = choose|m: int| #![trigger w.take(m)] 0 <= m <= w.len() && chain_by(o, r, (a + b - 1) as nat, w.take(m)) && lang_by(o, r@[a + b - 1], w.skip(m));
            chain_split(o, r, x, a, y, c, w.take(m));
            let i = choose|i: int| #[trigger] in_chains(o, x, a, y, c, w.take(m), i);
            assert(w.take(m).take(i) =~= w.take(i));
            assert(w.skip(i).take(m - i) =~= w.take(m).skip(i));
            assert(w.skip(i).skip(m - i) =~= w.skip(m));
            assert(chain_by(o, y, b, w.skip(i)));
            assert(in_chains(o, x, a, y, b, w, i));
        }
        if exists|i: int| #[trigger] in_chains(o, x, a, y, b, w, i) {
            let i = choose|i: int| #[trigger] in_chains(o, x, a, y, b, w, i);
            let v = w.skip(i);
            let m = choose|m: int| #![trigger v.take(m)] 0 <= m <= v.len() && chain_by(o, y, c, v.take(m)) && lang_by(o, y@[c as int], v.skip(m));
            let t = w.take(i + m);
            assert(t.take(i) =~= w.take(i));
            assert(t.skip(i) =~= v.take(m));
            assert(in_chains(o, x, a, y, c, t, i));
            chain_split(o, r, x, a, y, c, t);
            assert(w.skip(i + m) =~= v.skip(m));
        }
    }
}
pub proof fn chain_one<S: Clone>(o: spec_fn(S, S) -> bool, v: Vec<Pattern<S>>, w: Seq<S>)
    requires v@.len() >= 1,
    ensures chain_by(o, v, 1, w) == lang_by(o, v@[0], w),
{
    assert(w.skip(0) =~= w);
    if chain_by(o, v, 1, w) { let i = choose|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && chain_by(o, v, 0, w.take(i)) && lang_by(o, v@[0], w.skip(i)); assert(i == 0); }
    if lang_by(o, v@[0], w) { assert(w.take(0).len() == 0); assert(chain_by(o, v, 0, w.take(0))); }
}
pub proof fn total_same<S: Clone>(u: Vec<Pattern<S>>, v: Vec<Pattern<S>>, k: nat)
    requires k <= u@.len(), k <= v@.len(), forall|j: int| 0 <= j < k ==> alike(#[trigger] u@[j], v@[j]),
    ensures total(u, k) == total(v, k),
    decreases k,
{ if k > 0 { assert(alike(u@[k - 1], v@[k - 1])); total_same(u, v, (k - 1) as nat); } }
/// r was put together from copies of the parts of p
pub open spec fn copy_of<S: Clone>(p: Pattern<S>, r: Pattern<S>) -> bool {
    match (p, r) {
        (Pattern::Match(x), Pattern::Match(y)) => x@ == y@,
        (Pattern::RepeatInfinite(n, x), Pattern::RepeatInfinite(m, y)) => n == m && alike(*x, *y),
        (Pattern::Repeat(n, x), Pattern::Repeat(m, y)) => n == m && alike(*x, *y),
        (Pattern::MatchAll(x), Pattern::MatchAll(y)) => x@.len() == y@.len() && forall|j: int| 0 <= j < x@.len() ==> alike(#[trigger] x@[j], y@[j]),
        (Pattern::MatchAny(x), Pattern::MatchAny(y)) => x@.len() == y@.len() && forall|j: int| 0 <= j < x@.len() ==> alike(#[trigger] x@[j], y@[j]),
        _ => p == r,
    }
}
pub proof fn power_same<S: Clone>(o: spec_fn(S, S) -> bool, p: Pattern<S>, q: Pattern<S>, k: nat, w: Seq<S>)
    requires alike(p, q),
    ensures power_by(o, p, k, w) == power_by(o, q, k, w),
    decreases k,
{
    if k > 0 {
        if power_by(o, p, k, w) { let i = choose|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && power_by(o, p, (k - 1) as nat, w.take(i)) && lang_by(o, p, w.skip(i)); power_same(o, p, q, (k - 1) as nat, w.take(i)); }
        if power_by(o, q, k, w) { let i = choose|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && power_by(o, q, (k - 1) as nat, w.take(i)) && lang_by(o, q, w.skip(i)); power_same(o, p, q, (k - 1) as nat, w.take(i)); }
    }
}
pub proof fn copied<S: Clone>(p: Pattern<S>, r: Pattern<S>)
    requires copy_of(p, r),
    ensures alike(p, r),
{
    assert forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #![trigger lang_by(o, p, w)] #![trigger lang_by(o, r, w)] lang_by(o, p, w) == lang_by(o, r, w) by {
        match (p, r) {
            (Pattern::RepeatInfinite(n, x), Pattern::RepeatInfinite(m, y)) => {
                if lang_by(o, p, w) { let k = choose|k: nat| #[trigger] at_least(k, n as nat) && power_by(o, *x, k, w); power_same(o, *x, *y, k, w); assert(at_least(k, m as nat)); }
                if lang_by(o, r, w) { let k = choose|k: nat| #[trigger] at_least(k, m as nat) && power_by(o, *y, k, w); power_same(o, *x, *y, k, w); assert(at_least(k, n as nat)); }
            }
            (Pattern::Repeat(n, x), Pattern::Repeat(m, y)) => {
                if lang_by(o, p, w) { let k = choose|k: nat| #[trigger] in_count(k, n.start as nat, n.end as nat) && power_by(o, *x, k, w); power_same(o, *x, *y, k, w); assert(in_count(k, m.start as nat, m.end as nat)); }
                if lang_by(o, r, w) { let k = choose|k: nat| #[trigger] in_count(k, m.start as nat, m.end as nat) && power_by(o, *y, k, w); power_same(o, *x, *y, k, w); assert(in_count(k, n.start as nat, n.end as nat)); }
            }
            (Pattern::MatchAll(x), Pattern::MatchAll(y)) => chain_same(o, x, y, x@.len(), w),
            (Pattern::MatchAny(x), Pattern::MatchAny(y)) => {
                if lang_by(o, p, w) { let i = choose|i: int| 0 <= i < x@.len() && lang_by(o, #[trigger] x@[i], w); assert(alike(x@[i], y@[i])); assert(lang_by(o, y@[i], w)); }
                if lang_by(o, r, w) { let i = choose|i: int| 0 <= i < y@.len() && lang_by(o, #[trigger] y@[i], w); assert(alike(x@[i], y@[i])); assert(lang_by(o, x@[i], w)); }
            }
            _ => {}
        }
    }
    assert forall|o: spec_fn(S, S) -> bool| #![trigger fits_by(o, p)] #![trigger fits_by(o, r)] fits_by(o, p) == fits_by(o, r) by {
        match (p, r) {
            (Pattern::MatchAll(x), Pattern::MatchAll(y)) => {
                if fits_by(o, p) { assert forall|i: int| 0 <= i < y@.len() implies fits_by(o, #[trigger] y@[i]) by { assert(alike(x@[i], y@[i])); } }
                if fits_by(o, r) { assert forall|i: int| 0 <= i < x@.len() implies fits_by(o, #[trigger] x@[i]) by { assert(alike(x@[i], y@[i])); assert(fits_by(o, y@[i])); } }
            }
            (Pattern::MatchAny(x), Pattern::MatchAny(y)) => {
                if fits_by(o, p) { assert forall|i: int| 0 <= i < y@.len() implies fits_by(o, #[trigger] y@[i]) by { assert(alike(x@[i], y@[i])); } }
                if fits_by(o, r) { assert forall|i: int| 0 <= i < x@.len() implies fits_by(o, #[trigger] x@[i]) by { assert(alike(x@[i], y@[i])); assert(fits_by(o, y@[i])); } }
            }
            (Pattern::RepeatInfinite(n, x), Pattern::RepeatInfinite(m, y)) => { assert(fits_by(o, *x) == fits_by(o, *y)); }
            (Pattern::Repeat(n, x), Pattern::Repeat(m, y)) => { assert(fits_by(o, *x) == fits_by(o, *y)); }
            _ => {}
        }
    }
    match (p, r) {
        (Pattern::MatchAll(x), Pattern::MatchAll(y)) => total_same(x, y, x@.len()),
        (Pattern::MatchAny(x), Pattern::MatchAny(y)) => total_same(x, y, x@.len()),
        _ => {}
    }
}
pub proof fn total_split<S: Clone>(r: Vec<Pattern<S>>, x: Vec<Pattern<S>>, a: nat, y: Vec<Pattern<S>>, b: nat)
    requires
        a + b <= r@.len(), a <= x@.len(), b <= y@.len(),
        forall|j: int| 0 <= j < a ==> alike(#[trigger] r@[j], x@[j]),
        forall|j: int| 0 <= j < b ==> alike(r@[a + j], #[trigger] y@[j]),
    ensures total(r, a + b) == total(x, a) + total(y, b),
    decreases b,
{ if b == 0 { total_same(r, x, a); } else { assert(alike(r@[a + b - 1], y@[b - 1])); total_split(r, x, a, y, (b - 1) as nat); } }
/// two literals
pub proof fn literals<S: Clone>(p: Pattern<S>, q: Pattern<S>, r: Pattern<S>)
    requires p is Match, q is Match, r is Match, r->Match_0@ == p->Match_0@ + q->Match_0@,
    ensures appended(p, q, r),
{
    let (x, y) = (p->Match_0@, q->Match_0@);
    assert forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> exists|i: int| #[trigger] in_parts(o, p, q, w, i) by {
        if w == x + y { assert(w.take(x.len() as int) =~= x); assert(w.skip(x.len() as int) =~= y); assert(in_parts(o, p, q, w, x.len() as int)); }
        if exists|i: int| #[trigger] in_parts(o, p, q, w, i) { let i = choose|i: int| #[trigger] in_parts(o, p, q, w, i); assert(w =~= w.take(i) + w.skip(i)); }
    }
}
/// sequences of patterns
pub proof fn sequences<S: Clone>(p: Pattern<S>, x: Vec<Pattern<S>>, a: nat, q: Pattern<S>, y: Vec<Pattern<S>>, b: nat, r: Pattern<S>)
    requires
        a <= x@.len(), b <= y@.len(), r is MatchAll, r->MatchAll_0@.len() == a + b,
        forall|j: int| 0 <= j < a ==> alike(#[trigger] r->MatchAll_0@[j], x@[j]),
        forall|j: int| 0 <= j < b ==> alike(r->MatchAll_0@[a + j], #[trigger] y@[j]),
        forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, p, w) == chain_by(o, x, a, w),
        forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, q, w) == chain_by(o, y, b, w),
        forall|o: spec_fn(S, S) -> bool, j: int| fits_by(o, p) && 0 <= j < a ==> #[trigger] fits_by(o, x@[j]),
        forall|o: spec_fn(S, S) -> bool, j: int| fits_by(o, q) && 0 <= j < b ==> #[trigger] fits_by(o, y@[j]),
        size(p) == total(x, a), size(q) == total(y, b),
    ensures appended(p, q, r),
{
    let v = r->MatchAll_0;
    total_split(v, x, a, y, b);
    assert forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> exists|i: int| #[trigger] in_parts(o, p, q, w, i) by {
        chain_split(o, v, x, a, y, b, w);
        if lang_by(o, r, w) { let i = choose|i: int| #[trigger] in_chains(o, x, a, y, b, w, i); assert(in_parts(o, p, q, w, i)); }
        if exists|i: int| #[trigger] in_parts(o, p, q, w, i) { let i = choose|i: int| #[trigger] in_parts(o, p, q, w, i); assert(in_chains(o, x, a, y, b, w, i)); }
    }
    assert forall|o: spec_fn(S, S) -> bool| fits_by(o, p) && fits_by(o, q) implies #[trigger] fits_by(o, r) by {
        assert forall|j: int| 0 <= j < v@.len() implies fits_by(o, #[trigger] v@[j]) by {
            if j < a { assert(alike(v@[j], x@[j])); } else { assert(alike(v@[a + (j - a)], y@[j - a])); assert(fits_by(o, y@[j - a])); }
        }
    }
}
pub proof fn alike_self<S: Clone>(p: Pattern<S>)
    ensures alike(p, p),
{ }
/// a sequence of patterns and one more
pub proof fn and_one_more<S: Clone>(p: Pattern<S>, x: Vec<Pattern<S>>, a: nat, q: Pattern<S>, r: Pattern<S>)
    requires
        a <= x@.len(), r is MatchAll, r->MatchAll_0@.len() == a + 1,
        forall|j: int| 0 <= j < a ==> alike(#[trigger] r->MatchAll_0@[j], x@[j]),
        alike(r->MatchAll_0@[a as int], q),
        forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, p, w) == chain_by(o, x, a, w),
        forall|o: spec_fn(S, S) -> bool, j: int| fits_by(o, p) && 0 <= j < a ==> #[trigger] fits_by(o, x@[j]),
        size(p) == total(x, a),
    ensures appended(p, q, r),
{
    let v = r->MatchAll_0;
    total_same(v, x, a);
    assert(total(v, a + 1) == total(v, a) + size(v@[a as int]));
    assert forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> exists|i: int| #[trigger] in_parts(o, p, q, w, i) by {
        if lang_by(o, r, w) {
            assert(chain_by(o, v, a + 1, w));
            let i = choose|i: int| #![trigger w.take(i)] 0 <= i <= w.len() && chain_by(o, v, a, w.take(i)) && lang_by(o, v@[a as int], w.skip(i));
            chain_same(o, v, x, a, w.take(i));
            assert(in_parts(o, p, q, w, i));
        }
        if exists|i: int| #[trigger] in_parts(o, p, q, w, i) {
            let i = choose|i: int| #[trigger] in_parts(o, p, q, w, i);
            chain_same(o, v, x, a, w.take(i));
            assert(chain_by(o, v, a + 1, w));
        }
    }
    assert forall|o: spec_fn(S, S) -> bool| fits_by(o, p) && fits_by(o, q) implies #[trigger] fits_by(o, r) by {
        assert forall|j: int| 0 <= j < v@.len() implies fits_by(o, #[trigger] v@[j]) by {
            if j < a { assert(alike(v@[j], x@[j])); }
        }
    }
}
/// a pattern and then a sequence
pub proof fn one_before<S: Clone>(p: Pattern<S>, q: Pattern<S>, r: Pattern<S>)
    requires
        q is MatchAll, r is MatchAll, r->MatchAll_0@.len() == 1 + q->MatchAll_0@.len(),
        alike(r->MatchAll_0@[0], p),
        forall|j: int| 0 <= j < q->MatchAll_0@.len() ==> alike(r->MatchAll_0@[1 + j], #[trigger] q->MatchAll_0@[j]),
    ensures appended(p, q, r),
{
    let v = r->MatchAll_0;
    assert forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, p, w) == chain_by(o, v, 1, w) by { chain_one(o, v, w); }
    assert(total(v, 1) == total(v, 0) + size(v@[0]));
    sequences(p, v, 1, q, q->MatchAll_0, q->MatchAll_0@.len(), r);
}
/// two patterns
pub proof fn one_and_one<S: Clone>(p: Pattern<S>, q: Pattern<S>, r: Pattern<S>)
    requires r is MatchAll, r->MatchAll_0@.len() == 2, alike(r->MatchAll_0@[0], p), alike(r->MatchAll_0@[1], q),
    ensures appended(p, q, r),
{
    let v = r->MatchAll_0;
    assert forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, p, w) == chain_by(o, v, 1, w) by { chain_one(o, v, w); }
    assert(total(v, 1) == total(v, 0) + size(v@[0]));
    and_one_more(p, v, 1, q, r);
}
pub proof fn alternatives<S: Clone>(p: Pattern<S>, q: Pattern<S>, r: Pattern<S>)
    requires
        p is MatchAny, q is MatchAny, r is MatchAny, r->MatchAny_0@ == p->MatchAny_0@ + q->MatchAny_0@,
    ensures either(p, q, r),
{
    let (x, y, v) = (p->MatchAny_0, q->MatchAny_0, r->MatchAny_0);
    let a = x@.len();
    assert forall|j: int| 0 <= j < y@.len() implies alike(v@[a + j], #[trigger] y@[j]) by { assert(v@[a + j] == y@[j]); }
    total_split(v, x, a, y, y@.len());
    assert forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> lang_by(o, p, w) || lang_by(o, q, w) by {
        if lang_by(o, r, w) { let i = choose|i: int| 0 <= i < v@.len() && lang_by(o, #[trigger] v@[i], w); if i < a { assert(lang_by(o, x@[i], w)); } else { assert(lang_by(o, y@[i - a], w)); } }
        if lang_by(o, p, w) { let i = choose|i: int| 0 <= i < x@.len() && lang_by(o, #[trigger] x@[i], w); assert(lang_by(o, v@[i], w)); }
        if lang_by(o, q, w) { let i = choose|i: int| 0 <= i < y@.len() && lang_by(o, #[trigger] y@[i], w); assert(lang_by(o, v@[a + i], w)); }
    }
    assert forall|o: spec_fn(S, S) -> bool| fits_by(o, p) && fits_by(o, q) implies #[trigger] fits_by(o, r) by {
        assert forall|j: int| 0 <= j < v@.len() implies fits_by(o, #[trigger] v@[j]) by { if j < a { assert(fits_by(o, x@[j])); } else { assert(fits_by(o, y@[j - a])); } }
    }
}
pub proof fn either_one<S: Clone>(p: Pattern<S>, q: Pattern<S>, r: Pattern<S>)
    requires r is MatchAny, r->MatchAny_0@ == seq![p, q],
    ensures either(p, q, r),
{
    let v = r->MatchAny_0;
    assert(v@[0] == p && v@[1] == q);
    assert(total(v, 2) == total(v, 1) + size(v@[1]));
    assert(total(v, 1) == total(v, 0) + size(v@[0]));
    assert forall|o: spec_fn(S, S) -> bool, w: Seq<S>| #[trigger] lang_by(o, r, w) <==> lang_by(o, p, w) || lang_by(o, q, w) by {
        if lang_by(o, p, w) { assert(lang_by(o, v@[0], w)); }
        if lang_by(o, q, w) { assert(lang_by(o, v@[1], w)); }
    }
}
/// C03: what could be read between the states that were there can still be read, and nothing else; the outputs stay
pub open spec fn undisturbed<S: Ord, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>) -> bool {
    &&& h.outs == g.outs
    &&& forall|a: Id, w: Seq<S>, b: Id| a < g.n && b < g.n ==> (#[trigger] runs(net(h), a, w, b) <==> runs(net(g), a, w, b))
}
pub proof fn not_disturbed<S: Ord, O>(g: Graph<SymbolRange<S>, O>, s: Id, h: Graph<SymbolRange<S>, O>)
    requires g.closed(), s < g.n, grown(g, s, h),
    ensures undisturbed(g, h),
{
    assert(plus(net(g), added(g, h)).edges =~= net(h).edges);
    assert(plus(net(g), added(g, h)).joins =~= net(h).joins);
    assert forall|a: Id, w: Seq<S>, b: Id| a < g.n && b < g.n implies (#[trigger] runs(net(h), a, w, b) <==> runs(net(g), a, w, b)) by {
        old_runs(net(g), added(g, h), s, g.n, a, w, b);
    }
}
