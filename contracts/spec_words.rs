//@needs symbol_range state_machine ndfa
// What a machine does with a sequence of symbols.
use crate::spec_base::*;
use vstd::std_specs::cmp::*;
use crate::symbol_range::*;
use crate::state_machine::*;
use crate::ndfa::*;
use crate::spec_runs::*;

/// the machine can be in state t after reading the symbols w (or in a state t is joined to)
pub open spec fn comes<S: Ord, O>(g: Graph<SymbolRange<S>, O>, w: Seq<S>, t: StateId) -> bool
    decreases w.len()
{
    if w.len() == 0 { t == 0 } else { exists|m: StateId| #[trigger] goes(g, m, w.last(), t) && comes(g, w.drop_last(), m) }
}
/// the machine can produce the output o for the symbols w
pub open spec fn yields<S: Ord, O>(g: Graph<SymbolRange<S>, O>, w: Seq<S>, o: O) -> bool { exists|t: StateId| #[trigger] comes(g, w, t) && g.gives(t, o) }
pub open spec fn comes_to<S: Ord, O>(g: Graph<SymbolRange<S>, O>, w: Seq<S>, b: StateId) -> bool { exists|t: StateId| #[trigger] comes(g, w, t) && g.joined(t, b) }

proof fn hops_run<S: Ord, O>(g: Graph<SymbolRange<S>, O>, a: StateId, b: StateId, k: nat)
    requires g.hops(a, b, k),
    ensures runs(net(g), a, Seq::<S>::empty(), b),
    decreases k,
{
    if k == 0 { runs_none(net(g), a); }
    else {
        let m = choose|m: StateId| #[trigger] g.joins.contains((a, m)) && g.hops(m, b, (k - 1) as nat);
        hops_run(g, m, b, (k - 1) as nat);
        runs_join(net(g), a, m, Seq::<S>::empty(), b);
    }
}
proof fn joined_run<S: Ord, O>(g: Graph<SymbolRange<S>, O>, a: StateId, w: Seq<S>, b: StateId, c: StateId)
    requires runs(net(g), a, w, b), g.joined(b, c),
    ensures runs(net(g), a, w, c),
{
    let k = choose|k: nat| g.hops(b, c, k);
    hops_run(g, b, c, k);
    runs_cat(net(g), a, w, b, Seq::<S>::empty(), c);
    assert(w + Seq::<S>::empty() =~= w);
}
proof fn comes_run<S: Ord, O>(g: Graph<SymbolRange<S>, O>, w: Seq<S>, t: StateId)
    requires comes(g, w, t),
    ensures runs(net(g), 0, w, t),
    decreases w.len(),
{
    if w.len() == 0 { assert(w =~= Seq::empty()); runs_none(net(g), 0); }
    else {
        let (v, c) = (w.drop_last(), w.last());
        let s = choose|s: StateId| #[trigger] goes(g, s, c, t) && comes(g, v, s);
        comes_run(g, v, s);
        let x = choose|x: SymbolRange<S>| #[trigger] g.moves(s, x, t) && in_range(x, c);
        let m = choose|m: StateId| #[trigger] g.joined(s, m) && g.edges.contains((m, x, t));
        joined_run(g, 0, v, s, m);
        assert(net(g).edges.contains((m, x, t)));
        assert(estep(net(g), m, seq![c][0], t));
        assert(seq![c].skip(1) =~= Seq::empty());
        runs_none(net(g), t);
        runs_edge(net(g), m, t, seq![c], t);
        runs_cat(net(g), 0, v, m, seq![c], t);
        assert(v + seq![c] =~= w);
    }
}
proof fn run_comes<S: Ord, O>(g: Graph<SymbolRange<S>, O>, u: Seq<S>, s: StateId, a: StateId, w: Seq<S>, b: StateId, k: nat)
    requires comes(g, u, s), g.joined(s, a), run(net(g), a, w, b, k),
    ensures comes_to(g, u + w, b),
    decreases k,
{
    if k == 0 { assert(u + w =~= u); }
    else {
        let (j, m) = first_step(net(g), a, w, b, k);
        if j { joined_more(g, s, a, m); run_comes(g, u, s, m, w, b, (k - 1) as nat); }
        else {
            let x = choose|x: SymbolRange<S>| #[trigger] net(g).edges.contains((a, x, m)) && in_range(x, w[0]);
            assert(g.joined(s, a) && g.edges.contains((a, x, m)));
            assert(g.moves(s, x, m));
            let v = u.push(w[0]);
            assert(v.drop_last() =~= u);
            assert(goes(g, s, v.last(), m));
            assert(comes(g, v, m));
            joined_self(g, m);
            run_comes(g, v, m, m, w.skip(1), b, (k - 1) as nat);
            assert(v + w.skip(1) =~= u + w);
        }
    }
}
/// where a machine can come to is where its runs lead
pub proof fn comes_runs<S: Ord, O>(g: Graph<SymbolRange<S>, O>, w: Seq<S>, b: StateId)
    ensures comes_to(g, w, b) <==> runs(net(g), 0, w, b),
{
    if comes_to(g, w, b) { let t = choose|t: StateId| #[trigger] comes(g, w, t) && g.joined(t, b); comes_run(g, w, t); joined_run(g, 0, w, t, b); }
    if runs(net(g), 0, w, b) {
        let k = choose|k: nat| run(net(g), 0, w, b, k);
        assert(comes(g, Seq::<S>::empty(), 0));
        joined_self(g, 0);
        run_comes(g, Seq::<S>::empty(), 0, 0, w, b, k);
        assert(Seq::<S>::empty() + w =~= w);
    }
}
/// a run from the start to a state whose own output is o
pub open spec fn run_yields<S: Ord, O>(g: Graph<SymbolRange<S>, O>, w: Seq<S>, o: O) -> bool { exists|b: StateId| #[trigger] runs(net(g), 0, w, b) && g.outs.contains_pair(b, o) }
/// what a machine produces is what its runs end with
pub proof fn yields_runs<S: Ord, O>(g: Graph<SymbolRange<S>, O>, w: Seq<S>, o: O)
    ensures yields(g, w, o) <==> run_yields(g, w, o),
{
    if yields(g, w, o) {
        let t = choose|t: StateId| #[trigger] comes(g, w, t) && g.gives(t, o);
        let b = choose|b: StateId| #[trigger] g.joined(t, b) && g.outs.contains_pair(b, o);
        assert(comes_to(g, w, b));
        comes_runs(g, w, b);
    }
    if run_yields(g, w, o) {
        let b = choose|b: StateId| #[trigger] runs(net(g), 0, w, b) && g.outs.contains_pair(b, o);
        comes_runs(g, w, b);
        let t = choose|t: StateId| #[trigger] comes(g, w, t) && g.joined(t, b);
        assert(g.gives(t, o));
    }
}
/// C05: splitting ranges changes nothing about what a machine produces
pub proof fn same_yields<S: Ord, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>, w: Seq<S>, o: O)
    requires same_leads(g, h),
    ensures yields(g, w, o) <==> yields(h, w, o),
{
    assert(forall|t: StateId| comes(g, w, t) <==> comes(h, w, t)) by { assert forall|t: StateId| comes(g, w, t) <==> comes(h, w, t) by { same_comes(g, h, w, t); } }
    assert(forall|t: StateId| g.gives(t, o) <==> h.gives(t, o)) by { assert forall|t: StateId| g.gives(t, o) <==> h.gives(t, o) by {
        assert(forall|m: StateId| g.joined(t, m) == h.joined(t, m)) by { assert forall|m: StateId| g.joined(t, m) == h.joined(t, m) by { joined_same(g, h, t, m); } }
        if g.gives(t, o) { let m = choose|m: StateId| #[trigger] g.joined(t, m) && g.outs.contains_pair(m, o); assert(h.joined(t, m)); }
        if h.gives(t, o) { let m = choose|m: StateId| #[trigger] h.joined(t, m) && h.outs.contains_pair(m, o); assert(g.joined(t, m)); }
    } }
    if yields(g, w, o) { let t = choose|t: StateId| #[trigger] comes(g, w, t) && g.gives(t, o); assert(comes(h, w, t) && h.gives(t, o)); }
    if yields(h, w, o) { let t = choose|t: StateId| #[trigger] comes(h, w, t) && h.gives(t, o); assert(comes(g, w, t) && g.gives(t, o)); }
}
proof fn same_comes<S: Ord, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>, w: Seq<S>, t: StateId)
    requires same_leads(g, h),
    ensures comes(g, w, t) <==> comes(h, w, t),
    decreases w.len(),
{
    if w.len() > 0 {
        let (v, c) = (w.drop_last(), w.last());
        if comes(g, w, t) { let m = choose|m: StateId| #[trigger] goes(g, m, c, t) && comes(g, v, m); same_comes(g, h, v, m); same_goes(g, h, m, c, t); assert(goes(h, m, c, t)); }
        if comes(h, w, t) { let m = choose|m: StateId| #[trigger] goes(h, m, c, t) && comes(h, v, m); same_comes(g, h, v, m); same_goes(g, h, m, c, t); assert(goes(g, m, c, t)); }
    }
}
/// a machine ready to be determinised: complete, its labels sharing no symbols
pub open spec fn ready<S: Ord, O>(g: Graph<SymbolRange<S>, O>) -> bool { g.closed() && ranges_ok(g) && apart(g) && g.n <= StateId::MAX }
pub proof fn split_ready<S: Ord, O>(g: Graph<SymbolRange<S>, O>, h: Graph<SymbolRange<S>, O>)
    requires lawful_ord::<S>(), g.closed(), g.n <= StateId::MAX, same_leads(g, h), ranges_ok(h), apart(h),
    ensures ready(h),
{
    assert forall|a: StateId, x: SymbolRange<S>, b: StateId| #[trigger] h.edges.contains((a, x, b)) implies a < h.n && b < h.n by {
        assert(nonempty(x));
        assert(x.lowest.cmp_spec(&x.lowest) == std::cmp::Ordering::Equal);
        assert(in_range(x, x.lowest));
        assert(leads(h, a, x.lowest, b));
        assert(leads(g, a, x.lowest, b));
    }
}
