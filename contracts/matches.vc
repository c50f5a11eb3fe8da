@@ prelude symbol_range_dfa
use crate::symbol_range_dfa::*;
@@ prelude symbol_reader
use crate::symbol_reader::*;
@@ prelude pattern_matcher
use crate::pattern_matcher::*;
@@ prelude prepare
use crate::prepare::*;
@@ prelude
/// what a finished run reports
pub open spec fn reported<'a, O, State>(r: MatchAction<'a, O, State>) -> Option<(int, O)> {
    match r { MatchAction::Accept(n, o) => Some((n as int, *o)), _ => None }
}
/// the length reported is that of the longest prefix the machine accepts
pub open spec fn found<I: Ord, O>(dfa: &SymbolRangeDfa<I, O>, w: Seq<I>, r: Option<usize>) -> bool {
    match r {
        Some(n) => exists|a: Option<(int, O)>| #[trigger] dfa.longest(w, a) && a is Some && a.unwrap().0 == n,
        None => dfa.longest(w, None),
    }
}
@@ prelude regular_pattern
use crate::spec_lang::*;
use crate::regular_pattern::*;
use crate::countable::Countable;

/// C01: the length of the longest prefix of w in the language of the pattern
pub open spec fn longest_in<S: Clone + Ord>(p: Pattern<S>, w: Seq<S>, r: Option<usize>) -> bool {
    match r {
        Some(n) => n <= w.len() && lang(p, w.take(n as int)) && forall|m: int| n < m <= w.len() ==> !lang(p, #[trigger] w.take(m)),
        None => forall|m: int| 0 <= m <= w.len() ==> !lang(p, #[trigger] w.take(m)),
    }
}
/// C01: what matches_prepared promises of a matcher that knows the pattern
pub proof fn matched_prepared<S: Clone + Ord + Countable>(d: SymbolRangeDfa<S, ()>, p: Pattern<S>, w: Seq<S>, r: Option<usize>)
    requires knows(d, p), found(&d, w, r),
    ensures longest_in(p, w, r),
{
    match r {
        Some(n) => {
            let a = choose|a: Option<(int, ())>| #[trigger] d.longest(w, a) && a is Some && a.unwrap().0 == n;
            assert(d.accepts(0, w.take(n as int)) is Some);
            assert forall|m: int| n < m <= w.len() implies !lang(p, #[trigger] w.take(m)) by { assert(d.accepts(0, w.take(m)) is None); }
        }
        None => { assert forall|m: int| 0 <= m <= w.len() implies !lang(p, #[trigger] w.take(m)) by { assert(d.accepts(0, w.take(m)) is None); } }
    }
}
/// C01: what `matches` promises of a pattern
pub proof fn matched<S: Clone + Ord + Countable + 'static>(p: Pattern<S>, w: Seq<S>, r: Option<usize>)
    requires exists|d: SymbolRangeDfa<S, ()>| #[trigger] p.prepared(d) && found(&d, w, r),
    ensures longest_in(p, w, r),
{
    let d = choose|d: SymbolRangeDfa<S, ()>| #[trigger] p.prepared(d) && found(&d, w, r);
    matched_prepared(d, p, w, r);
}
/// C01: and of anything used as a pattern
pub proof fn matched_as<S: Clone + Ord + Countable + 'static>(x: &dyn ToPattern<S>, w: Seq<S>, r: Option<usize>)
    requires exists|d: SymbolRangeDfa<S, ()>| #[trigger] x.prepared(d) && found(&d, w, r),
    ensures exists|p: Pattern<S>| #[trigger] x.depicts(p) && longest_in(p, w, r),
{
    let d = choose|d: SymbolRangeDfa<S, ()>| #[trigger] x.prepared(d) && found(&d, w, r);
    let p = choose|p: Pattern<S>| #[trigger] x.depicts(p) && knows(d, p);
    matched_prepared(d, p, w, r);
}
/// C01: a string matches exactly where it starts the input
pub proof fn matched_str(x: &str, w: Seq<char>, r: Option<usize>)
    requires exists|d: SymbolRangeDfa<char, ()>| #[trigger] x.prepared(d) && found(&d, w, r), x@.len() <= usize::MAX,
    ensures match r { Some(n) => n == x@.len() && x@.len() <= w.len() && w.take(n as int) == x@, None => !(x@.len() <= w.len() && w.take(x@.len() as int) == x@) },
{
    let d = choose|d: SymbolRangeDfa<char, ()>| #[trigger] x.prepared(d) && found(&d, w, r);
    match r {
        Some(n) => { let a = choose|a: Option<(int, ())>| #[trigger] d.longest(w, a) && a is Some && a.unwrap().0 == n; assert(d.accepts(0, w.take(n as int)) is Some); }
        None => { if x@.len() <= w.len() && w.take(x@.len() as int) == x@ { assert(d.accepts(0, w.take(x@.len() as int)) is None); } }
    }
}
/// C01: the answer depends on the language and the input only, not on the matcher or on how often it was used
pub proof fn one_answer<S: Clone + Ord>(p: Pattern<S>, w: Seq<S>, a: Option<usize>, b: Option<usize>)
    requires longest_in(p, w, a), longest_in(p, w, b),
    ensures a == b,
{}

@@ fn match_pattern
@ret r
@spec
    requires
        old(symbol_reader).rd_ok(),
        start_state is More ==> start_state->More_0.ms_ok() && start_state->More_0.seen() + old(symbol_reader).rest().len() < usize::MAX,
    ensures
        old(symbol_reader).lasting() ==> final(symbol_reader).rd_ok(),
        !(r is More),
        // the answer to everything the reader had to deliver, whatever part of it was read
        start_state is More ==> reported(r) == start_state->More_0.answer(old(symbol_reader).rest()),
        start_state is More ==> exists|m: int| #[trigger] advanced(old(symbol_reader).hist(), old(symbol_reader).rest(), final(symbol_reader).hist(), final(symbol_reader).rest(), m)
            && (r is Accept ==> r->Accept_0 <= start_state->More_0.seen() + m),
        !(start_state is More) ==> r == start_state && *final(symbol_reader) == *old(symbol_reader),
@start
    let ghost mut vx_m: int = 0;
    let ghost rest0 = symbol_reader.rest();
    let ghost hist0 = symbol_reader.hist();
    proof {
        if start_state is More { assert(rest0.skip(0) =~= rest0); assert(rest0.take(0) =~= Seq::empty()); if hist0 is Some { assert(hist0.unwrap().back + rest0.take(0) =~= hist0.unwrap().back); } }
    }
@loop 0
    invariant
        current_state is More || symbol_reader.lasting() ==> symbol_reader.rd_ok(),
        symbol_reader.lasting() == old(symbol_reader).lasting(),
        rest0 == old(symbol_reader).rest(), hist0 == old(symbol_reader).hist(),
        !(start_state is More) ==> current_state == start_state && *symbol_reader == *old(symbol_reader),
        start_state is More ==> {
            let s0 = start_state->More_0;
            &&& s0.seen() + rest0.len() < usize::MAX
            &&& advanced(hist0, rest0, symbol_reader.hist(), symbol_reader.rest(), vx_m)
            &&& current_state is More ==> {
                    &&& current_state->More_0.ms_ok()
                    &&& current_state->More_0.seen() == s0.seen() + vx_m
                    &&& symbol_reader.rest() == rest0.skip(vx_m)
                    &&& current_state->More_0.answer(symbol_reader.rest()) == s0.answer(rest0)
                }
            &&& !(current_state is More) ==> reported(current_state) == s0.answer(rest0) && (current_state is Accept ==> current_state->Accept_0 <= s0.seen() + vx_m)
        },
    ensures !(current_state is More),
    decreases if current_state is More { symbol_reader.rest().len() + 1 } else { 0 },
@loop 0 start
    let ghost rest = symbol_reader.rest();
    let ghost hist = symbol_reader.hist();
    proof {
        if rest.len() == 0 { assert(rest =~= Seq::<InputSymbol>::empty()); }
    }
@loop 0 end
    proof {
        if rest.len() > 0 {
            assert(rest =~= seq![rest[0]] + rest.drop_first());
            assert(rest0.skip(vx_m).drop_first() =~= rest0.skip(vx_m + 1));
            if hist0 is Some { assert(hist.unwrap().back + rest.take(1) =~= hist0.unwrap().back + rest0.take(vx_m + 1)); }
            vx_m = vx_m + 1;
        } else {
            if hist0 is Some { assert(hist.unwrap().back + rest.take(0) =~= hist.unwrap().back); assert(rest.skip(0) =~= rest); }
        }
    }

@@ fn matches_symbol_range
@ret r
@spec
    requires dfa.wf(), old(symbol_reader).rd_ok(), old(symbol_reader).rest().len() < usize::MAX,
    ensures found(dfa, old(symbol_reader).rest(), r),
@after let final_state
    proof { assert(dfa.longest(old(symbol_reader).rest(), reported(final_state))); }
@@ fn matches
@ret r
@spec
    requires
        source.src_ok(), source.symbols().len() < usize::MAX,
        forall|d: SymbolRangeDfa<Symbol, OutputSymbol>| #[trigger] pattern.prepared(d) ==> d.wf(),
        pattern.prep_ok(),
    ensures exists|d: SymbolRangeDfa<Symbol, OutputSymbol>| #[trigger] pattern.prepared(d) && found(&d, source.symbols(), r),
@@ fn matches_prepared
@ret r
@spec
    requires source.src_ok(), source.symbols().len() < usize::MAX, matcher.wf(),
    ensures found(matcher, source.symbols(), r),
