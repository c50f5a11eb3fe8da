@@ prelude countable
use crate::countable::*;
@@ prelude symbol_range
use crate::symbol_range::*;
@@ prelude regular_pattern
use crate::regular_pattern::*;
@@ prelude state_machine
use crate::state_machine::*;
@@ prelude ndfa
use crate::ndfa::*;
@@ prelude prepare
use crate::prepare::*;
@@ prelude symbol_range_dfa
use crate::symbol_range_dfa::*;
@@ prelude symbol_reader
use crate::symbol_reader::*;
@@ prelude pattern_matcher
use crate::pattern_matcher::*;
@@ prelude matches
use crate::matches::*;
@@ prelude tape
use crate::tape::*;
@@ prelude
use crate::spec_runs::*;
use crate::spec_words::*;
use crate::spec_lang::*;
use crate::spec_prepared::*;
use crate::spec_tokens::*;

impl<'a, InputSymbol: Clone + Ord + Countable, OutputSymbol: Clone + Ord, Reader: SymbolReader<InputSymbol>> Tokenizer<'a, InputSymbol, OutputSymbol, Reader> {
    pub open spec fn machine(&self) -> SymbolRangeDfa<InputSymbol, OutputSymbol> { match self.dfa { ReferenceOrOwned::Reference(d) => *d, ReferenceOrOwned::Owned(d) => d } }
    pub open spec fn tk_ok(&self) -> bool { self.machine().wf() && self.tape.rd_ok() && lawful_clone::<OutputSymbol>() }
    /// the position in the source, and the symbols from there on
    pub open spec fn pos(&self) -> int { self.tape.source_position as int }
    /// the tokens it will yield
    pub open spec fn found(&self) -> Seq<(Range<usize>, OutputSymbol)> { toks(self.machine(), self.left(), self.pos()) }
    pub open spec fn left(&self) -> Seq<InputSymbol> { self.tape.rest() }
}

/// iterating over a tokenizer
impl<'a, InputSymbol: Clone + Ord + Countable, OutputSymbol: Clone + Ord + 'static, Reader: SymbolReader<InputSymbol>> VxItems for Tokenizer<'a, InputSymbol, OutputSymbol, Reader> {
    type It = (Range<usize>, OutputSymbol);
    open spec fn items(&self) -> Seq<(Range<usize>, OutputSymbol)> { self.found() }
    open spec fn it_ok(&self) -> bool { self.tk_ok() }
    fn vx_next(&mut self) -> (r: Option<(Range<usize>, OutputSymbol)>) { Tokenizer::vx_next(self) }
}
pub open spec fn end_pos_of(end: int, start: int) -> int { end - start }
/// going back over k of the m symbols read last
proof fn gone_back<S>(b: Seq<S>, w: Seq<S>, m: int, k: int)
    requires 0 <= k <= m <= w.len(),
    ensures (b + w.take(m)).skip((b + w.take(m)).len() - k) + w.skip(m) =~= w.skip(m - k),
{}
proof fn whole_and_rest<S>(a: Seq<S>, f: Seq<S>)
    ensures forall|b: Seq<S>| #[trigger] (b + a) + f =~= b + (a + f),
{ assert forall|b: Seq<S>| #[trigger] (b + a) + f =~= b + (a + f) by {} }

@@ fn TokenMatcher::new
@ret r
@spec
    ensures r.patterns@ == Seq::<(Pattern<InputSymbol>, OutputSymbol)>::empty(),
@end
    proof { assert(vx_r.patterns@ =~= Seq::empty()); }
@@ fn TokenMatcher::add_pattern
@spec
    requires lawful_clone::<InputSymbol>(),
    ensures exists|p: Pattern<InputSymbol>| #[trigger] pattern.depicts(p) && final(self).patterns@ == old(self).patterns@.push((p, output)),
@@ fn TokenMatcher::to_ndfa
@rewrite callee Box::new vx_machine
@ret r
@spec
    requires lawful_sym::<InputSymbol>(), lawful_clone::<OutputSymbol>(), all_fit(self.patterns@),
    ensures r.sm_ok(), machine_of_all(self.patterns@, r.graph()),
@before loop 0
    proof { none_chosen(self.patterns@, ndfa.graph()); }
@loop 0 it
    invariant
        lawful_sym::<InputSymbol>(), lawful_clone::<OutputSymbol>(), all_fit(self.patterns@), ndfa.sm_ok(),
        it.seq().len() == self.patterns@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.patterns@[i],
        choosing(self.patterns@, it.index@ as int, ndfa.graph()), ndfa.graph().n <= 1 + bulk(self.patterns@, it.index@ as nat),
        it.index@ == it.seq().len() ==> choosing(self.patterns@, self.patterns@.len() as int, ndfa.graph()) && ndfa.graph().n <= 1 + bulk(self.patterns@, self.patterns@.len()),
@loop 0 start
    let ghost g = ndfa.graph();
    proof { bulk_grows(self.patterns@, it.index@ as nat, self.patterns@.len()); assert(fits(self.patterns@[it.index@ as int].0)); }
@after let end_state
    let ghost h = ndfa.graph();
@loop 0 end
    proof { one_more_token(self.patterns@, it.index@ as int, g, h, end_state, output_state, ndfa.graph()); }
@after loop 0
    let ghost whole = ndfa.graph();
@after call fix_overlapping_ranges
    proof { all_chosen(self.patterns@, whole, ndfa.graph()); }

@@ items PrepareToMatch for &TokenMatcher
    open spec fn prepared(&self, r: SymbolRangeDfa<InputSymbol, OutputSymbol>) -> bool { picker(self.patterns@, r) }
    open spec fn prep_ok(&self) -> bool { lawful_sym::<InputSymbol>() && lawful_ord::<OutputSymbol>() && lawful_clone::<OutputSymbol>() && all_fit(self.patterns@) }
@@ fn PrepareToMatch for &TokenMatcher::prepare_to_match
@ret r
@after let ndfa
    let ghost g = ndfa.graph();
@end
    proof { settled_picks(self.patterns@, g, vx_r); }

@@ fn ReferenceOrOwned::get
@ret r
@spec
    ensures *r == match self { ReferenceOrOwned::Reference(d) => **d, ReferenceOrOwned::Owned(d) => *d },
@@ fn Tokenizer::new
@ret r
@spec
    requires pattern.prep_ok(), source.rd_ok(), source.rest().len() <= usize::MAX / 8, lawful_clone::<InputSymbol>(), lawful_clone::<OutputSymbol>(),
        forall|d: SymbolRangeDfa<InputSymbol, OutputSymbol>| #[trigger] pattern.prepared(d) ==> d.wf(),
    ensures r.tk_ok(), pattern.prepared(r.machine()), r.pos() == 0, r.left() == source.rest(),
@end
    proof { assert(vx_r.left() =~= source.rest()); }
@@ fn Tokenizer::new_prepared
@ret r
@spec
    requires pattern.wf(), source.rd_ok(), source.rest().len() <= usize::MAX / 8, lawful_clone::<InputSymbol>(), lawful_clone::<OutputSymbol>(),
    ensures r.tk_ok(), r.machine() == *pattern, r.pos() == 0, r.left() == source.rest(),
@end
    proof { assert(vx_r.left() =~= source.rest()); }
@@ fn Tokenizer::get_source_position
@ret r
@spec
    ensures r == self.pos(),
@@ fn Tokenizer::skip_input
@ret r
@spec
    requires old(self).tk_ok(),
    ensures
        final(self).tk_ok(), final(self).machine() == old(self).machine(), old(self).tape.end_of_reader ==> final(self).tape.end_of_reader,
        old(self).left().len() == 0 ==> r is None && final(self).left().len() == 0 && final(self).pos() == old(self).pos() && final(self).tape.end_of_reader,
        old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().drop_first() && final(self).pos() == old(self).pos() + 1,
@@ fn Tokenizer::at_end_of_reader
@ret r
@spec
    requires self.tk_ok(),
    ensures r ==> self.left().len() == 0, self.left().len() == 0 && self.tape.end_of_reader ==> r,
@@ fn Tokenizer::next_token
@ret r
@spec
    requires old(self).tk_ok(),
    ensures
        final(self).tk_ok(), final(self).machine() == old(self).machine(), old(self).tape.end_of_reader ==> final(self).tape.end_of_reader,
        match r {
            Some(t) => is_token(old(self).machine(), old(self).left(), old(self).pos(), t) && final(self).pos() == t.0.end
                && final(self).left() == old(self).left().skip(t.0.end - t.0.start),
            None => no_token(old(self).machine(), old(self).left()) && final(self).pos() == old(self).pos() && final(self).left() == old(self).left(),
        },
@start
    let ghost d = self.machine();
    let ghost w = self.left();
    let ghost b = self.tape.back();
@after let match_result
    let ghost m = end_pos_of(self.tape.source_position as int, start_pos as int);
    let ghost best = reported(match_result);
    proof {
        assert(d.longest(w, best));
        assert(advanced(old(self).tape.hist(), w, self.tape.hist(), self.tape.rest(), m));
        assert(self.tape.back() == b + w.take(m));
        assert(self.tape.rest() == w.skip(m));
        gone_back(b, w, m, m);
        if best is Some { gone_back(b, w, m, m - best.unwrap().0); }
        whole_and_rest(self.tape.ahead(), self.tape.fresh());
    }
@end
    proof {
        if vx_r is Some {
            let n = vx_r->Some_0.0.end - vx_r->Some_0.0.start;
            assert(self.left() =~= w.skip(n));
            assert(token_at(d, w, n, vx_r->Some_0.1));
        } else { assert(self.left() =~= w); assert(no_token(d, w)); }
    }

@@ items SymbolReader for Tokenizer
    open spec fn rest(&self) -> Seq<OutputSymbol> { tokens_now(self.machine(), self.left()) }
    open spec fn rd_ok(&self) -> bool { self.tk_ok() }
@@ inherent Iterator for Tokenizer
@@ fn Iterator for Tokenizer::next
@ret r
@spec
    requires old(self).tk_ok(),
    ensures
        final(self).tk_ok(), final(self).machine() == old(self).machine(),
        match r {
            Some(t) => final(self).pos() == t.0.end && exists|k: int| #[trigger] token_after(old(self).machine(), old(self).left(), old(self).pos(), k, t) && final(self).left() == old(self).left().skip(k + t.0.end - t.0.start),
            None => no_more(old(self).machine(), old(self).left()) && final(self).left().len() == 0,
        },
        old(self).found().len() == 0 ==> r is None,
        old(self).found().len() > 0 ==> r == Some(old(self).found()[0]) && final(self).found() == old(self).found().drop_first(),
@start
    let ghost d = self.machine();
    let ghost w = self.left();
    let ghost mut k: int = 0;
    proof { assert(w.skip(0) =~= w); }
@loop 0
    invariant
        self.tk_ok(), self.machine() == d, d == old(self).machine(), w == old(self).left(), 0 <= k <= w.len(),
        self.left() == w.skip(k), self.pos() == old(self).pos() + k,
        forall|j: int| 0 <= j < k ==> no_token(d, #[trigger] w.skip(j)),
    decreases self.left().len() + if self.tape.end_of_reader { 0int } else { 1int },
@before return 0
    proof {
        let t = (next.0, next.1);
        assert(w.skip(k).skip(t.0.end - t.0.start) =~= w.skip(k + t.0.end - t.0.start));
        assert(token_after(d, w, old(self).pos(), k, t));
        first_tok(d, w, old(self).pos(), k, t);
        assert(old(self).found().drop_first() =~= self.found());
    }
@before return 1
    proof {
        assert(k == w.len());
        assert forall|j: int| 0 <= j <= w.len() implies no_token(d, #[trigger] w.skip(j)) by { if j == k { assert(no_token(d, w.skip(k))); } }
        no_toks(d, w, old(self).pos());
    }
@loop 0 end
    proof {
        if w.skip(k).len() > 0 { assert(w.skip(k).drop_first() =~= w.skip(k + 1)); k = k + 1; }
    }
