@@ prelude countable
use crate::countable::*;
@@ prelude symbol_range
use crate::symbol_range::*;
@@ prelude state_machine
use crate::state_machine::*;
@@ prelude regular_pattern
use crate::regular_pattern::*;
@@ prelude symbol_range_dfa
use crate::symbol_range_dfa::*;
@@ prelude dfa_compiler
use crate::dfa_compiler::*;
@@ prelude dfa_compiler
use crate::spec_prepared::*;
use crate::dfa_builder::*;
use crate::spec_words::*;
@@ prelude dfa_compiler regular_pattern
use crate::spec_lang::*;
use vstd::std_specs::cmp::*;

/// C01: the matcher accepts the language of the pattern
pub open spec fn knows<S: Clone + Ord>(r: SymbolRangeDfa<S, ()>, p: Pattern<S>) -> bool { r.wf() && forall|w: Seq<S>| (#[trigger] r.accepts(0, w)) is Some <==> lang(p, w) }
/// the matcher accepts just the symbols s
pub open spec fn knows_just<S: Clone + Ord>(r: SymbolRangeDfa<S, ()>, s: Seq<S>) -> bool { r.wf() && forall|w: Seq<S>| (#[trigger] r.accepts(0, w)) is Some <==> w == s }
/// trusted: the unit type is trivially ordered
pub axiom fn axiom_unit()
    ensures lawful_ord::<()>(), lawful_clone::<()>();
pub proof fn settled_knows<S: Clone + Ord>(g: Graph<SymbolRange<S>, ()>, r: SymbolRangeDfa<S, ()>, p: Pattern<S>)
    requires machine_for(p, (), g), settles(g, r),
    ensures knows(r, p),
{
    assert forall|w: Seq<S>| (#[trigger] r.accepts(0, w)) is Some <==> lang(p, w) by {
        assert(answers(g, w, r.accepts(0, w)));
        if r.accepts(0, w) is Some { assert(yields(g, w, r.accepts(0, w).unwrap())); }
        if lang(p, w) { assert(yields(g, w, ())); }
    }
}
pub proof fn knows_alike<S: Clone + Ord>(r: SymbolRangeDfa<S, ()>, p: Pattern<S>, q: Pattern<S>)
    requires knows(r, q), alike(p, q),
    ensures knows(r, p),
{}

@@ items trait PrepareToMatch
    /// r is what this prepares to
    spec fn prepared(&self, r: As) -> bool;
    spec fn prep_ok(&self) -> bool;
@@ fn trait PrepareToMatch::prepare_to_match
@ret r
@spec
    requires self.prep_ok(),
    ensures self.prepared(r),
@@ needs dfa_compiler PrepareToMatch for Box
@@ needs regular_pattern PrepareToMatch for Pattern
@@ needs regular_pattern PrepareToMatch for &ToPattern
@@ needs regular_pattern PrepareToMatch for &dyn ToPattern
@@ needs regular_pattern PrepareToMatch for &str
@@ items PrepareToMatch for SymbolRangeDfa
    open spec fn prepared(&self, r: SymbolRangeDfa<InputSymbol, OutputSymbol>) -> bool { r == *self }
    open spec fn prep_ok(&self) -> bool { true }

@@ items PrepareToMatch for Box
    open spec fn prepared(&self, r: SymbolRangeDfa<InputSymbol, OutputSymbol>) -> bool { settles((**self).graph(), r) }
    open spec fn prep_ok(&self) -> bool { lawful_sym::<InputSymbol>() && lawful_ord::<OutputSymbol>() && lawful_clone::<OutputSymbol>() && ready((**self).graph()) && (**self).sm_ok() }
@@ fn PrepareToMatch for Box::prepare_to_match
@ret r
@start
    let ghost g = self.graph();
@after let builder
    proof { can_compile(g, builder); }
@end
    proof {
        let (d, sets) = choose|d: Seq<DState<SymbolRange<InputSymbol>, OutputSymbol>>, sets: Seq<Seq<StateId>>| #[trigger] det(g, d, sets) && SymbolRangeDfaBuilder::<InputSymbol, OutputSymbol>::built(vx_r, d) && d.len() <= StateId::MAX;
        settled(g, d, sets, vx_r);
    }
@@ items PrepareToMatch for Pattern
    open spec fn prepared(&self, r: SymbolRangeDfa<InputSymbol, ()>) -> bool { knows(r, *self) }
    open spec fn prep_ok(&self) -> bool { self.ndfa_ok() }
@@ fn PrepareToMatch for Pattern::prepare_to_match
@ret r
@after let ndfa
    proof { axiom_unit(); }
    let ghost g = ndfa.graph();
@end
    proof { settled_knows(g, vx_r, self); }
@@ items PrepareToMatch for &dyn ToPattern
    open spec fn prepared(&self, r: SymbolRangeDfa<InputSymbol, ()>) -> bool { exists|p: Pattern<InputSymbol>| #[trigger] self.depicts(p) && knows(r, p) }
    open spec fn prep_ok(&self) -> bool { lawful_sym::<InputSymbol>() && forall|p: Pattern<InputSymbol>| #[trigger] self.depicts(p) ==> fits(p) && room(p) }
@@ items PrepareToMatch for &str
    open spec fn prepared(&self, r: SymbolRangeDfa<char, ()>) -> bool { knows_just(r, (*self)@) }
    open spec fn prep_ok(&self) -> bool { lawful_sym::<char>() && 1 + (*self)@.len() < StateId::MAX }
