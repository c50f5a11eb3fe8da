@@ prelude state_machine
use crate::state_machine::*;
@@ prelude symbol_range
use crate::symbol_range::*;
@@ prelude ndfa
use crate::ndfa::*;
@@ prelude countable
use crate::countable::*;
@@ prelude symbol_range state_machine ndfa
use crate::spec_runs::*;
use crate::spec_lang::*;
use crate::spec_words::*;
use vstd::std_specs::cmp::*;

/// trusted: putting a machine in a box and forgetting its type leaves the machine as it is
#[verifier::external_body]
pub fn vx_machine<I: 'static, O: 'static, T: StateMachine<I, O> + 'static>(m: T) -> (r: Box<dyn StateMachine<I, O>>)
    ensures r.graph() == m.graph(), r.sm_ok() == m.sm_ok(),
{ Box::new(m) }

@@ recursive Pattern
@@ fn Clone for Pattern::clone
@ret r
@spec
    ensures lawful_clone::<Symbol>() ==> alike(*self, r),
@@ fn Pattern::vx_copy
@ret r
@spec
    ensures lawful_clone::<Symbol>() ==> alike(*self, r),
    decreases *self,
@end
    proof { if lawful_clone::<Symbol>() { copied(*self, vx_r); } }
@loop 0
    invariant
        *self is MatchAll, *x0 == self->MatchAll_0, vx_x0@.len() == vx_x0_i,
        lawful_clone::<Symbol>() ==> forall|j: int| 0 <= j < vx_x0_i ==> alike(#[trigger] x0@[j], vx_x0@[j]),
@loop 0 start
    proof { assert(decreases_to!(*self => *x0)); assert(decreases_to!(*x0 => x0@[vx_x0_i as int])); }
@loop 1
    invariant
        *self is MatchAny, *x0 == self->MatchAny_0, vx_x0@.len() == vx_x0_i,
        lawful_clone::<Symbol>() ==> forall|j: int| 0 <= j < vx_x0_i ==> alike(#[trigger] x0@[j], vx_x0@[j]),
@loop 1 start
    proof { assert(decreases_to!(*self => *x0)); assert(decreases_to!(*x0 => x0@[vx_x0_i as int])); }
@@ fn PartialEq for Pattern::eq
@flag external_body

@@ fn Pattern::compile
@ret r
@spec
    requires
        lawful_sym::<Symbol>(), fits(*self),
        old(state_machine).sm_ok(), old(state_machine).graph().closed(), start_state < old(state_machine).graph().n,
        old(state_machine).graph().n + size(*self) < StateId::MAX,
    ensures
        final(state_machine).sm_ok(),
        compiled(old(state_machine).graph(), start_state, final(state_machine).graph(), r, *self),
        undisturbed(old(state_machine).graph(), final(state_machine).graph()),
    decreases *self,
@start
    let ghost g0 = state_machine.graph();
    proof { added_nothing(g0, start_state, g0); }
@end
    proof { not_disturbed(g0, start_state, state_machine.graph()); }
@arm 0 start
    proof { assert forall|w: Seq<Symbol>| #[trigger] runs(added(g0, g0), start_state, w, start_state) <==> lang(*self, w) by { nothing_runs::<Symbol>(start_state, w, start_state); } }
@arm 1 start
    proof { assert forall|w: Seq<Symbol>| #[trigger] runs(added(g0, g0), start_state, w, start_state) <==> w == symbols@.take(0) by { nothing_runs::<Symbol>(start_state, w, start_state); if w.len() == 0 { assert(w =~= symbols@.take(0)); } } }
@loop 0 it
    invariant
        lawful_sym::<Symbol>(), state_machine.sm_ok(), g0.closed(), start_state < g0.n, g0.n + symbols@.len() < StateId::MAX,
        it.seq().len() == symbols@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == symbols@[i],
        grown(g0, start_state, state_machine.graph()), ends(g0, start_state, state_machine.graph(), current_state),
        state_machine.graph().n == g0.n + it.index@, (current_state == start_state) == (it.index@ == 0),
        forall|w: Seq<Symbol>| #[trigger] runs(added(g0, state_machine.graph()), start_state, w, current_state) <==> w == symbols@.take(it.index@ as int),
@loop 0 start
    let ghost h = state_machine.graph();
    let ghost q = current_state;
@loop 0 end
    proof {
        let x = choose|x: SymbolRange<Symbol>| x.lowest == *sym && x.highest == *sym && state_machine.graph().edges == h.edges.insert((q, x, current_state));
        assert(sym.cmp_spec(sym) == std::cmp::Ordering::Equal);
        single(h, q, x, current_state, state_machine.graph());
        then_symbol(g0, start_state, h, q, state_machine.graph(), current_state, x, symbols@, it.index@ as int);
    }
@after loop 0
    proof { assert(symbols@.take(symbols@.len() as int) =~= symbols@); }
@arm 2 end
    proof {
        let x = choose|x: SymbolRange<Symbol>| x.lowest == *first && x.highest == *last && state_machine.graph().edges == g0.edges.insert((start_state, x, next_state));
        single(g0, start_state, x, next_state, state_machine.graph());
    }
@before loop 1
    proof { first_round(g0, start_state, target_state, state_machine.graph(), **pattern, *count as nat); }
@loop 1 it
    invariant
        lawful_sym::<Symbol>(), fits(*self), *self is RepeatInfinite, self->RepeatInfinite_0 == *count, self->RepeatInfinite_1 == *pattern, fits(**pattern), count + 2 <= u32::MAX, state_machine.sm_ok(),
        g0.n + 1 + (*count as nat + 2) * size(**pattern) < StateId::MAX,
        it.seq().len() == count + 2, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i,
        state_machine.graph().n <= g0.n + 1 + (it.index@ as nat) * size(**pattern),
        it.index@ < count + 2 ==> rounds(g0, start_state, target_state, state_machine.graph(), repeat_state, **pattern, it.index@ as nat, *count as nat, it.index@ as nat),
        it.index@ == count + 2 ==> grown(g0, start_state, state_machine.graph()) && ends(g0, start_state, state_machine.graph(), target_state)
            && forall|w: Seq<Symbol>| #[trigger] runs(added(g0, state_machine.graph()), start_state, w, target_state) <==> exists|j: nat| j >= *count && #[trigger] power(**pattern, j, w),
@loop 1 start
    let ghost h = state_machine.graph();
    let ghost q = repeat_state;
    proof { room_rounds(it.index@ as nat, (*count + 2) as nat, size(**pattern)); }
@after if 0
    let ghost h1 = state_machine.graph();
    proof {
        if repeat >= *count { may_stop(g0, start_state, target_state, h, q, h1, **pattern, repeat as nat, *count as nat); }
        else { may_not_stop(g0, start_state, target_state, h, q, **pattern, repeat as nat, *count as nat); }
    }
@before if 1
    let ghost h2 = state_machine.graph();
    proof { next_round(g0, start_state, target_state, h1, q, h2, repeat_state, **pattern, repeat as nat, *count as nat); }
@loop 1 end
    proof { if repeat == *count + 1 { last_round(g0, start_state, target_state, h1, q, h2, repeat_state, state_machine.graph(), **pattern, *count as nat); } }
@before loop 2
    proof { first_round(g0, start_state, target_state, state_machine.graph(), **pattern, range.start as nat); }
@loop 2 it
    invariant
        lawful_sym::<Symbol>(), fits(*self), *self is Repeat, self->Repeat_0 == *range, self->Repeat_1 == *pattern, fits(**pattern), state_machine.sm_ok(),
        g0.n + 1 + (range.end as nat) * size(**pattern) < StateId::MAX,
        it.seq().len() == range.end, forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i,
        state_machine.graph().n <= g0.n + 1 + (it.index@ as nat) * size(**pattern),
        rounds(g0, start_state, target_state, state_machine.graph(), repeat_state, **pattern, it.index@ as nat, range.start as nat, it.index@ as nat),
@loop 2 start
    let ghost h = state_machine.graph();
    let ghost q = repeat_state;
    proof { room_rounds(it.index@ as nat, range.end as nat, size(**pattern)); }
@after if 2
    let ghost h1 = state_machine.graph();
    proof {
        if repeat >= range.start { may_stop(g0, start_state, target_state, h, q, h1, **pattern, repeat as nat, range.start as nat); }
        else { may_not_stop(g0, start_state, target_state, h, q, **pattern, repeat as nat, range.start as nat); }
    }
@loop 2 end
    proof { next_round(g0, start_state, target_state, h1, q, state_machine.graph(), repeat_state, **pattern, repeat as nat, range.start as nat); }
@after loop 1
    proof { assert forall|w: Seq<Symbol>| #[trigger] runs(added(g0, state_machine.graph()), start_state, w, target_state) <==> lang(*self, w) by { lang_forever(*self, w); } }
@after loop 2
    proof { assert forall|w: Seq<Symbol>| #[trigger] runs(added(g0, state_machine.graph()), start_state, w, target_state) <==> lang(*self, w) by { lang_repeat(*self, w); } }
@arm 5 start
    proof { assert forall|w: Seq<Symbol>| #[trigger] runs(added(g0, g0), start_state, w, start_state) <==> chain(*patterns, 0, w) by { nothing_runs::<Symbol>(start_state, w, start_state); } }
@loop 3 it
    invariant
        lawful_sym::<Symbol>(), fits(*self), *self is MatchAll, self->MatchAll_0 == *patterns, state_machine.sm_ok(), g0.closed(), start_state < g0.n,
        g0.n + total(*patterns, patterns@.len()) < StateId::MAX,
        it.seq().len() == patterns@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == patterns@[i],
        state_machine.graph().n <= g0.n + total(*patterns, it.index@ as nat),
        (current_state == start_state) == (forall|i: int| 0 <= i < it.index@ ==> idle(#[trigger] patterns@[i])),
        grown(g0, start_state, state_machine.graph()), ends(g0, start_state, state_machine.graph(), current_state),
        forall|w: Seq<Symbol>| #[trigger] runs(added(g0, state_machine.graph()), start_state, w, current_state) <==> chain(*patterns, it.index@ as nat, w),
@loop 3 start
    let ghost h = state_machine.graph();
    let ghost q = current_state;
    proof { room_chain(*patterns, it.index@ as nat, patterns@.len()); assert(*pattern == patterns@[it.index@ as int]); assert(fits(patterns@[it.index@ as int])); assert(decreases_to!(*self => *patterns)); assert(decreases_to!(*patterns => patterns@[it.index@ as int])); }
@loop 3 end
    proof { then_chain(g0, start_state, h, q, state_machine.graph(), current_state, *patterns, it.index@ as nat); }
@before loop 4
    proof { no_choice(g0, start_state, target_state, state_machine.graph(), *patterns); }
@loop 4 it
    invariant
        lawful_sym::<Symbol>(), fits(*self), *self is MatchAny, self->MatchAny_0 == *patterns, state_machine.sm_ok(),
        g0.n + 1 + total(*patterns, patterns@.len()) < StateId::MAX,
        it.seq().len() == patterns@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == patterns@[i],
        state_machine.graph().n <= g0.n + 1 + total(*patterns, it.index@ as nat),
        choices(g0, start_state, target_state, state_machine.graph(), *patterns, it.index@ as int),
@loop 4 start
    let ghost h = state_machine.graph();
    proof { room_chain(*patterns, it.index@ as nat, patterns@.len()); assert(*pattern == patterns@[it.index@ as int]); assert(fits(patterns@[it.index@ as int])); assert(decreases_to!(*self => *patterns)); assert(decreases_to!(*patterns => patterns@[it.index@ as int])); }
@after let final_state
    let ghost h1 = state_machine.graph();
@loop 4 end
    proof { one_choice_more(g0, start_state, target_state, h, h1, final_state, state_machine.graph(), *patterns, it.index@ as int); }

@@ items ToNdfa for Pattern
    open spec fn machine<O>(&self, output: O, g: Graph<SymbolRange<Symbol>, O>) -> bool { machine_for(*self, output, g) }
    open spec fn ndfa_ok(&self) -> bool { lawful_sym::<Symbol>() && fits(*self) && room(*self) }
@@ fn ToNdfa for Pattern::to_ndfa
@rewrite callee Box::new vx_machine
@after let result
    let ghost g0 = result.graph();
@after let end_state
    let ghost g1 = result.graph();
@after call set_output_symbol
    let ghost g2 = result.graph();
    proof { assert(added(g0, g1).edges =~= g1.edges); assert(ranges_ok(g2)); }
@after call fix_overlapping_ranges
    proof { whole_machine(g0, g1, end_state, g2, result.graph(), *self, output); }

@@ items ToNdfa for dyn ToPattern
    open spec fn machine<O>(&self, output: O, g: Graph<SymbolRange<Symbol>, O>) -> bool { exists|p: Pattern<Symbol>| #[trigger] self.depicts(p) && machine_for(p, output, g) }
    open spec fn ndfa_ok(&self) -> bool { lawful_sym::<Symbol>() && forall|p: Pattern<Symbol>| #[trigger] self.depicts(p) ==> fits(p) && room(p) }
@@ items ToNdfa for str
    open spec fn machine<O>(&self, output: O, g: Graph<SymbolRange<char>, O>) -> bool { machine_of(self@, output, g) }
    open spec fn ndfa_ok(&self) -> bool { lawful_sym::<char>() && 1 + self@.len() < StateId::MAX }
@@ items ToNdfa for slice
    open spec fn machine<O>(&self, output: O, g: Graph<SymbolRange<Symbol>, O>) -> bool { machine_of(self@, output, g) }
    open spec fn ndfa_ok(&self) -> bool { lawful_sym::<Symbol>() && 1 + self@.len() < StateId::MAX }

@@ items trait ToPattern
    /// r is a pattern for this
    spec fn depicts(&self, r: Pattern<Symbol>) -> bool;
@@ fn trait ToPattern::to_pattern
@ret r
@spec
    requires lawful_clone::<Symbol>(),
    ensures self.depicts(r),
@@ items trait IntoPattern
    /// r is a pattern for this
    spec fn becomes(self, r: Pattern<Symbol>) -> bool;
@@ fn trait IntoPattern::into_pattern
@ret r
@spec
    requires lawful_clone::<Symbol>(),
    ensures self.becomes(r),
@@ items IntoPattern for Pattern
    open spec fn becomes(self, r: Pattern<Symbol>) -> bool { alike(self, r) }
@@ items IntoPattern for Box
    open spec fn becomes(self, r: Pattern<Symbol>) -> bool { alike(*self, r) }
@@ items IntoPattern for &PatternType
    open spec fn becomes(self, r: Pattern<Symbol>) -> bool { (*self).depicts(r) }
@@ items IntoPattern for &slice
    open spec fn becomes(self, r: Pattern<Symbol>) -> bool { denotes(r, self@) }
@@ items IntoPattern for &str
    open spec fn becomes(self, r: Pattern<char>) -> bool { denotes(r, self@) }
@@ items ToPattern for Pattern
    open spec fn depicts(&self, r: Pattern<Symbol>) -> bool { alike(*self, r) }
@@ items ToPattern for Box
    open spec fn depicts(&self, r: Pattern<Symbol>) -> bool { alike(**self, r) }
@@ items ToPattern for Vec
    open spec fn depicts(&self, r: Pattern<Symbol>) -> bool { denotes(r, self@) }
@@ items ToPattern for slice
    open spec fn depicts(&self, r: Pattern<Symbol>) -> bool { denotes(r, self@) }
@@ items ToPattern for str
    open spec fn depicts(&self, r: Pattern<char>) -> bool { denotes(r, self@) }
@@ fn ToPattern for Vec::to_pattern
@ret r
@end
    proof { assert(vx_r->Match_0@ =~= self@); }
@@ fn ToPattern for slice::to_pattern
@ret r
@end
    proof { assert(vx_r->Match_0@ =~= self@); }
@@ fn ToPattern for str::to_pattern
@ret r
@rewrite method chars vx_chars
@rewrite for 0 while
@loop 0
    invariant_except_break vx_out1@ + vx_it0.items() =~= self@,
    ensures vx_out1@ =~= self@,
    decreases vx_it0.items().len(),

@@ fn exactly
@ret r
@spec
    requires lawful_clone::<Symbol>(),
    ensures item.becomes(r),
@@ items trait PatternTransformer
    /// r matches the concatenations of lo up to but not including hi strings of this
    spec fn repeats(self, lo: nat, hi: nat, r: Pattern<Symbol>) -> bool;
    /// r matches the concatenations of lo or more strings of this
    spec fn goes_on(self, lo: nat, r: Pattern<Symbol>) -> bool;
@@ fn trait PatternTransformer::repeat_forever
@ret r
@spec
    ensures self.goes_on(min_count as nat, r),
@@ fn trait PatternTransformer::repeat
@ret r
@spec
    ensures self.repeats(count.start as nat, count.end as nat, r),
@@ items PatternTransformer for Pattern
    open spec fn repeats(self, lo: nat, hi: nat, r: Pattern<Symbol>) -> bool { repeated(self, lo, hi, r) }
    open spec fn goes_on(self, lo: nat, r: Pattern<Symbol>) -> bool { forever(self, lo, r) }
@@ fn PatternTransformer for Pattern::repeat_forever
@ret r
@end
    proof { is_forever(vx_r); }
@@ fn PatternTransformer for Pattern::repeat
@ret r
@end
    proof { is_repeated(vx_r); }
@@ items trait PatternCombiner
    /// the pattern whose strings come first
    spec fn first(self) -> Pattern<Symbol>;
@@ fn trait PatternCombiner::append
@ret r
@spec
    requires lawful_clone::<Symbol>(),
    ensures exists|q: Pattern<Symbol>| #[trigger] pattern.becomes(q) && appended(self.first(), q, r),
@@ fn trait PatternCombiner::or
@ret r
@spec
    requires lawful_clone::<Symbol>(),
    ensures exists|q: Pattern<Symbol>| #[trigger] pattern.becomes(q) && either(self.first(), q, r),
@@ items PatternCombiner for Pattern
    open spec fn first(self) -> Pattern<Symbol> { self }
@@ fn PatternCombiner for Pattern::append
@ret r
@after let second_pattern
    let ghost p0 = first_pattern;
    let ghost q0 = second_pattern;
@loop 0 it
    invariant it.seq() == p0->Match_0@, vx_out1@ =~= it.seq().take(it.index@ as int), it.index@ == it.seq().len() ==> vx_out1@ =~= p0->Match_0@,
@loop 1 it
    invariant it.seq() == q0->Match_0@, vx_out1@ =~= p0->Match_0@ + it.seq().take(it.index@ as int), it.index@ == it.seq().len() ==> vx_out1@ =~= p0->Match_0@ + q0->Match_0@,
@loop 2 it
    invariant it.seq() == p0->MatchAll_0@, vx_out4@ =~= it.seq().take(it.index@ as int),
@loop 3 it
    invariant it.seq() == q0->MatchAll_0@, vx_out4@ =~= p0->MatchAll_0@ + it.seq().take(it.index@ as int),
@loop 4 it
    invariant
        lawful_clone::<Symbol>(), it.seq() == q0->MatchAll_0@, result@.len() == 1 + it.index@, result@[0] == p0,
        forall|j: int| 0 <= j < it.index@ ==> alike(result@[1 + j], #[trigger] it.seq()[j]),
@end
    proof {
        assert(pattern.becomes(q0));
        if p0 is Match && q0 is Match { literals(p0, q0, vx_r); }
        else if p0 is MatchAll && q0 is MatchAll { sequences(p0, p0->MatchAll_0, p0->MatchAll_0@.len(), q0, q0->MatchAll_0, q0->MatchAll_0@.len(), vx_r); }
        else if p0 is MatchAll { and_one_more(p0, p0->MatchAll_0, p0->MatchAll_0@.len(), q0, vx_r); }
        else if q0 is MatchAll { one_before(p0, q0, vx_r); }
        else { one_and_one(p0, q0, vx_r); }
    }
@@ fn PatternCombiner for Pattern::or
@ret r
@after let second_pattern
    let ghost p0 = first_pattern;
    let ghost q0 = second_pattern;
@loop 0 it
    invariant it.seq() == p0->MatchAny_0@, vx_out1@ =~= it.seq().take(it.index@ as int), it.index@ == it.seq().len() ==> vx_out1@ =~= p0->MatchAny_0@,
@loop 1 it
    invariant it.seq() == q0->MatchAny_0@, vx_out1@ =~= p0->MatchAny_0@ + it.seq().take(it.index@ as int), it.index@ == it.seq().len() ==> vx_out1@ =~= p0->MatchAny_0@ + q0->MatchAny_0@,
@end
    proof {
        assert(pattern.becomes(q0));
        if p0 is MatchAny && q0 is MatchAny { alternatives(p0, q0, vx_r); }
        else { either_one(p0, q0, vx_r); }
    }
