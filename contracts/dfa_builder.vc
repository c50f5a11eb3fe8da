@@ prelude state_machine
use crate::state_machine::*;
@@ prelude
/// one declared state: its transitions in the order they were declared, and its output
#[verifier::accept_recursive_types(I)]
#[verifier::accept_recursive_types(O)]
pub struct DState<I, O> { pub row: Seq<(I, StateId)>, pub out: Option<O> }
/// the last declared state gets one more transition, or an output
pub open spec fn more<I, O>(d: Seq<DState<I, O>>, x: I, t: StateId) -> Seq<DState<I, O>> {
    d.drop_last().push(DState { row: d.last().row.push((x, t)), out: d.last().out })
}
pub open spec fn with_out<I, O>(d: Seq<DState<I, O>>, o: O) -> Seq<DState<I, O>> {
    d.drop_last().push(DState { row: d.last().row, out: Some(o) })
}
pub open spec fn blank<I, O>() -> DState<I, O> { DState { row: seq![], out: None } }

@@ items trait DfaBuilder
    /// the builder was told to build d
    spec fn models(&self, d: Seq<DState<InputSymbol, OutputSymbol>>) -> bool;
    /// what the builder demands of the transitions of a state
    spec fn row_ok(row: Seq<(InputSymbol, StateId)>) -> bool;
    /// r is the machine d describes
    spec fn built(r: DfaType, d: Seq<DState<InputSymbol, OutputSymbol>>) -> bool;

@@ fn trait DfaBuilder::start_state
@spec
    requires exists|d: Seq<DState<InputSymbol, OutputSymbol>>| old(self).models(d),
    ensures forall|d: Seq<DState<InputSymbol, OutputSymbol>>| #[trigger] old(self).models(d) ==> final(self).models(d.push(blank())),
@@ fn trait DfaBuilder::transition
@spec
    requires exists|d: Seq<DState<InputSymbol, OutputSymbol>>| #[trigger] old(self).models(d) && d.len() > 0 && Self::row_ok(d.last().row.push((symbol, target_state))),
    ensures forall|d: Seq<DState<InputSymbol, OutputSymbol>>| #[trigger] old(self).models(d) && d.len() > 0 ==> final(self).models(more(d, symbol, target_state)),
@@ fn trait DfaBuilder::accept
@spec
    requires exists|d: Seq<DState<InputSymbol, OutputSymbol>>| old(self).models(d) && d.len() > 0,
    ensures forall|d: Seq<DState<InputSymbol, OutputSymbol>>| #[trigger] old(self).models(d) && d.len() > 0 ==> final(self).models(with_out(d, symbol)),
@@ fn trait DfaBuilder::build
@ret r
@spec
    requires exists|d: Seq<DState<InputSymbol, OutputSymbol>>| self.models(d),
    ensures forall|d: Seq<DState<InputSymbol, OutputSymbol>>| #[trigger] self.models(d) ==> Self::built(r, d),
