@@ prelude
/// what a state machine is: its states 0..n, its labelled transitions, its joins and the outputs set on its states
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(O)]
pub struct Graph<I, O> {
    pub n: int,
    pub edges: ISet<(StateId, I, StateId)>,
    pub joins: ISet<(StateId, StateId)>,
    pub outs: IMap<StateId, O>,
}
impl<I, O> Graph<I, O> {
    /// b is reached from a by following k joins
    pub open spec fn hops(self, a: StateId, b: StateId, k: nat) -> bool
        decreases k
    {
        if k == 0 { a == b } else { exists|m: StateId| #[trigger] self.joins.contains((a, m)) && self.hops(m, b, (k - 1) as nat) }
    }
    pub open spec fn joined(self, a: StateId, b: StateId) -> bool { exists|k: nat| self.hops(a, b, k) }
    /// the transitions of a state: its own and those of every state it is joined to
    pub open spec fn moves(self, s: StateId, x: I, t: StateId) -> bool { exists|m: StateId| #[trigger] self.joined(s, m) && self.edges.contains((m, x, t)) }
    /// the outputs of a state: its own and those of every state it is joined to
    pub open spec fn gives(self, s: StateId, o: O) -> bool { exists|m: StateId| #[trigger] self.joined(s, m) && self.outs.contains_pair(m, o) }
    /// every state mentioned is one of 0..n
    pub open spec fn closed(self) -> bool {
        &&& self.n >= 1
        &&& forall|a: StateId, x: I, b: StateId| #[trigger] self.edges.contains((a, x, b)) ==> a < self.n && b < self.n
        &&& forall|a: StateId, b: StateId| #[trigger] self.joins.contains((a, b)) ==> a < self.n && b < self.n
        &&& forall|a: StateId| #[trigger] self.outs.dom().contains(a) ==> a < self.n
    }
}
pub proof fn joined_self<I, O>(g: Graph<I, O>, s: StateId)
    ensures g.joined(s, s),
{ assert(g.hops(s, s, 0)); }
pub proof fn no_joins<I, O>(g: Graph<I, O>, s: StateId, m: StateId)
    requires g.joins == ISet::<(StateId, StateId)>::empty(),
    ensures g.joined(s, m) <==> s == m,
{
    joined_self(g, s);
    if g.joined(s, m) { let k = choose|k: nat| g.hops(s, m, k); if k > 0 { let x = choose|x: StateId| #[trigger] g.joins.contains((s, x)) && g.hops(x, m, (k - 1) as nat); assert(false); } }
}
pub open spec fn top(n: int, s: StateId) -> int { if n > s { n } else { s + 1 } }

@@ items trait StateMachine
    spec fn graph(&self) -> Graph<InputSymbol, OutputSymbol>;
    spec fn sm_ok(&self) -> bool;

@@ fn trait StateMachine::count_states
@ret r
@spec
    requires self.sm_ok(),
    ensures r == self.graph().n,
@@ fn trait StateMachine::get_transitions_for_state
@ret r
@spec
    requires self.sm_ok(), state < self.graph().n,
    ensures forall|x: InputSymbol, t: StateId| #[trigger] r@.contains((x, t)) <==> self.graph().moves(state, x, t),
@@ fn trait StateMachine::output_symbol_for_state
@ret r
@spec
    requires self.sm_ok(), state < self.graph().n,
    ensures
        r is None ==> forall|o: OutputSymbol| !self.graph().gives(state, o),
        r is Some ==> self.graph().gives(state, *r.unwrap()),
@@ fn trait StateMachine::output_symbols_for_state
@flag inherit
@ret r
@spec
    requires self.sm_ok(), state < self.graph().n,
    ensures
        forall|i: int| 0 <= i < r@.len() ==> self.graph().gives(state, *#[trigger] r@[i]),
        forall|o: OutputSymbol| self.graph().gives(state, o) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == o,

@@ fn trait MutableStateMachine::add_transition
@spec
    requires old(self).sm_ok(), state < StateId::MAX, new_state < StateId::MAX,
    ensures
        final(self).sm_ok(),
        final(self).graph() == (Graph { n: top(top(old(self).graph().n, state), new_state), edges: old(self).graph().edges.insert((state, for_symbol, new_state)), ..old(self).graph() }),
@@ fn trait MutableStateMachine::create_state
@spec
    requires old(self).sm_ok(), state < StateId::MAX,
    ensures final(self).sm_ok(), final(self).graph() == (Graph { n: top(old(self).graph().n, state), ..old(self).graph() }),
@@ fn trait MutableStateMachine::set_output_symbol
@spec
    requires old(self).sm_ok(), state < StateId::MAX,
    ensures
        final(self).sm_ok(),
        final(self).graph() == (Graph { n: top(old(self).graph().n, state), outs: old(self).graph().outs.insert(state, new_output_symbol), ..old(self).graph() }),
@@ fn trait MutableStateMachine::join_states
@spec
    requires old(self).sm_ok(), first_state < StateId::MAX, second_state < StateId::MAX,
    ensures
        final(self).sm_ok(),
        final(self).graph() == (Graph { n: top(top(old(self).graph().n, first_state), second_state), joins: old(self).graph().joins.insert((first_state, second_state)), ..old(self).graph() }),

@@ items StateMachine for Rc
    open spec fn graph(&self) -> Graph<InputSymbol, OutputSymbol> { (**self).graph() }
    open spec fn sm_ok(&self) -> bool { (**self).sm_ok() }
@@ items StateMachine for Box
    open spec fn graph(&self) -> Graph<InputSymbol, OutputSymbol> { (**self).graph() }
    open spec fn sm_ok(&self) -> bool { (**self).sm_ok() }

@@ items trait ToNdfa
    /// g is a machine for this, with the output
    spec fn machine<O>(&self, output: O, g: Graph<InputSymbol, O>) -> bool;
    spec fn ndfa_ok(&self) -> bool;
@@ fn trait ToNdfa::to_ndfa
@ret r
@spec
    requires self.ndfa_ok(),
    ensures r.sm_ok(), self.machine(output, r.graph()),
