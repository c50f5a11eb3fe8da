@@ prelude
use vstd::std_specs::cmp::*;

@@ items trait MatchingState
    /// what the matcher reports if these symbols are all that is still to come
    spec fn answer(&self, rest: Seq<InputSymbol>) -> Option<(int, OutputSymbol)>;
    /// symbols read so far
    spec fn seen(&self) -> int;
    spec fn ms_ok(&self) -> bool;

@@ fn trait MatchingState::next
@ret r
@spec
    requires self.ms_ok(), self.seen() < usize::MAX,
    ensures
        match r {
            MatchAction::Reject => forall|w: Seq<InputSymbol>| #[trigger] self.answer(seq![symbol] + w) is None,
            MatchAction::Accept(n, o) => n <= self.seen() && forall|w: Seq<InputSymbol>| #[trigger] self.answer(seq![symbol] + w) == Some((n as int, *o)),
            MatchAction::More(s) => s.ms_ok() && s.seen() == self.seen() + 1 && forall|w: Seq<InputSymbol>| #[trigger] self.answer(seq![symbol] + w) == s.answer(w),
        },
@@ fn trait MatchingState::finish
@ret r
@spec
    requires self.ms_ok(),
    ensures
        match r {
            MatchAction::Reject => self.answer(seq![]) is None,
            MatchAction::Accept(n, o) => n <= self.seen() && self.answer(seq![]) == Some((n as int, *o)),
            MatchAction::More(s) => false,
        },

@@ fn MatchAction::is_accepted
@ret r
@spec
    requires OutputSymbol::obeys_eq_spec(),
    ensures r == (match self { MatchAction::Accept(_, o) => (*o).eq_spec(symbol), _ => false }),
