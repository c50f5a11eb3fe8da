@@ prelude
use vstd::std_specs::cmp::*;

/// the set of symbols a range denotes
pub open spec fn in_range<S: Ord>(r: SymbolRange<S>, x: S) -> bool { le(r.lowest, x) && le(x, r.highest) }
pub open spec fn nonempty<S: Ord>(r: SymbolRange<S>) -> bool { le(r.lowest, r.highest) }
pub open spec fn share<S: Ord>(a: SymbolRange<S>, b: SymbolRange<S>) -> bool { exists|x: S| in_range(a, x) && in_range(b, x) }
pub open spec fn touches<S: Ord>(a: SymbolRange<S>, b: SymbolRange<S>) -> bool { le(a.lowest, b.highest) && le(b.lowest, a.highest) }

pub open spec fn range_cmp<S: Ord>(a: SymbolRange<S>, b: SymbolRange<S>) -> Ordering {
    if a.lowest.cmp_spec(&b.lowest) == Ordering::Equal { a.highest.cmp_spec(&b.highest) } else { a.lowest.cmp_spec(&b.lowest) }
}

/// two intervals share a symbol exactly when neither ends before the other starts
pub proof fn share_iff_touches<S: Ord>(a: SymbolRange<S>, b: SymbolRange<S>)
    requires lawful_ord::<S>(), nonempty(a), nonempty(b),
    ensures share(a, b) <==> touches(a, b), share(a, b) <==> share(b, a),
{
    assert(a.lowest.cmp_spec(&a.lowest) == Ordering::Equal);
    assert(b.lowest.cmp_spec(&b.lowest) == Ordering::Equal);
    if touches(a, b) {
        if le(a.lowest, b.lowest) { assert(in_range(a, b.lowest) && in_range(b, b.lowest)); }
        else { assert(le(b.lowest, a.lowest)); assert(in_range(a, a.lowest) && in_range(b, a.lowest)); }
    }
    if share(a, b) {
        let x = choose|x: S| in_range(a, x) && in_range(b, x);
        assert(le(a.lowest, x) && le(x, b.highest));
        assert(le(b.lowest, x) && le(x, a.highest));
    }
    if share(b, a) {
        let x = choose|x: S| in_range(b, x) && in_range(a, x);
        assert(le(a.lowest, x) && le(x, b.highest));
        assert(le(b.lowest, x) && le(x, a.highest));
        assert(share(a, b));
    }
    if share(a, b) { let x = choose|x: S| in_range(a, x) && in_range(b, x); assert(in_range(b, x) && in_range(a, x)); }
}

/// ranges over a lawful symbol type are themselves lawfully ordered
pub proof fn lawful_ranges<S: Ord>()
    requires lawful_ord::<S>(),
    ensures lawful_ord::<SymbolRange<S>>(),
{
    assert forall|a: SymbolRange<S>, b: SymbolRange<S>, c: SymbolRange<S>| range_cmp(a, b) != Ordering::Greater && range_cmp(b, c) != Ordering::Greater
        implies range_cmp(a, c) != Ordering::Greater by {
        let (x, y, z) = (a.lowest, b.lowest, c.lowest);
        assert(ocmp(x, y) != Ordering::Greater && ocmp(y, z) != Ordering::Greater);
        assert(ocmp(x, z) != Ordering::Greater);
        if ocmp(x, z) == Ordering::Equal {
            assert(x == z);
            assert(ocmp(y, x) != Ordering::Greater);
            assert(ocmp(x, y) != Ordering::Greater);
            assert(x == y);
            assert(ocmp(a.highest, b.highest) != Ordering::Greater && ocmp(b.highest, c.highest) != Ordering::Greater);
        }
    }
}
pub proof fn lawful_range_clone<S: Ord + Clone>()
    requires lawful_clone::<S>(),
    ensures lawful_clone::<SymbolRange<S>>(),
{ }

impl<Symbol: Ord + PartialEq> PartialEqSpecImpl for SymbolRange<Symbol> {
    open spec fn obeys_eq_spec() -> bool { Symbol::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.lowest.eq_spec(&o.lowest) && self.highest.eq_spec(&o.highest) }
}
impl<Symbol: Ord> OrdSpecImpl for SymbolRange<Symbol> {
    open spec fn obeys_cmp_spec() -> bool { Symbol::obeys_cmp_spec() }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { range_cmp(*self, *o) }
}
impl<Symbol: Ord> PartialOrdSpecImpl for SymbolRange<Symbol> {
    open spec fn obeys_partial_cmp_spec() -> bool { Symbol::obeys_cmp_spec() }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(range_cmp(*self, *o)) }
}

@@ fn Clone for SymbolRange::clone
@ret r
@spec
    ensures lawful_clone::<Symbol>() ==> r == *self,

@@ fn Ord for SymbolRange::cmp
@ret r
@spec
    ensures Symbol::obeys_cmp_spec() ==> r == range_cmp(*self, *other),

@@ fn SymbolRange::new
@ret r
@spec
    requires lawful_ord::<Symbol>(), le(lowest, highest),
    ensures r.lowest == lowest, r.highest == highest,
@variant refuses
@flag may_panic
@ret r
@spec
    requires lawful_ord::<Symbol>(),
    ensures le(lowest, highest),

@@ fn SymbolRange::overlaps
@ret r
@spec
    requires lawful_ord::<Symbol>(),
    ensures r == touches(*self, *with),
            nonempty(*self) && nonempty(*with) ==> r == share(*self, *with),
@start
    proof { if nonempty(*self) && nonempty(*with) { share_iff_touches(*self, *with); } }

@@ fn SymbolRange::includes
@ret r
@spec
    requires lawful_ord::<Symbol>(),
    ensures r == in_range(*self, *symbol),

@@ fn SymbolRange::join
@ret r
@spec
    requires lawful_ord::<Symbol>(), lawful_clone::<Symbol>(),
    ensures
        r.lowest == self.lowest || r.lowest == with.lowest,
        r.highest == self.highest || r.highest == with.highest,
        le(r.lowest, self.lowest), le(r.lowest, with.lowest),
        le(self.highest, r.highest), le(with.highest, r.highest),
