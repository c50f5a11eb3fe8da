@@ prelude symbol_reader
use crate::symbol_reader::*;
@@ prelude
use vstd::std_specs::iter::*;
/// the symbols before the first end marker
pub open spec fn before_end<S>(b: Seq<Option<S>>) -> Seq<S>
    decreases b.len()
{
    if b.len() == 0 || b[0] is None { seq![] } else { seq![b[0].unwrap()] + before_end(b.drop_first()) }
}
pub open spec fn ends<S>(b: Seq<Option<S>>) -> bool { exists|i: int| 0 <= i < b.len() && b[i] is None }
/// what is still to come for someone who has the given symbols waiting, ahead of the source
pub open spec fn upcoming<S>(b: Seq<Option<S>>, rest: Seq<S>) -> Seq<S> {
    if ends(b) { before_end(b) } else { before_end(b) + rest }
}
pub open spec fn dropped(p: usize) -> bool { p == usize::MAX }

impl<'a, Symbol: Clone> SplitSymbolReaderBuffer<'a, Symbol> {
    /// what reader k has yet to read
    pub open spec fn up(&self, k: int) -> Seq<Symbol> {
        upcoming(self.buffer@.skip(self.positions@[k] as int), (*self.symbol_reader).rest())
    }
    pub open spec fn live(&self, k: int) -> bool { 0 <= k < self.positions@.len() && !dropped(self.positions@[k]) }
    pub open spec fn usable(&self) -> bool {
        &&& lawful_clone::<Symbol>()
        &&& (*self.symbol_reader).rd_ok() && (*self.symbol_reader).lasting()
        &&& self.buffer@.len() < usize::MAX - 1
        &&& forall|k: int| #[trigger] self.live(k) ==> self.positions@[k] <= self.buffer@.len()
    }
}
pub proof fn upcoming_first<S>(b: Seq<Option<S>>, rest: Seq<S>)
    requires b.len() > 0,
    ensures
        b[0] is None ==> upcoming(b, rest).len() == 0,
        b[0] is Some ==> upcoming(b, rest).len() > 0 && upcoming(b, rest)[0] == b[0].unwrap() && upcoming(b.drop_first(), rest) == upcoming(b, rest).drop_first(),
{
    if b[0] is Some {
        let t = b.drop_first();
        if ends(b) { let i = choose|i: int| 0 <= i < b.len() && b[i] is None; assert(t[i - 1] is None); }
        if ends(t) { let i = choose|i: int| 0 <= i < t.len() && t[i] is None; assert(b[i + 1] is None); }
        assert(upcoming(t, rest) =~= upcoming(b, rest).drop_first());
    }
}
/// appending what the source delivered changes nothing for those who have yet to read it
pub proof fn upcoming_push<S>(b: Seq<Option<S>>, rest: Seq<S>, x: Option<S>, rest1: Seq<S>)
    requires
        rest.len() == 0 ==> x is None,
        rest.len() > 0 ==> x == Some(rest[0]) && rest1 == rest.drop_first(),
    ensures upcoming(b.push(x), rest1) == upcoming(b, rest),
    decreases b.len(),
{
    let b1 = b.push(x);
    if b.len() == 0 {
        assert(b1.drop_first() =~= seq![]);
        reveal_with_fuel(before_end, 3);
        if x is None { assert(b1[0] is None); }
        assert(upcoming(b1, rest1) =~= upcoming(b, rest));
    } else {
        upcoming_first(b, rest);
        upcoming_first(b1, rest1);
        if b[0] is Some {
            upcoming_push(b.drop_first(), rest, x, rest1);
            assert(b1.drop_first() =~= b.drop_first().push(x));
            let (u, u1) = (upcoming(b, rest), upcoming(b1, rest1));
            assert(u =~= seq![u[0]] + u.drop_first());
            assert(u1 =~= seq![u1[0]] + u1.drop_first());
        } else { assert(upcoming(b1, rest1) =~= upcoming(b, rest)); }
    }
}

/// reader id takes one symbol out of the buffer, after the source has filled it if need be
pub open spec fn took<'a, S: Clone>(a: SplitSymbolReaderBuffer<'a, S>, b: SplitSymbolReaderBuffer<'a, S>, id: int, r: Option<S>) -> bool {
    let p = a.positions@[id];
    &&& b.positions@ == a.positions@.update(id, (p + 1) as usize)
    &&& if p < a.buffer@.len() {
            b.buffer@ == a.buffer@ && r == a.buffer@[p as int] && (*b.symbol_reader).rest() == (*a.symbol_reader).rest()
        } else {
            let (rest, rest1) = ((*a.symbol_reader).rest(), (*b.symbol_reader).rest());
            &&& b.buffer@ == a.buffer@.push(r)
            &&& rest.len() == 0 ==> r is None
            &&& rest.len() > 0 ==> r == Some(rest[0]) && rest1 == rest.drop_first()
        }
}
pub proof fn read_step<'a, S: Clone>(a: SplitSymbolReaderBuffer<'a, S>, b: SplitSymbolReaderBuffer<'a, S>, id: int, r: Option<S>)
    requires a.usable(), a.live(id), took(a, b, id, r), (*b.symbol_reader).rd_ok(), (*b.symbol_reader).lasting(), a.buffer@.len() < usize::MAX - 2,
    ensures
        b.usable(),
        forall|k: int| a.live(k) == b.live(k),
        a.up(id).len() == 0 ==> r is None,
        a.up(id).len() > 0 ==> r == Some(a.up(id)[0]) && b.up(id) == a.up(id).drop_first(),
        forall|k: int| k != id && #[trigger] a.live(k) ==> b.up(k) == a.up(k),
{
    let p = a.positions@[id] as int;
    let (rest, rest1) = ((*a.symbol_reader).rest(), (*b.symbol_reader).rest());
    assert(a.live(id));
    assert forall|k: int| a.live(k) == b.live(k) by {}
    assert forall|k: int| #[trigger] b.live(k) implies b.positions@[k] <= b.buffer@.len() by { assert(a.live(k)); }
    if p < a.buffer@.len() {
        upcoming_first(a.buffer@.skip(p), rest);
        assert(a.buffer@.skip(p).drop_first() =~= b.buffer@.skip(p + 1));
    } else {
        assert forall|k: int| #[trigger] a.live(k) implies upcoming(b.buffer@.skip(a.positions@[k] as int), rest1) == a.up(k) by {
            assert(b.buffer@.skip(a.positions@[k] as int) =~= a.buffer@.skip(a.positions@[k] as int).push(r));
            upcoming_push(a.buffer@.skip(a.positions@[k] as int), rest, r, rest1);
        }
        assert(upcoming(b.buffer@.skip(p), rest1) == a.up(id));
        upcoming_first(b.buffer@.skip(p), rest1);
        assert(b.buffer@.skip(p).drop_first() =~= b.buffer@.skip(p + 1));
    }
}

/// reader id reads the next symbol, or the end; nobody else is affected
pub open spec fn reads<'a, S: Clone>(a: SplitSymbolReaderBuffer<'a, S>, b: SplitSymbolReaderBuffer<'a, S>, id: int, r: Option<S>) -> bool {
    &&& b.usable()
    &&& b.positions@.len() == a.positions@.len()
    &&& forall|k: int| #[trigger] b.live(k) == a.live(k)
    &&& a.up(id).len() == 0 ==> r is None
    &&& a.up(id).len() > 0 ==> r == Some(a.up(id)[0]) && b.up(id) == a.up(id).drop_first()
    &&& forall|k: int| k != id && #[trigger] a.live(k) ==> b.up(k) == a.up(k)
}
/// reader id goes away; nobody else is affected
pub open spec fn leaves<'a, S: Clone>(a: SplitSymbolReaderBuffer<'a, S>, b: SplitSymbolReaderBuffer<'a, S>, id: int) -> bool {
    &&& b.usable()
    &&& b.positions@.len() == a.positions@.len()
    &&& forall|k: int| #[trigger] b.live(k) == (a.live(k) && k != id)
    &&& forall|k: int| #[trigger] b.live(k) ==> b.up(k) == a.up(k)
}

/// trusted: the shared cell. `born` is what it was created with; `visit` says that someone found it holding `before` and left
/// `after` in it; `holds` that id was live at birth and that no one but its own reader has made it go away
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExRefCell<T: ?Sized>(RefCell<T>);
pub uninterp spec fn born<T>(c: RefCell<T>) -> T;
pub uninterp spec fn visit<T>(c: RefCell<T>, before: T, after: T) -> bool;
pub uninterp spec fn holds<T>(c: RefCell<T>, id: int) -> bool;
pub assume_specification<T> [ RefCell::<T>::new ](t: T) -> (r: RefCell<T>)
    ensures born(r) == t;
/// every visit leaves the buffer usable and every other reader live (`reads`, `leaves`), so every visit finds it so
#[verifier::external_body]
pub fn vx_borrow<'b, 'a, Symbol: Clone>(c: &'b Rc<RefCell<SplitSymbolReaderBuffer<'a, Symbol>>>) -> (r: &'b mut SplitSymbolReaderBuffer<'a, Symbol>)
    ensures visit(**c, *r, *final(r)), (*r).usable(), (*r).buffer@.len() < usize::MAX - 2, forall|id: int| holds(**c, id) ==> (*r).live(id),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_unsize<'b, S, R: SymbolReader<S>>(r: &'b mut R) -> (d: &'b mut dyn SymbolReader<S>)
    ensures (*d).rest() == (*old(r)).rest(), (*d).rd_ok() == (*old(r)).rd_ok(), (*d).lasting() == (*old(r)).lasting(),
{ unimplemented!() }

@@ type SplitSymbolReaderBuffer #[verifier::reject_recursive_types(Symbol)]
@@ type SplitSymbolReader #[verifier::reject_recursive_types(Symbol)]
@@ inherent SymbolReader for SplitSymbolReader
@@ inherent Drop for SplitSymbolReader

@@ fn SplitSymbolReaderBuffer::new
@flag keep_dyn
@ret r
@spec
    requires old(reader).rd_ok(), old(reader).lasting(), lawful_clone::<Symbol>(),
    ensures r.usable(), r.positions@.len() == 0, r.buffer@.len() == 0, (*r.symbol_reader).rest() == old(reader).rest(),

@@ fn SplitSymbolReaderBuffer::clear_buffer
@spec
    requires old(self).usable(),
    ensures
        final(self).usable(),
        final(self).positions@.len() == old(self).positions@.len(),
        (*final(self).symbol_reader).rest() == (*old(self).symbol_reader).rest(),
        forall|k: int| #[trigger] old(self).live(k) ==> final(self).live(k) && final(self).up(k) == old(self).up(k),
        forall|k: int| #[trigger] final(self).live(k) ==> old(self).live(k),
        (exists|k: int| old(self).live(k)) ==> exists|k: int| final(self).live(k) && final(self).positions@[k] == 0,
@rewrite type vx_m1 Option<&usize>
@closure 0 y usize
    ensures y == *x,
@loop 0 it
    invariant
        *self == *old(self),
        it.index@ == 0 ==> vx_m1 is None,
        it.index@ > 0 ==> vx_m1 is Some && exists|k: int| 0 <= k < it.index@ && #[trigger] self.positions@[k] == *vx_m1.unwrap(),
        forall|k: int| 0 <= k < it.index@ ==> *vx_m1.unwrap() <= #[trigger] self.positions@[k],
@loop 0 start
    let ghost m0 = vx_m1;
@loop 0 end
    proof {
        let n = it.index@;
        assert(self.positions@[n] == *vx_x2);
        if m0 is Some && *vx_x2 >= *m0.unwrap() { let k0 = choose|k: int| 0 <= k < n && #[trigger] self.positions@[k] == *m0.unwrap(); assert(self.positions@[k0] == *vx_m1.unwrap()); }
    }
@before loop 1
    proof { assert forall|k: int| #[trigger] old(self).live(k) implies lowest_pos <= old(self).positions@[k] by {} }
    let ghost k0 = choose|k: int| 0 <= k < old(self).positions@.len() && #[trigger] old(self).positions@[k] == lowest_pos;
    proof { assert(old(self).live(k0)); assert(self.buffer@ =~= old(self).buffer@.skip(0)); }
@loop 1 it1
    invariant
        self.positions == old(self).positions, (*self.symbol_reader).rest() == (*old(self).symbol_reader).rest(), (*self.symbol_reader).rd_ok(), (*self.symbol_reader).lasting(),
        lowest_pos <= old(self).buffer@.len(),
        self.buffer@ == old(self).buffer@.skip(it1.index@ as int),
@loop 1 end
    proof { assert(self.buffer@ =~= old(self).buffer@.skip(it1.index@ + 1)); }
@before loop 2
    let ghost p0 = self.positions@;
@loop 2 it2
    invariant
        p0 == old(self).positions@,
        forall|k: int| 0 <= k < p0.len() && !dropped(p0[k]) ==> lowest_pos <= #[trigger] p0[k],
        IteratorSpec::remaining(&it2.snapshot@).len() == p0.len(),
        forall|i: int| 0 <= i < p0.len() ==> *(#[trigger] IteratorSpec::remaining(&it2.snapshot@)[i]) == p0[i],
        forall|i: int| 0 <= i < it2.index@ ==> *final(#[trigger] IteratorSpec::remaining(&it2.snapshot@)[i]) == if dropped(p0[i]) { p0[i] } else { (p0[i] - lowest_pos) as usize },
@after loop 2
    proof {
        assert forall|k: int| #[trigger] old(self).live(k) implies self.live(k) && self.up(k) == old(self).up(k) by {
            assert(self.positions@[k] == old(self).positions@[k] - lowest_pos);
            assert(self.buffer@.skip(self.positions@[k] as int) =~= old(self).buffer@.skip(old(self).positions@[k] as int));
        }
        assert(self.live(k0) && self.positions@[k0] == 0);
        assert forall|k: int| #[trigger] self.live(k) implies self.positions@[k] <= self.buffer@.len() by {
            assert(old(self).live(k));
        }
        assert(lawful_clone::<Symbol>());
        assert((*self.symbol_reader).rd_ok());
    }
@end
    proof {
        if exists|k: int| old(self).live(k) {
            let k = choose|k: int| old(self).live(k);
            assert(old(self).positions@[k] != usize::MAX);
        }
    }

@@ fn SplitSymbolReaderBuffer::read
@ret r
@spec
    requires old(self).usable(), old(self).live(reader_id as int), old(self).buffer@.len() < usize::MAX - 2,
    ensures reads(*old(self), *final(self), reader_id as int, r),
@before if 0
    let ghost mut mid = *self;
@before if 1
    proof { mid = *self; read_step(*old(self), mid, reader_id as int, next_symbol); }
@before if 2
    proof { mid = *self; read_step(*old(self), mid, reader_id as int, next_symbol); }
@end
    proof {
        assert(mid.live(reader_id as int));
        assert forall|k: int| old(self).live(k) implies mid.live(k) by {}
    }

@@ fn SymbolReader for SplitSymbolReader::next_symbol
@ret r
@spec
    requires holds(*old(self).buffer, old(self).reader_id as int),
    ensures
        // one visit of the shared buffer, which reads for this reader and leaves the other alone
        final(self).buffer == old(self).buffer, final(self).reader_id == old(self).reader_id,
        exists|b0: SplitSymbolReaderBuffer<'a, Symbol>, b1: SplitSymbolReaderBuffer<'a, Symbol>| #[trigger] visit(*old(self).buffer, b0, b1)
            && reads(b0, b1, old(self).reader_id as int, r),
@@ fn Drop for SplitSymbolReader::drop
@spec
    requires holds(*old(self).buffer, old(self).reader_id as int),
    ensures
        exists|b0: SplitSymbolReaderBuffer<'a, Symbol>, b1: SplitSymbolReaderBuffer<'a, Symbol>| #[trigger] visit(*old(self).buffer, b0, b1)
            && leaves(b0, b1, old(self).reader_id as int),
@after let buffer_ref
    let ghost b0 = *buffer_ref;
@before call clear_buffer
    let ghost bm = *buffer_ref;
    proof {
        assert forall|k: int| #[trigger] bm.live(k) implies b0.live(k) && k != self.reader_id && bm.positions@[k] == b0.positions@[k] by {}
        assert forall|k: int| #[trigger] bm.live(k) implies bm.up(k) == b0.up(k) by {}
        assert forall|k: int| b0.live(k) && k != self.reader_id implies #[trigger] bm.live(k) by { assert(bm.positions@[k] == b0.positions@[k]); }
    }
@end
    proof {
        let b1 = *buffer_ref;
        assert forall|k: int| #[trigger] b1.live(k) == (b0.live(k) && k != self.reader_id) by { if b1.live(k) { assert(bm.live(k)); } if b0.live(k) && k != self.reader_id { assert(bm.live(k)); } }
        assert forall|k: int| #[trigger] b1.live(k) implies b1.up(k) == b0.up(k) by { assert(bm.live(k)); }
        assert(leaves(b0, b1, self.reader_id as int));
    }
@@ fn SplittableSymbolReader for Reader::split
@rewrite arg SplitSymbolReaderBuffer::new vx_unsize
@@ fn trait SplittableSymbolReader::split
@ret r
@spec
    requires old(self).rd_ok(), old(self).lasting(), lawful_clone::<Symbol>(),
    ensures
        r.0.buffer == r.1.buffer,
        r.0.reader_id != r.1.reader_id,
        born(*r.0.buffer).usable(),
        born(*r.0.buffer).live(r.0.reader_id as int) && born(*r.0.buffer).up(r.0.reader_id as int) == old(self).rest(),
        born(*r.0.buffer).live(r.1.reader_id as int) && born(*r.0.buffer).up(r.1.reader_id as int) == old(self).rest(),
