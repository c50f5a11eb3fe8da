@@ prelude symbol_reader
use crate::symbol_reader::*;
@@ prelude
/// number of slots from a up to b, going round a buffer of n
pub open spec fn cnt(a: int, b: int, n: int) -> int { if a <= b { b - a } else { b + n - a } }
pub open spec fn wrap(i: int, n: int) -> int { if i >= n { i - n } else { i } }
/// the symbols held in the slots from a up to b
#[verifier::opaque]
pub open spec fn seg<S>(buf: Seq<Option<S>>, a: int, b: int) -> Seq<S> {
    Seq::new(cnt(a, b, buf.len() as int) as nat, |i: int| buf[wrap(a + i, buf.len() as int)].unwrap())
}
#[verifier::opaque]
pub open spec fn full<S>(buf: Seq<Option<S>>, a: int, b: int) -> bool {
    forall|i: int| 0 <= i < cnt(a, b, buf.len() as int) ==> (#[trigger] buf[wrap(a + i, buf.len() as int)]) is Some
}
pub broadcast proof fn seg_len<S>(buf: Seq<Option<S>>, a: int, b: int)
    requires 0 <= a <= buf.len(), 0 <= b <= buf.len(),
    ensures #[trigger] seg(buf, a, b).len() == cnt(a, b, buf.len() as int),
{ reveal(seg); }
impl<Symbol: Clone + Sized, SourceReader: SymbolReader<Symbol>> Tape<Symbol, SourceReader> {
    /// symbols that can be rewound over: everything read since the last cut
    pub open spec fn back(&self) -> Seq<Symbol> { seg(self.buffer@, self.first_symbol_index as int, self.read_index as int) }
    /// symbols that were rewound over and are to be read again
    pub open spec fn ahead(&self) -> Seq<Symbol> { seg(self.buffer@, self.read_index as int, self.last_symbol_index as int) }
    /// symbols still to come from the source
    pub open spec fn fresh(&self) -> Seq<Symbol> { if self.end_of_reader { seq![] } else { self.read_from.rest() } }
    /// the buffer is a well-formed ring
    pub open spec fn ring(&self) -> bool {
        let n = self.buffer@.len();
        &&& n >= 2
        &&& self.read_index < n && self.last_symbol_index < n && self.first_symbol_index < n
        &&& cnt(self.first_symbol_index as int, self.read_index as int, n as int) + cnt(self.read_index as int, self.last_symbol_index as int, n as int)
                == cnt(self.first_symbol_index as int, self.last_symbol_index as int, n as int)
        &&& full(self.buffer@, self.first_symbol_index as int, self.last_symbol_index as int)
    }
    pub open spec fn usable(&self) -> bool {
        &&& self.ring()
        &&& self.end_of_reader || self.read_from.rd_ok()
        &&& lawful_clone::<Symbol>()
        &&& self.source_position >= self.back().len()
    }
    /// streams short enough for machine integers: the buffer never needs to be larger than twice the stream
    pub open spec fn small(&self) -> bool {
        &&& self.source_position + self.ahead().len() + self.fresh().len() <= usize::MAX / 8
        &&& self.buffer@.len() <= 4 + 2 * (self.source_position + self.ahead().len() + self.fresh().len())
    }
}
/// when the ring is not full the slot at its end is free, and filling it adds one symbol
pub proof fn ring_push<S>(b0: Seq<Option<S>>, b1: Seq<Option<S>>, f: int, r: int, l: int, l1: int, x: S)
    requires
        b0.len() >= 2, b1 == b0.update(l, Some(x)), 0 <= f < b0.len(), 0 <= r < b0.len(), 0 <= l < b0.len(),
        l1 == wrap(l + 1, b0.len() as int), l1 != f,
        cnt(f, r, b0.len() as int) + cnt(r, l, b0.len() as int) == cnt(f, l, b0.len() as int),
        full(b0, f, l),
    ensures
        full(b1, f, l1), seg(b1, f, r) == seg(b0, f, r), seg(b1, r, l1) == seg(b0, r, l).push(x),
        cnt(f, r, b0.len() as int) + cnt(r, l1, b0.len() as int) == cnt(f, l1, b0.len() as int),
{
    reveal(seg); reveal(full);
    assert(seg(b1, f, r) =~= seg(b0, f, r));
    assert(seg(b1, r, l1) =~= seg(b0, r, l).push(x));
    assert forall|i: int| 0 <= i < cnt(f, l1, b1.len() as int) implies (#[trigger] b1[wrap(f + i, b1.len() as int)]) is Some by {
        if i < cnt(f, l, b0.len() as int) { assert(b0[wrap(f + i, b0.len() as int)] is Some); }
    }
}
/// moving the read position forward by one symbol moves that symbol from `ahead` to `back`
pub proof fn ring_step<S>(b: Seq<Option<S>>, f: int, r: int, l: int)
    requires
        b.len() >= 2, 0 <= f < b.len(), 0 <= r < b.len(), 0 <= l < b.len(), r != l,
        cnt(f, r, b.len() as int) + cnt(r, l, b.len() as int) == cnt(f, l, b.len() as int),
        full(b, f, l),
    ensures ({
        let r1 = wrap(r + 1, b.len() as int);
        &&& b[r] is Some
        &&& seg(b, r, l).len() > 0 && seg(b, r, l)[0] == b[r].unwrap()
        &&& seg(b, f, r1) == seg(b, f, r).push(b[r].unwrap())
        &&& seg(b, r1, l) == seg(b, r, l).drop_first()
        &&& cnt(f, r1, b.len() as int) + cnt(r1, l, b.len() as int) == cnt(f, l, b.len() as int)
    }),
{
    reveal(seg); reveal(full);
    let r1 = wrap(r + 1, b.len() as int);
    assert(wrap(f + cnt(f, r, b.len() as int), b.len() as int) == r);
    assert(b[wrap(f + cnt(f, r, b.len() as int), b.len() as int)] is Some);
    assert(seg(b, f, r1) =~= seg(b, f, r).push(b[r].unwrap()));
    assert(seg(b, r1, l) =~= seg(b, r, l).drop_first());
}
/// moving it back by k moves k symbols the other way
pub proof fn ring_back<S>(b: Seq<Option<S>>, f: int, r: int, l: int, k: int)
    requires
        b.len() >= 2, 0 <= f < b.len(), 0 <= r < b.len(), 0 <= l < b.len(), 0 <= k <= cnt(f, r, b.len() as int),
        cnt(f, r, b.len() as int) + cnt(r, l, b.len() as int) == cnt(f, l, b.len() as int),
    ensures ({
        let r1 = wrap(r + b.len() - k, b.len() as int);
        &&& 0 <= r1 < b.len()
        &&& seg(b, f, r1) == seg(b, f, r).take(seg(b, f, r).len() - k)
        &&& seg(b, r1, l) == seg(b, f, r).skip(seg(b, f, r).len() - k) + seg(b, r, l)
        &&& cnt(f, r1, b.len() as int) + cnt(r1, l, b.len() as int) == cnt(f, l, b.len() as int)
    }),
{
    reveal(seg); reveal(full);
    let r1 = wrap(r + b.len() - k, b.len() as int);
    assert(seg(b, f, r1) =~= seg(b, f, r).take(seg(b, f, r).len() - k));
    assert(seg(b, r1, l) =~= seg(b, f, r).skip(seg(b, f, r).len() - k) + seg(b, r, l));
}

pub proof fn nothing_ahead<S>(a: Seq<S>, fresh: Seq<S>)
    requires a.len() == 0,
    ensures a == Seq::<S>::empty(), a + fresh == fresh,
{ assert(a =~= Seq::<S>::empty()); assert(a + fresh =~= fresh); }
/// the next symbol of the source put into an empty buffer
pub proof fn one_fed<S>(a: Seq<S>, fresh: Seq<S>, x: S, fresh1: Seq<S>)
    requires a.len() == 0, fresh.len() > 0, fresh[0] == x, fresh1 == fresh.drop_first(),
    ensures a.push(x) == seq![x], a.push(x) + fresh1 == a + fresh, a.push(x).len() + fresh1.len() == a.len() + fresh.len(),
{ assert(a.push(x) =~= seq![x]); assert(a.push(x) + fresh1 =~= a + fresh); }
/// a buffered symbol read
pub proof fn one_read<S>(a: Seq<S>, a1: Seq<S>, fresh: Seq<S>, x: S)
    requires a.len() > 0, x == a[0], a1 == a.drop_first(),
    ensures a + fresh == seq![x] + (a1 + fresh), a1.len() + 1 == a.len(),
{ assert(a + fresh =~= seq![x] + (a1 + fresh)); }
pub proof fn wrap_is_mod(l: int, n: int)
    requires 0 <= l < n,
    ensures (l + 1) % n == wrap(l + 1, n),
{
    if l + 1 < n { vstd::arithmetic::div_mod::lemma_small_mod((l + 1) as nat, n as nat); }
    else { vstd::arithmetic::div_mod::lemma_mod_self_0(n); }
}

@@ fn Tape::new
@ret r
@spec
    requires source.rd_ok(), lawful_clone::<Symbol>(),
    ensures
        r.usable(), r.back() == Seq::<Symbol>::empty(), r.ahead() == Seq::<Symbol>::empty(), r.fresh() == source.rest(), r.source_position == 0,
        source.rest().len() <= usize::MAX / 8 ==> r.small(),
@end
    proof {
        reveal(seg); reveal(full); assert(vx_r.back() =~= Seq::<Symbol>::empty()); assert(vx_r.ahead() =~= Seq::<Symbol>::empty()); }

@@ fn Tape::resize
@spec
    requires old(self).ring(), lawful_clone::<Symbol>(), old(self).buffer@.len() <= usize::MAX / 2,
    ensures
        final(self).ring(), final(self).back() == old(self).back(), final(self).ahead() == old(self).ahead(),
        final(self).buffer@.len() == 2 * old(self).buffer@.len(),
        final(self).read_from == old(self).read_from, final(self).end_of_reader == old(self).end_of_reader, final(self).source_position == old(self).source_position,
        wrap(final(self).last_symbol_index + 1, final(self).buffer@.len() as int) != final(self).first_symbol_index,
@start
    proof { reveal(seg); reveal(full); }
@loop 0
    invariant
        *self == *old(self), self.ring(), lawful_clone::<Symbol>(), self.buffer@.len() <= usize::MAX / 2,
        new_buffer@.len() <= cnt(self.first_symbol_index as int, self.last_symbol_index as int, self.buffer@.len() as int),
        copy_index == wrap(self.first_symbol_index + new_buffer@.len(), self.buffer@.len() as int),
        forall|i: int| 0 <= i < new_buffer@.len() ==> #[trigger] new_buffer@[i] == self.buffer@[wrap(self.first_symbol_index + i, self.buffer@.len() as int)],
        new_buffer@.len() >= cnt(self.first_symbol_index as int, self.read_index as int, self.buffer@.len() as int)
            ==> new_read_index == cnt(self.first_symbol_index as int, self.read_index as int, self.buffer@.len() as int),
        new_read_index <= new_buffer@.len(),
    ensures
        new_buffer@.len() == cnt(self.first_symbol_index as int, self.last_symbol_index as int, self.buffer@.len() as int),
    decreases cnt(self.first_symbol_index as int, self.last_symbol_index as int, self.buffer@.len() as int) - new_buffer@.len(),
@loop 0 start
    proof { reveal(seg); reveal(full); assert(self.buffer@[wrap(self.first_symbol_index + new_buffer@.len(), self.buffer@.len() as int)] is Some); }
@before loop 1
    let ghost held = new_buffer@;
@loop 1 it
    invariant
        *self == *old(self), self.ring(), new_size == 2 * self.buffer@.len(), new_last_symbol_index == held.len(), held.len() < self.buffer@.len(),
        new_buffer@.len() == held.len() + it.index@,
        forall|i: int| 0 <= i < held.len() ==> #[trigger] new_buffer@[i] == held[i],
@end
    proof {
        reveal(seg); reveal(full);
        let (f, r, l, n) = (old(self).first_symbol_index as int, old(self).read_index as int, old(self).last_symbol_index as int, old(self).buffer@.len() as int);
        assert(seg(self.buffer@, 0, new_read_index as int) =~= seg(old(self).buffer@, f, r));
        assert(seg(self.buffer@, new_read_index as int, new_last_symbol_index as int) =~= seg(old(self).buffer@, r, l));
        assert forall|i: int| 0 <= i < held.len() implies (#[trigger] self.buffer@[wrap(0 + i, self.buffer@.len() as int)]) is Some by {
            assert(old(self).buffer@[wrap(f + i, n)] is Some);
            assert(self.buffer@[i] == held[i]);
        }
    }

@@ fn Tape::cut
@spec
    requires old(self).ring(),
    ensures
        final(self).ring(), final(self).back() == Seq::<Symbol>::empty(), final(self).ahead() == old(self).ahead(), final(self).fresh() == old(self).fresh(),
        final(self).source_position == old(self).source_position,
        final(self).read_from == old(self).read_from, final(self).end_of_reader == old(self).end_of_reader, final(self).buffer == old(self).buffer,
@end
    proof {
        reveal(seg); reveal(full);
        assert(self.back() =~= Seq::<Symbol>::empty());
        let (f, r, l, n) = (old(self).first_symbol_index as int, old(self).read_index as int, old(self).last_symbol_index as int, old(self).buffer@.len() as int);
        assert forall|i: int| 0 <= i < cnt(r, l, n) implies (#[trigger] self.buffer@[wrap(r + i, n)]) is Some by {
            assert(old(self).buffer@[wrap(f + (cnt(f, r, n) + i), n)] is Some);
        }
    }

@@ fn Tape::buffer_size
@ret r
@spec
    requires old(self).ring(), old(self).buffer@.len() <= usize::MAX / 2,
    ensures r == old(self).back().len() + old(self).ahead().len(), *final(self) == *old(self),
@start
    proof { reveal(seg); reveal(full); }

@@ fn Tape::rewind
@spec
    requires
        old(self).ring(), old(self).buffer@.len() <= usize::MAX / 2, old(self).source_position >= old(self).back().len(),
        num_symbols <= old(self).back().len(),
    ensures
        final(self).ring(),
        final(self).back() == old(self).back().take(old(self).back().len() - num_symbols),
        final(self).ahead() == old(self).back().skip(old(self).back().len() - num_symbols) + old(self).ahead(),
        final(self).fresh() == old(self).fresh(),
        final(self).source_position == old(self).source_position - num_symbols,
        final(self).read_from == old(self).read_from, final(self).end_of_reader == old(self).end_of_reader, final(self).buffer == old(self).buffer,
@start
    broadcast use seg_len;
    proof { ring_back(self.buffer@, self.first_symbol_index as int, self.read_index as int, self.last_symbol_index as int, num_symbols as int); }
@variant refuses
@flag may_panic
@start
    broadcast use seg_len;
@spec
    requires old(self).ring(), old(self).buffer@.len() <= usize::MAX / 2, old(self).source_position >= old(self).back().len(),
    ensures num_symbols <= old(self).back().len(),

@@ fn Tape::get_source_position
@ret r
@spec
    ensures r == self.source_position,
@@ fn Tape::at_end_of_reader
@ret r
@spec
    requires self.ring(),
    ensures r == (self.end_of_reader && self.ahead().len() == 0), r ==> self.ahead() + self.fresh() == Seq::<Symbol>::empty(),
@end
    proof {
        reveal(seg); reveal(full); if vx_r { assert(self.ahead() + self.fresh() =~= Seq::<Symbol>::empty()); } }

@@ items SymbolReader for Tape
    open spec fn hist(&self) -> Option<Hist<Symbol>> { Some(Hist { pos: self.source_position as int, back: self.back(), ended: self.end_of_reader }) }
    open spec fn rest(&self) -> Seq<Symbol> { self.ahead() + self.fresh() }
    open spec fn rd_ok(&self) -> bool { self.usable() && self.small() }
    open spec fn lasting(&self) -> bool { true }
@@ fn SymbolReader for Tape::next_symbol
@attr #[verifier::spinoff_prover]
@ret r
@spec
    ensures
        r is None ==> final(self).back() == old(self).back() && final(self).rest() == Seq::<Symbol>::empty() && final(self).source_position == old(self).source_position
            && final(self).end_of_reader && final(self).ahead() == old(self).ahead() && final(self).ahead() == Seq::<Symbol>::empty(),
        r is Some ==> final(self).back() == old(self).back().push(r.unwrap()) && final(self).source_position == old(self).source_position + 1
            && old(self).rest() == seq![r.unwrap()] + final(self).rest(),
@start
    proof {
        seg_len(self.buffer@, self.first_symbol_index as int, self.read_index as int);
        seg_len(self.buffer@, self.read_index as int, self.last_symbol_index as int);
        wrap_is_mod(self.last_symbol_index as int, self.buffer@.len() as int);
        if self.ahead().len() == 0 { nothing_ahead(self.ahead(), self.fresh()); }
    }
@after let maybe_symbol
    proof { if maybe_symbol is Some { one_fed(old(self).ahead(), old(self).fresh(), maybe_symbol.unwrap(), self.read_from.rest()); } }
    let ghost mut mid = *self;
    proof { wrap_is_mod(self.last_symbol_index as int, self.buffer@.len() as int); }
@then 2 end
    proof { mid = *self; seg_len(self.buffer@, self.read_index as int, self.last_symbol_index as int); }
@arm 1 end
    proof { ring_push(mid.buffer@, self.buffer@, mid.first_symbol_index as int, mid.read_index as int, mid.last_symbol_index as int, self.last_symbol_index as int, maybe_symbol.unwrap()); }
@before let result
    let ghost pre = *self;
    proof { ring_step(self.buffer@, self.first_symbol_index as int, self.read_index as int, self.last_symbol_index as int); }
@before return 0
    proof { advanced_step(old(self).hist(), old(self).rest(), self.hist(), self.rest(), None); }
@before return 1
    proof { nothing_ahead(self.ahead(), self.fresh()); advanced_step(old(self).hist(), old(self).rest(), self.hist(), self.rest(), None); }
@end
    proof {
        one_read(pre.ahead(), self.ahead(), self.fresh(), vx_r.unwrap());
        advanced_step(old(self).hist(), old(self).rest(), self.hist(), self.rest(), vx_r);
    }
