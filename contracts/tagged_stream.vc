@@ prelude countable
use crate::countable::*;
@@ prelude symbol_reader
use crate::symbol_reader::*;
@@ prelude tokenizer
use crate::tokenizer::*;
@@ prelude symbol_range_dfa
use crate::symbol_range_dfa::*;
@@ prelude
/// trusted: a vector is what it holds
pub axiom fn axiom_vec<T>(a: Vec<T>, b: Vec<T>)
    requires a@ == b@,
    ensures a == b;
/// x is the given content under the given tag
pub open spec fn is_tag<Base: Clone + Ord, Tag: Clone + Ord>(x: TagSymbol<Base, Tag>, tag: Tag, content: Seq<TagSymbol<Base, Tag>>) -> bool {
    x is Tagged && x->Tagged_0 == tag && x->Tagged_1.data@ == content
}
/// the symbols, untagged
pub open spec fn untagged<Base: Clone + Ord, Tag: Clone + Ord>(data: Seq<TagSymbol<Base, Tag>>, s: Seq<Base>) -> bool {
    data.len() == s.len() && forall|i: int| 0 <= i < data.len() ==> #[trigger] data[i] == TagSymbol::<Base, Tag>::Untagged(s[i])
}
/// where the untouched part after the tags starts
pub open spec fn last_end<Tag>(tags: Seq<(Range<usize>, Tag)>) -> int { if tags.len() == 0 { 0 } else { tags.last().0.end as int } }
/// ascending, not overlapping, within the stream
pub open spec fn sorted_tags<Tag>(tags: Seq<(Range<usize>, Tag)>, len: int) -> bool {
    &&& forall|i: int| 0 <= i < tags.len() ==> (#[trigger] tags[i]).0.start <= tags[i].0.end && tags[i].0.end <= len && last_end(tags.take(i)) <= tags[i].0.start
}
/// res is the data up to the end of the last tag, with each tag's range replaced by the tag
pub open spec fn tags_cover<Base: Clone + Ord, Tag: Clone + Ord>(data: Seq<TagSymbol<Base, Tag>>, tags: Seq<(Range<usize>, Tag)>, res: Seq<TagSymbol<Base, Tag>>) -> bool
    decreases tags.len()
{
    if tags.len() == 0 { res.len() == 0 } else {
        let (from, t) = (last_end(tags.drop_last()), tags.last());
        let at = res.len() - 1 - (t.0.start - from);
        &&& 0 <= at < res.len()
        &&& is_tag(res.last(), t.1, data.subrange(t.0.start as int, t.0.end as int))
        &&& res.subrange(at, res.len() - 1) == data.subrange(from, t.0.start as int)
        &&& tags_cover(data, tags.drop_last(), res.take(at))
    }
}
pub open spec fn retagged<Base: Clone + Ord, Tag: Clone + Ord>(data: Seq<TagSymbol<Base, Tag>>, tags: Seq<(Range<usize>, Tag)>, res: Seq<TagSymbol<Base, Tag>>) -> bool {
    let tail = data.skip(last_end(tags));
    &&& res.len() >= tail.len()
    &&& tags_cover(data, tags, res.take(res.len() - tail.len()))
    &&& res.skip(res.len() - tail.len()) == tail
}

impl<Base: Clone + Ord, Tag: Clone + Ord> vstd::std_specs::core::IndexSpecImpl<usize> for TaggedStream<Base, Tag> {
    open spec fn index_req(&self, index: &usize) -> bool { *index < self.data@.len() }
}
pub proof fn lawful_tag_clone<Base: Clone + Ord, Tag: Clone + Ord>()
    requires lawful_clone::<Base>(), lawful_clone::<Tag>(),
    ensures lawful_clone::<TagSymbol<Base, Tag>>(),
{ }

@@ recursive TagSymbol
@@ recursive TaggedStream
@@ fn Clone for TagSymbol::clone
@ret r
@spec
    ensures lawful_clone::<Base>() && lawful_clone::<Tag>() ==> r == *self,
@@ fn Clone for TaggedStream::clone
@ret r
@spec
    ensures lawful_clone::<Base>() && lawful_clone::<Tag>() ==> r == *self,
@@ fn TagSymbol::vx_copy
@ret r
@spec
    ensures lawful_clone::<Base>() && lawful_clone::<Tag>() ==> r == *self,
    decreases *self,
@@ fn TaggedStream::vx_copy
@ret r
@spec
    ensures lawful_clone::<Base>() && lawful_clone::<Tag>() ==> r == *self,
    decreases *self,
@loop 0
    invariant
        vx_data@.len() == vx_data_i,
        lawful_clone::<Base>() && lawful_clone::<Tag>() ==> forall|j: int| 0 <= j < vx_data_i ==> #[trigger] vx_data@[j] == self.data@[j],
@loop 0 start
    proof { assert(decreases_to!(*self => self.data)); assert(decreases_to!(self.data => self.data@[vx_data_i as int])); }
@end
    proof { if lawful_clone::<Base>() && lawful_clone::<Tag>() { assert(vx_r.data@ =~= self.data@); axiom_vec(vx_r.data, self.data); } }

@@ fn PartialEq for TagSymbol::eq
@flag external_body
@@ fn PartialEq for TaggedStream::eq
@flag external_body

@@ fn TaggedStream::from_reader
@ret r
@spec
    requires old(reader).rd_ok(),
    ensures
        untagged(r.data@, old(reader).rest()),
@start
    let ghost all = reader.rest();
    proof { assert(all.skip(0) =~= all); }
@loop 0
    invariant_except_break
        reader.rd_ok(),
        reader.rest() == all.skip(symbols@.len() as int),
    invariant
        symbols@.len() <= all.len(),
        forall|i: int| 0 <= i < symbols@.len() ==> #[trigger] symbols@[i] == TagSymbol::<Base, Tag>::Untagged(all[i]),
    ensures symbols@.len() == all.len(),
    decreases reader.rest().len(),
@loop 0 end
    proof { assert(reader.rest() =~= all.skip(symbols@.len() as int)); }

@@ fn TaggedStream::len
@ret r
@spec
    ensures r == self.data@.len(),

@@ fn TaggedStream::tag
@rewrite method drain vx_drain
@start
    proof { lawful_tag_clone::<Base, Tag>(); }
@spec
    requires lawful_clone::<Base>(), lawful_clone::<Tag>(), range.start <= range.end, range.end <= old(self).data@.len(),
    ensures
        final(self).data@.len() == old(self).data@.len() - (range.end - range.start) + 1,
        final(self).data@.take(range.start as int) == old(self).data@.take(range.start as int),
        is_tag(final(self).data@[range.start as int], tag, old(self).data@.subrange(range.start as int, range.end as int)),
        final(self).data@.skip(range.start + 1) == old(self).data@.skip(range.end as int),
@after let tag_symbol
    proof { assert(replaced_symbols@ =~= self.data@.subrange(range.start as int, range.end as int)); }
@end
    proof {
        assert(self.data@.take(range.start as int) =~= old(self).data@.take(range.start as int));
        assert(self.data@.skip(range.start + 1) =~= old(self).data@.skip(range.end as int));
    }

@@ fn TaggedStream::tag_range
@start
    proof { lawful_tag_clone::<Base, Tag>(); }
@ret r
@spec
    requires lawful_clone::<Base>(), lawful_clone::<Tag>(), range.start <= range.end, range.end <= self.data@.len(),
    ensures is_tag(r, tag, self.data@.subrange(range.start as int, range.end as int)),
@after let tag_data
    proof { assert(tag_data@ =~= self.data@.subrange(range.start as int, range.end as int)); }

@@ fn TaggedStream::with_tags
@rewrite for 0 while
@rewrite bound Iterator VxItems
@ret r
@spec
    requires tags.it_ok(), lawful_clone::<Base>(), lawful_clone::<Tag>(), sorted_tags(tags.items(), self.data@.len() as int),
    ensures retagged(self.data@, tags.items(), r.data@),
@start
    let ghost all = tags.items();
    proof { lawful_tag_clone::<Base, Tag>(); }
    proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= seq![]); }
    let ghost mut n: int = 0;
@loop 0
    invariant_except_break
        vx_it0.it_ok(), vx_it0.items() == all.skip(n),
    invariant
        lawful_clone::<Base>(), lawful_clone::<Tag>(), sorted_tags(all, self.data@.len() as int),
        0 <= n <= all.len(),
        last_range.end == last_end(all.take(n)),
        tags_cover(self.data@, all.take(n), new_stream@),
    ensures n == all.len(),
    decreases vx_it0.items().len(),
@loop 0 start
    let ghost s0 = new_stream@;
    proof {
        assert(all.skip(n)[0] == all[n]);
        assert(all.take(n + 1).drop_last() =~= all.take(n));
        assert(all.take(n + 1).last() == all[n]);
        assert(all.skip(n).drop_first() =~= all.skip(n + 1));
        assert(s0 + self.data@.subrange(last_range.end as int, last_range.end as int) =~= s0);
    }
@loop 1 it1
    invariant
        lawful_clone::<TagSymbol<Base, Tag>>(), end <= next_range.start <= self.data@.len(),
        new_stream@ == s0 + self.data@.subrange(end as int, end + it1.index@),
@loop 1 end
    proof { assert(new_stream@ =~= s0 + self.data@.subrange(end as int, end + it1.index@ + 1)); }
@loop 0 end
    proof {
        let (from, t) = (last_end(all.take(n)), all[n]);
        let at = new_stream@.len() - 1 - (t.0.start - from);
        assert(at == s0.len());
        assert(new_stream@.take(at) =~= s0);
        assert(new_stream@.subrange(at, new_stream@.len() - 1) =~= self.data@.subrange(from, t.0.start as int));
        n = n + 1;
    }
@before if 2
    let ghost s1 = new_stream@;
    proof { assert(all.take(n) =~= all); assert(s1 + self.data@.subrange(last_range.end as int, last_range.end as int) =~= s1); }
@loop 2 it2
    invariant
        lawful_clone::<TagSymbol<Base, Tag>>(), last_range.end <= self.data@.len(),
        new_stream@ == s1 + self.data@.subrange(last_range.end as int, last_range.end + it2.index@),
@loop 2 end
    proof { assert(new_stream@ =~= s1 + self.data@.subrange(last_range.end as int, last_range.end + it2.index@ + 1)); }
@after if 2
    proof {
        let tail = self.data@.skip(last_end(all));
        assert(new_stream@ =~= s1 + tail);
        assert(new_stream@.take(new_stream@.len() - tail.len()) =~= s1);
        assert(new_stream@.skip(new_stream@.len() - tail.len()) =~= tail);
    }

@variant refuses
@flag may_panic
@rewrite for 0 while
@rewrite bound Iterator VxItems
@ret r
@spec
    requires tags.it_ok(), lawful_clone::<Base>(), lawful_clone::<Tag>(), forall|i: int| 0 <= i < tags.items().len() ==> (#[trigger] tags.items()[i]).0.start <= tags.items()[i].0.end && tags.items()[i].0.end <= self.data@.len(),
    ensures sorted_tags(tags.items(), self.data@.len() as int),
@start
    let ghost all = tags.items();
    proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= seq![]); }
    let ghost mut n: int = 0;
@loop 0
    invariant_except_break
        vx_it0.it_ok(), vx_it0.items() == all.skip(n),
    invariant
        lawful_clone::<Base>(), lawful_clone::<Tag>(), sorted_tags(all.take(n), self.data@.len() as int),
        forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).0.start <= all[i].0.end && all[i].0.end <= self.data@.len(),
        0 <= n <= all.len(),
        last_range.end == last_end(all.take(n)),
        last_range.end <= self.data@.len(),
    ensures n == all.len(),
    decreases vx_it0.items().len(),
@loop 0 start
    proof {
        assert(all.skip(n)[0] == all[n]);
        assert(all.take(n + 1).drop_last() =~= all.take(n));
        assert(all.take(n + 1).last() == all[n]);
        assert(all.skip(n).drop_first() =~= all.skip(n + 1));
    }
@loop 0 end
    proof {
        assert forall|i: int| 0 <= i < n + 1 implies last_end(all.take(n + 1).take(i)) <= (#[trigger] all.take(n + 1)[i]).0.start by {
            if i < n { assert(all.take(n)[i] == all[i]); assert(all.take(n + 1).take(i) =~= all.take(n).take(i)); } else { assert(all.take(n + 1).take(i) =~= all.take(n)); }
        }
        n = n + 1;
    }
@before if 2
    proof { assert(all.take(n) =~= all); }

@@ fn Index for TaggedStream::index
@ret r
@spec
    ensures *r == self.data@[index as int],
@@ items SymbolSource for &TaggedStream
    open spec fn symbols(&self) -> Seq<TagSymbol<Base, Tag>> { self.data@ }
    open spec fn src_ok(&self) -> bool { lawful_clone::<TagSymbol<Base, Tag>>() }

@@ needs tokenizer TaggedStream::tokenize
@@ needs tokenizer TaggedStream::from_tokenized_reader
@@ prelude tokenizer
use crate::spec_tokens::*;
/// trusted: a function that may be given a symbol has a result for it
pub axiom fn axiom_returns<F, I, O>(f: F, x: I) where F: FnMut(I) -> O
    requires call_requires(f, (x,)),
    ensures exists|o: O| call_ensures(f, (x,), o);
/// the function takes the untagged symbols out
pub open spec fn untags<Base: Clone + Ord, Tag: Clone + Ord, F>(f: F) -> bool where F: FnMut(TagSymbol<Base, Tag>) -> Base {
    forall|x: TagSymbol<Base, Tag>, o: Base| #[trigger] call_ensures(f, (x,), o) ==> o == x->Untagged_0
}
pub proof fn untagged_images<Base: Clone + Ord, Tag: Clone + Ord, F>(f: F, data: Seq<TagSymbol<Base, Tag>>, s: Seq<Base>) where F: FnMut(TagSymbol<Base, Tag>) -> Base
    requires untagged(data, s), lawful_over::<F, TagSymbol<Base, Tag>, Base>(f, data), untags::<Base, Tag, F>(f),
    ensures images::<F, TagSymbol<Base, Tag>, Base>(f, data) == s,
{
    assert forall|i: int| 0 <= i < data.len() implies image::<F, TagSymbol<Base, Tag>, Base>(f, data[i]) == s[i] by {
        axiom_returns::<F, TagSymbol<Base, Tag>, Base>(f, data[i]);
        assert(call_ensures(f, (data[i],), image::<F, TagSymbol<Base, Tag>, Base>(f, data[i])));
    }
    assert(images::<F, TagSymbol<Base, Tag>, Base>(f, data) =~= s);
}
/// the tokens of a stream can be tagged
pub proof fn toks_sorted<S: Ord, O>(d: SymbolRangeDfa<S, O>, w: Seq<S>)
    ensures sorted_tags(toks(d, w, 0), w.len() as int),
{
    let t = toks(d, w, 0);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0.start <= t[i].0.end && t[i].0.end <= w.len() && last_end(t.take(i)) <= t[i].0.start by {
        toks_apart(d, w, 0, i);
        if i > 0 { assert(t.take(i).last() == t[i - 1]); }
    }
}
@@ fn TaggedStream::tokenize
@ret r
@spec
    requires
        lawful_clone::<Base>(), lawful_clone::<Tag>(), lawful_clone::<DfaSymbol>(), token_matcher.wf(), self.data@.len() <= usize::MAX / 8,
        lawful_over::<MapFn, TagSymbol<Base, Tag>, DfaSymbol>(map_symbol, self.data@),
    ensures retagged(self.data@, toks(*token_matcher, images::<MapFn, TagSymbol<Base, Tag>, DfaSymbol>(map_symbol, self.data@), 0), r.data@),
@start
    proof { lawful_tag_clone::<Base, Tag>(); }
    let ghost f = map_symbol;
@after let reader
    let ghost w = images::<MapFn, TagSymbol<Base, Tag>, DfaSymbol>(f, self.data@);
    proof { assert(reader.rest() == w); toks_sorted(*token_matcher, w); }
@@ fn TaggedStream::from_tokenized_reader
@ret r
@rewrite hoist tokenize TagSymbol<Base, Tag>
@after let vx_f1
    proof { untagged_images(vx_f1, vx_recv.data@, old(reader).rest()); }
@closure 0 vx_c Base
    requires symbol is Untagged,
    ensures vx_c == symbol->Untagged_0,
@spec
    requires
        lawful_clone::<Base>(), lawful_clone::<Tag>(), token_matcher.wf(), old(reader).rd_ok(), old(reader).rest().len() <= usize::MAX / 8,
    ensures exists|data: Seq<TagSymbol<Base, Tag>>| #[trigger] untagged(data, old(reader).rest()) && retagged(data, toks(*token_matcher, old(reader).rest(), 0), r.data@),
