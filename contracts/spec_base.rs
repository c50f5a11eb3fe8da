use std::cmp::Ordering;
use vstd::std_specs::cmp::*;

// ---- trusted contracts on the standard library -------------------------------------------------

pub assume_specification[ <Ordering as PartialEq>::eq ](a: &Ordering, b: &Ordering) -> (r: bool)
    ensures r == (*a == *b);

pub assume_specification[ std::char::from_u32 ](i: u32) -> (r: Option<char>)
    ensures
        r.is_some() <==> (i <= 0x10ffff && !(0xd800 <= i <= 0xdfff)),
        r.is_some() ==> r.unwrap() as u32 == i;

pub open spec fn rank(o: Ordering) -> int { match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 } }

/// the slice must be partitioned by the comparator, as the standard library demands
pub assume_specification<'a, T, F: FnMut(&'a T) -> Ordering> [ <[T]>::binary_search_by::<'a, F> ](s: &'a [T], f: F) -> (r: Result<usize, usize>)
    requires
        forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> call_requires(f, (&s@[i],)),
        forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i <= j < s@.len() && #[trigger] call_ensures(f, (&s@[i],), a) && #[trigger] call_ensures(f, (&s@[j],), b) ==> rank(a) <= rank(b),
    ensures
        match r {
            Ok(p) => p < s@.len() && call_ensures(f, (&s@[p as int],), Ordering::Equal),
            Err(p) => p <= s@.len()
                && (forall|i: int| #![trigger s@[i]] 0 <= i < p ==> call_ensures(f, (&s@[i],), Ordering::Less))
                && (forall|i: int| #![trigger s@[i]] p <= i < s@.len() ==> call_ensures(f, (&s@[i],), Ordering::Greater)),
        };
pub assume_specification<T> [ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

pub assume_specification<T: Clone> [ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(T::clone, (&s@[i],), #[trigger] r@[i]);
pub assume_specification<Idx: Clone> [ <std::ops::Range<Idx> as Clone>::clone ](s: &std::ops::Range<Idx>) -> (r: std::ops::Range<Idx>)
    ensures call_ensures(Idx::clone, (&s.start,), r.start), call_ensures(Idx::clone, (&s.end,), r.end);
/// `v.drain(range);` with the result dropped
pub trait VxDrain<T> {
    spec fn held(&self) -> Seq<T>;
    fn vx_drain(&mut self, r: std::ops::Range<usize>)
        requires r.start <= r.end, r.end <= old(self).held().len(),
        ensures final(self).held() == old(self).held().take(r.start as int) + old(self).held().skip(r.end as int);
}
impl<T> VxDrain<T> for Vec<T> {
    open spec fn held(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_drain(&mut self, r: std::ops::Range<usize>) { self.drain(r); }
}

/// trusted: `char` is compared by code point (vstd has no specification for it)
pub axiom fn axiom_char_order()
    ensures
        <char as OrdSpec>::obeys_cmp_spec(),
        <char as PartialOrdSpec>::obeys_partial_cmp_spec(),
        <char as PartialEqSpec>::obeys_eq_spec(),
        forall|a: char, b: char| #[trigger] a.eq_spec(&b) <==> a == b,
        forall|a: char, b: char| #[trigger] a.cmp_spec(&b) == (if (a as u32) < (b as u32) { Ordering::Less } else if a as u32 == b as u32 { Ordering::Equal } else { Ordering::Greater }),
        forall|a: char, b: char| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b));

// ---- stand-ins the extraction inserts ----------------------------------------------------------

/// `panic!(..)`: must be unreachable
#[verifier::external_body]
pub fn vx_panic() -> (r: !)
    requires false,
{ panic!() }

/// `panic!(..)` in functions whose contract says when they refuse their arguments
#[verifier::external_body]
pub fn vx_refuse() -> (r: !)
{ panic!() }

pub fn vx_usize_max() -> (r: usize)
    ensures r == usize::MAX,
{ usize::MAX }

/// trusted: a vector takes at most isize::MAX bytes, so one whose elements take space is shorter than usize::MAX
pub axiom fn axiom_vec_len<T>(v: &Vec<(T, u32)>)
    ensures v@.len() < usize::MAX;
/// `.clone()` on a pair: what the language defines it to be
pub trait VxClone: Sized {
    spec fn cloned_from(&self, r: Self) -> bool;
    fn vx_clone(&self) -> (r: Self)
        ensures self.cloned_from(r);
}
impl<A: Clone, B: Clone> VxClone for (A, B) {
    open spec fn cloned_from(&self, r: (A, B)) -> bool { call_ensures(A::clone, (&self.0,), r.0) && call_ensures(B::clone, (&self.1,), r.1) }
    fn vx_clone(&self) -> (r: (A, B)) { (self.0.clone(), self.1.clone()) }
}
/// trusted: iterating a hash set by value yields its members, each once
#[verifier::external_body]
pub fn vx_members<T: Eq + std::hash::Hash>(s: std::collections::HashSet<T>) -> (r: Vec<T>)
    ensures r@.to_set() == s@, r@.no_duplicates(),
{ s.into_iter().collect() }

/// `map[&key]`, which panics when the key is missing
pub fn vx_at<'a, K: Eq + std::hash::Hash, V>(m: &'a std::collections::HashMap<K, V>, k: &K) -> (r: &'a V)
    requires vstd::std_specs::hash::obeys_key_model::<K>(), vstd::std_specs::hash::builds_valid_hashers::<std::collections::hash_map::RandomState>(), m@.contains_key(*k),
    ensures *r == m@[*k],
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    match m.get(k) { Some(v) => v, None => vx_panic() }
}
/// neighbouring equal elements removed
pub open spec fn deduped<T>(s: Seq<T>) -> Seq<T>
    decreases s.len()
{
    if s.len() <= 1 { s } else if s.last() == s[s.len() - 2] { deduped(s.drop_last()) } else { deduped(s.drop_last()).push(s.last()) }
}
pub assume_specification<T: Ord> [ <[T]>::sort ](s: &mut [T])
    ensures
        final(s)@.to_multiset() == old(s)@.to_multiset(),
        lawful_ord::<T>() ==> forall|i: int, j: int| 0 <= i <= j < final(s)@.len() ==> le(#[trigger] final(s)@[i], #[trigger] final(s)@[j]);
pub assume_specification<T: PartialEq, A: std::alloc::Allocator> [ Vec::<T, A>::dedup ](v: &mut Vec<T, A>)
    ensures T::obeys_eq_spec() && (forall|a: T, b: T| #[trigger] a.eq_spec(&b) <==> a == b) ==> final(v)@ == deduped(old(v)@);
/// a comparator that puts any elements in order
pub open spec fn total_order<T>(c: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T| (#[trigger] c(a, b) == Ordering::Greater) <==> c(b, a) == Ordering::Less
    &&& forall|a: T, b: T, d: T| #![trigger c(a, b), c(b, d)] c(a, b) != Ordering::Greater && c(b, d) != Ordering::Greater ==> c(a, d) != Ordering::Greater
}
pub open spec fn compares_by<T, F: FnMut(&T, &T) -> Ordering>(f: F, c: spec_fn(T, T) -> Ordering) -> bool {
    &&& forall|a: T, b: T| #[trigger] call_requires(f, (&a, &b))
    &&& forall|a: T, b: T, o: Ordering| #[trigger] call_ensures(f, (&a, &b), o) ==> o == c(a, b)
}
pub assume_specification<T, F: FnMut(&T, &T) -> Ordering> [ <[T]>::sort_by ](s: &mut [T], f: F)
    requires exists|c: spec_fn(T, T) -> Ordering| #[trigger] total_order(c) && compares_by(f, c),
    ensures
        final(s)@.to_multiset() == old(s)@.to_multiset(),
        forall|c: spec_fn(T, T) -> Ordering, i: int, j: int| #[trigger] total_order(c) && compares_by(f, c) && 0 <= i <= j < final(s)@.len() ==> #[trigger] c(final(s)@[i], final(s)@[j]) != Ordering::Greater;

/// trusted: what an iterator will still yield before it first reports the end is a function of its state
pub trait VxIter {
    type It;
    spec fn items(&self) -> Seq<Self::It>;
    fn vx_next(&mut self) -> (r: Option<Self::It>)
        ensures
            old(self).items().len() == 0 ==> r is None,
            old(self).items().len() > 0 ==> r == Some(old(self).items()[0]) && final(self).items() == old(self).items().drop_first();
}
impl<I: Iterator> VxIter for I {
    type It = I::Item;
    uninterp spec fn items(&self) -> Seq<I::Item>;
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<I::Item>) { self.next() }
}
/// what a `for` loop does with an iterator: it calls next until this reports the end
pub trait VxItems {
    type It;
    spec fn items(&self) -> Seq<Self::It>;
    spec fn it_ok(&self) -> bool;
    fn vx_next(&mut self) -> (r: Option<Self::It>)
        requires old(self).it_ok(),
        ensures
            final(self).it_ok(),
            old(self).items().len() == 0 ==> r is None,
            old(self).items().len() > 0 ==> r == Some(old(self).items()[0]) && final(self).items() == old(self).items().drop_first();
}
/// trusted: a vector's iterator yields references to its elements in order, a string's its characters
pub trait VxVecIter<T> {
    spec fn elems(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: std::slice::Iter<'_, T>)
        ensures r.items().len() == self.elems().len(), forall|i: int| 0 <= i < self.elems().len() ==> *#[trigger] r.items()[i] == self.elems()[i];
}
impl<T> VxVecIter<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: std::slice::Iter<'_, T>) { self.iter() }
}
pub trait VxStr {
    spec fn text(&self) -> Seq<char>;
    fn vx_chars(&self) -> (r: std::str::Chars<'_>)
        ensures r.items() == self.text();
}
impl VxStr for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: std::str::Chars<'_>) { self.chars() }
}

// ---- what a lawful symbol type is --------------------------------------------------------------

pub open spec fn ocmp<S: Ord>(a: S, b: S) -> Ordering { a.cmp_spec(&b) }
pub open spec fn lt<S: Ord>(a: S, b: S) -> bool { a.cmp_spec(&b) == Ordering::Less }
pub open spec fn le<S: Ord>(a: S, b: S) -> bool { a.cmp_spec(&b) != Ordering::Greater }

/// Ord is a total order, PartialOrd and PartialEq agree with it, and equal values are identical
pub open spec fn lawful_ord<S: Ord>() -> bool {
    &&& S::obeys_cmp_spec()
    &&& S::obeys_partial_cmp_spec()
    &&& S::obeys_eq_spec()
    &&& forall|a: S, b: S| #[trigger] a.cmp_spec(&b) == Ordering::Equal <==> a == b
    &&& forall|a: S, b: S| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: S, b: S| #[trigger] a.eq_spec(&b) <==> a == b
    &&& forall|a: S, b: S| (#[trigger] a.cmp_spec(&b) == Ordering::Less) <==> b.cmp_spec(&a) == Ordering::Greater
    &&& forall|a: S, b: S, c: S| #![trigger a.cmp_spec(&b), b.cmp_spec(&c)]
            a.cmp_spec(&b) != Ordering::Greater && b.cmp_spec(&c) != Ordering::Greater ==> a.cmp_spec(&c) != Ordering::Greater
}

/// Clone returns an identical value
pub open spec fn lawful_clone<S: Clone>() -> bool {
    &&& forall|a: S, b: S| #[trigger] call_ensures(S::clone, (&a,), b) ==> a == b
    &&& forall|a: S| #[trigger] call_requires(S::clone, (&a,))
}
