@@ prelude
/// A symbol type whose order is that of its index, with no gaps where next/prev are defined
pub open spec fn lawful_sym<S: Ord + Clone + Countable>() -> bool {
    &&& lawful_ord::<S>()
    &&& lawful_clone::<S>()
    &&& forall|a: S, b: S| #[trigger] a.cmp_spec(&b) == (if a.idx() < b.idx() { Ordering::Less } else if a.idx() == b.idx() { Ordering::Equal } else { Ordering::Greater })
    // symbols with the same position are the same
    &&& forall|a: S| at_idx::<S>(#[trigger] a.idx()) == a
    &&& forall|a: S, b: S| #![trigger a.is_last(), b.idx()] a.idx() < b.idx() ==> !a.is_last()
    &&& forall|a: S, b: S| #![trigger a.idx(), b.is_first()] a.idx() < b.idx() ==> !b.is_first()
}
/// the symbol at a position
pub open spec fn at_idx<S: Ord + Clone + Countable>(v: int) -> S { choose|a: S| #[trigger] a.idx() == v }
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
pub proof fn lawful_usize() ensures lawful_sym::<usize>() {}
pub proof fn lawful_u8() ensures lawful_sym::<u8>() {}
pub proof fn lawful_u16() ensures lawful_sym::<u16>() {}
pub proof fn lawful_u32() ensures lawful_sym::<u32>() {}
pub proof fn lawful_u64() ensures lawful_sym::<u64>() {}
pub proof fn lawful_isize() ensures lawful_sym::<isize>() {}
pub proof fn lawful_i8() ensures lawful_sym::<i8>() {}
pub proof fn lawful_i16() ensures lawful_sym::<i16>() {}
pub proof fn lawful_i32() ensures lawful_sym::<i32>() {}
pub proof fn lawful_i64() ensures lawful_sym::<i64>() {}
pub proof fn lawful_char() ensures lawful_sym::<char>() { axiom_char_order(); }

/// C09: next is the least greater symbol, prev the greatest smaller one, and they undo one another
pub proof fn countable_exact<S: Ord + Clone + Countable>(a: S, b: S, x: S)
    requires lawful_sym::<S>(), b.idx() == a.idx() + 1,
    ensures lt(a, b), !(lt(a, x) && lt(x, b)),
            forall|c: S| c.idx() == b.idx() - 1 ==> c == a,
            forall|c: S| c.idx() == a.idx() + 1 ==> c == b,
            !a.is_last(), !b.is_first(),
{}

@@ items trait Countable
    /// position of the symbol in its type's order
    spec fn idx(&self) -> int;
    spec fn is_last(&self) -> bool;
    spec fn is_first(&self) -> bool;

@@ fn trait Countable::next
@ret r
@spec
    requires !self.is_last(),
    ensures r.idx() == self.idx() + 1,
@@ fn trait Countable::prev
@ret r
@spec
    requires !self.is_first(),
    ensures r.idx() == self.idx() - 1,
@@ items Countable for usize
    open spec fn idx(&self) -> int { *self as int }
    open spec fn is_last(&self) -> bool { *self == usize::MAX }
    open spec fn is_first(&self) -> bool { *self == usize::MIN }
@@ items Countable for u8
    open spec fn idx(&self) -> int { *self as int }
    open spec fn is_last(&self) -> bool { *self == u8::MAX }
    open spec fn is_first(&self) -> bool { *self == u8::MIN }
@@ items Countable for u16
    open spec fn idx(&self) -> int { *self as int }
    open spec fn is_last(&self) -> bool { *self == u16::MAX }
    open spec fn is_first(&self) -> bool { *self == u16::MIN }
@@ items Countable for u32
    open spec fn idx(&self) -> int { *self as int }
    open spec fn is_last(&self) -> bool { *self == u32::MAX }
    open spec fn is_first(&self) -> bool { *self == u32::MIN }
@@ items Countable for u64
    open spec fn idx(&self) -> int { *self as int }
    open spec fn is_last(&self) -> bool { *self == u64::MAX }
    open spec fn is_first(&self) -> bool { *self == u64::MIN }
@@ items Countable for isize
    open spec fn idx(&self) -> int { *self as int }
    open spec fn is_last(&self) -> bool { *self == isize::MAX }
    open spec fn is_first(&self) -> bool { *self == isize::MIN }
@@ items Countable for i8
    open spec fn idx(&self) -> int { *self as int }
    open spec fn is_last(&self) -> bool { *self == i8::MAX }
    open spec fn is_first(&self) -> bool { *self == i8::MIN }
@@ items Countable for i16
    open spec fn idx(&self) -> int { *self as int }
    open spec fn is_last(&self) -> bool { *self == i16::MAX }
    open spec fn is_first(&self) -> bool { *self == i16::MIN }
@@ items Countable for i32
    open spec fn idx(&self) -> int { *self as int }
    open spec fn is_last(&self) -> bool { *self == i32::MAX }
    open spec fn is_first(&self) -> bool { *self == i32::MIN }
@@ items Countable for i64
    open spec fn idx(&self) -> int { *self as int }
    open spec fn is_last(&self) -> bool { *self == i64::MAX }
    open spec fn is_first(&self) -> bool { *self == i64::MIN }
@@ items Countable for char
    open spec fn idx(&self) -> int { let c = *self as u32 as int; if c <= 0xd7ff { c } else { c - 0x800 } }
    open spec fn is_last(&self) -> bool { *self == '\u{10ffff}' }
    open spec fn is_first(&self) -> bool { *self == '\u{0}' }
