@@ prelude symbol_range
use crate::symbol_range::*;
@@ prelude countable
use crate::countable::*;
@@ prelude
use vstd::std_specs::cmp::*;

pub open spec fn rlt<S: Ord>(a: SymbolRange<S>, b: SymbolRange<S>) -> bool { range_cmp(a, b) == Ordering::Less }
pub open spec fn rle<S: Ord>(a: SymbolRange<S>, b: SymbolRange<S>) -> bool { range_cmp(a, b) != Ordering::Greater }
pub open spec fn rsorted<S: Ord>(s: Seq<SymbolRange<S>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> rlt(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn holds<S: Ord>(s: Seq<SymbolRange<S>>, r: SymbolRange<S>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == r }
pub open spec fn all_nonempty<S: Ord>(s: Seq<SymbolRange<S>>) -> bool { forall|i: int| 0 <= i < s.len() ==> nonempty(#[trigger] s[i]) }

pub proof fn range_equal<S: Ord>(a: SymbolRange<S>, b: SymbolRange<S>)
    requires lawful_ord::<S>(), range_cmp(a, b) == Ordering::Equal,
    ensures a == b,
{ assert(ocmp(a.lowest, b.lowest) == Ordering::Equal); assert(ocmp(a.highest, b.highest) == Ordering::Equal); }

/// C07: what inserting at the position a search reported does to the sorted set
pub proof fn insert_sorted<S: Ord>(s: Seq<SymbolRange<S>>, p: int, r: SymbolRange<S>)
    requires
        lawful_ord::<S>(), rsorted(s), 0 <= p <= s.len(),
        forall|i: int| 0 <= i < p ==> rlt(#[trigger] s[i], r),
        forall|i: int| p <= i < s.len() ==> rlt(r, #[trigger] s[i]),
    ensures
        rsorted(s.insert(p, r)),
        forall|x: SymbolRange<S>| #[trigger] holds(s.insert(p, r), x) <==> holds(s, x) || x == r,
{
    let t = s.insert(p, r);
    assert forall|x: SymbolRange<S>| #[trigger] holds(t, x) <==> holds(s, x) || x == r by {
        if holds(s, x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[if i < p { i } else { i + 1 }] == x); }
        assert(t[p] == r);
        if holds(t, x) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
            if i < p { assert(s[i] == x); } else if i > p { assert(s[i - 1] == x); }
        }
    }
}

// ---- C06: ranges as intervals of positions ------------------------------------------------------

pub open spec fn lo<S: Ord + Clone + Countable>(r: SymbolRange<S>) -> int { r.lowest.idx() }
pub open spec fn hi<S: Ord + Clone + Countable>(r: SymbolRange<S>) -> int { r.highest.idx() }
/// the position v is covered by some range
pub open spec fn cov<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>, v: int) -> bool { exists|i: int| 0 <= i < s.len() && lo(#[trigger] s[i]) <= v <= hi(s[i]) }
pub open spec fn has_lo<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>, v: int) -> bool { exists|i: int| 0 <= i < s.len() && lo(#[trigger] s[i]) == v }
pub open spec fn has_hi<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>, v: int) -> bool { exists|i: int| 0 <= i < s.len() && hi(#[trigger] s[i]) == v }
pub open spec fn below<S: Ord + Clone + Countable>(res: Seq<SymbolRange<S>>, v: int) -> bool { res.len() > 0 && v <= hi(res.last()) }
/// q lies inside r or outside r
pub open spec fn within_or_apart<S: Ord + Clone + Countable>(q: SymbolRange<S>, r: SymbolRange<S>) -> bool { (lo(r) <= lo(q) && hi(q) <= hi(r)) || hi(r) < lo(q) || hi(q) < lo(r) }
pub open spec fn ordered<S: Ord + Clone + Countable>(a: SymbolRange<S>, b: SymbolRange<S>) -> bool { lo(a) < lo(b) || (lo(a) == lo(b) && hi(a) <= hi(b)) }

/// total length of the ranges on the stack: the termination measure
pub open spec fn weight<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { weight(s.drop_last()) + (hi(s.last()) - lo(s.last()) + 1) }
}
pub proof fn weight_insert<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>, p: int, r: SymbolRange<S>)
    requires 0 <= p <= s.len(),
    ensures weight(s.insert(p, r)) == weight(s) + (hi(r) - lo(r) + 1),
    decreases s.len(),
{
    let t = s.insert(p, r);
    if p == s.len() { assert(t.drop_last() =~= s); }
    else { assert(t.drop_last() =~= s.drop_last().insert(p, r)); assert(t.last() == s.last()); weight_insert(s.drop_last(), p, r); }
}
pub proof fn weight_nonneg<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>)
    requires forall|i: int| 0 <= i < s.len() ==> lo(#[trigger] s[i]) <= hi(s[i]),
    ensures weight(s) >= 0, s.len() > 0 ==> weight(s) > 0,
    decreases s.len(),
{
    if s.len() > 0 { assert(s[s.len() - 1] == s.last()); assert forall|i: int| 0 <= i < s.drop_last().len() implies lo(#[trigger] s.drop_last()[i]) <= hi(s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); } weight_nonneg(s.drop_last()); }
}
pub proof fn weight_push<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>, r: SymbolRange<S>)
    ensures weight(s.push(r)) == weight(s) + (hi(r) - lo(r) + 1),
{ assert(s.push(r).drop_last() =~= s); }

/// The stack (top = last) is ordered lowest range on top, except that the second range may be too large for its place
/// as long as it starts where the first one does (the next round puts it right).
pub open spec fn stack_order<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>) -> bool {
    let n = s.len() as int;
    &&& forall|i: int, j: int| 0 <= i < j < n && j != n - 2 ==> ordered(#[trigger] s[j], #[trigger] s[i])
    &&& (n >= 2 && lo(s[n - 1]) != lo(s[n - 2])) ==> forall|i: int| 0 <= i < n - 2 ==> ordered(s[n - 2], #[trigger] s[i])
}
pub open spec fn res_ok<S: Ord + Clone + Countable>(res: Seq<SymbolRange<S>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < res.len() ==> hi(#[trigger] res[i]) < lo(#[trigger] res[j])
    &&& forall|i: int| 0 <= i < res.len() ==> lo(#[trigger] res[i]) <= hi(res[i])
}
/// the bounds of the original ranges that are not finished yet are bounds of what is left
pub open spec fn bounds_kept<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>) -> bool {
    forall|k: int| #![trigger orig[k]] 0 <= k < orig.len() ==> (below(res, lo(orig[k])) || has_lo(s, lo(orig[k]))) && (below(res, hi(orig[k])) || has_hi(s, hi(orig[k])))
}
#[verifier::opaque]
pub open spec fn split_inv<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> lo(#[trigger] s[i]) <= hi(s[i])
    &&& res_ok(res)
    &&& forall|i: int, j: int| 0 <= i < res.len() && 0 <= j < s.len() ==> hi(#[trigger] res[i]) < lo(#[trigger] s[j])
    &&& stack_order(s)
    &&& forall|v: int| #[trigger] cov(orig, v) <==> cov(res, v) || cov(s, v)
    &&& bounds_kept(orig, s, res)
    &&& forall|k: int, i: int| 0 <= k < orig.len() && 0 <= i < res.len() ==> within_or_apart(#[trigger] res[i], #[trigger] orig[k])
}

/// facts about extending the finished part by one piece q that lies below everything that is left
pub proof fn push_piece<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>, q: SymbolRange<S>)
    requires
        split_inv(orig, s, res), lo(q) <= hi(q), s.len() > 0,
        lo(q) == lo(s.last()), hi(q) <= hi(s.last()),
        forall|i: int| 0 <= i < s.len() - 1 ==> hi(q) < lo(#[trigger] s[i]),
    ensures
        res_ok(res.push(q)),
        forall|k: int, i: int| 0 <= k < orig.len() && 0 <= i < res.push(q).len() ==> within_or_apart(#[trigger] res.push(q)[i], #[trigger] orig[k]),
        forall|v: int| #[trigger] cov(res.push(q), v) <==> cov(res, v) || lo(q) <= v <= hi(q),
        forall|v: int| below(res.push(q), v) <==> v <= hi(q),
        forall|v: int| below(res, v) ==> v < lo(q),
{
    reveal(split_inv);
    let n = s.len() as int;
    let r2 = res.push(q);
    assert(s[n - 1] == s.last());
    assert(r2.last() == q);
    if res.len() > 0 { assert(hi(res[res.len() - 1]) < lo(s[n - 1])); }
    assert forall|k: int| 0 <= k < orig.len() implies within_or_apart(q, #[trigger] orig[k]) by {
        let r = orig[k];
        // no boundary of r lies strictly inside q
        if below(res, lo(r)) { assert(lo(r) < lo(q)); } else {
            let i = choose|i: int| 0 <= i < s.len() && lo(#[trigger] s[i]) == lo(r);
            if i < n - 1 { assert(hi(q) < lo(s[i])); }
        }
        if below(res, hi(r)) { assert(hi(r) < lo(q)); } else {
            let i = choose|i: int| 0 <= i < s.len() && hi(#[trigger] s[i]) == hi(r);
            if i < n - 1 { assert(hi(q) < lo(s[i])); assert(lo(s[i]) <= hi(s[i])); }
        }
    }
    assert forall|v: int| #[trigger] cov(r2, v) <==> cov(res, v) || lo(q) <= v <= hi(q) by {
        if cov(res, v) { let i = choose|i: int| 0 <= i < res.len() && lo(#[trigger] res[i]) <= v <= hi(res[i]); assert(r2[i] == res[i]); }
        assert(r2[res.len() as int] == q);
        if cov(r2, v) { let i = choose|i: int| 0 <= i < r2.len() && lo(#[trigger] r2[i]) <= v <= hi(r2[i]); if i < res.len() { assert(r2[i] == res[i]); } }
    }
}

/// the top of the stack starts no later than anything else on it
pub proof fn top_lowest<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>)
    requires stack_order(s), s.len() > 0,
    ensures forall|i: int| 0 <= i < s.len() - 1 ==> ordered(s.last(), #[trigger] s[i]),
{ assert forall|i: int| 0 <= i < s.len() - 1 implies ordered(s.last(), #[trigger] s[i]) by { assert(ordered(s[s.len() - 1], s[i])); } }

/// the top range does not overlap the one below it (or is alone): it is finished
pub proof fn step_finish<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>)
    requires split_inv(orig, s, res), s.len() > 0, s.len() >= 2 ==> hi(s.last()) < lo(s[s.len() - 2]),
    ensures split_inv(orig, s.drop_last(), res.push(s.last())), weight(s.drop_last()) < weight(s),
{
    reveal(split_inv);
    let n = s.len() as int;
    let a = s.last();
    let s1 = s.drop_last();
    let r1 = res.push(a);
    assert(s[n - 1] == a);
    top_lowest(s);
    assert forall|i: int| 0 <= i < n - 1 implies hi(a) < lo(#[trigger] s[i]) by {
        assert(lo(a) <= hi(a));
        if i < n - 2 { assert(ordered(s[n - 2], s[i])); }
    }
    push_piece(orig, s, res, a);
    assert forall|v: int| #[trigger] cov(orig, v) <==> cov(r1, v) || cov(s1, v) by {
        assert(cov(orig, v) <==> cov(res, v) || cov(s, v));
        if cov(s, v) { let i = choose|i: int| 0 <= i < s.len() && lo(#[trigger] s[i]) <= v <= hi(s[i]); if i < n - 1 { assert(s1[i] == s[i]); } }
        if cov(s1, v) { let i = choose|i: int| 0 <= i < s1.len() && lo(#[trigger] s1[i]) <= v <= hi(s1[i]); assert(s1[i] == s[i]); }
        if lo(a) <= v <= hi(a) { assert(lo(s[n - 1]) <= v <= hi(s[n - 1])); }
    }
    assert forall|i: int, j: int| 0 <= i < j < n - 1 implies ordered(#[trigger] s1[j], #[trigger] s1[i]) by { assert(s1[i] == s[i] && s1[j] == s[j]); }
    assert forall|k: int| #![trigger orig[k]] 0 <= k < orig.len() implies (below(r1, lo(orig[k])) || has_lo(s1, lo(orig[k]))) && (below(r1, hi(orig[k])) || has_hi(s1, hi(orig[k]))) by {
        let r = orig[k];
        if has_lo(s, lo(r)) { let i = choose|i: int| 0 <= i < s.len() && lo(#[trigger] s[i]) == lo(r); if i < n - 1 { assert(s1[i] == s[i]); } else { assert(lo(a) == lo(r)); } }
        if has_hi(s, hi(r)) { let i = choose|i: int| 0 <= i < s.len() && hi(#[trigger] s[i]) == hi(r); if i < n - 1 { assert(s1[i] == s[i]); } }
    }
}

/// both topmost ranges are the same: one is enough
pub proof fn step_same<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>)
    requires split_inv(orig, s, res), s.len() >= 2, lo(s.last()) == lo(s[s.len() - 2]), hi(s.last()) == hi(s[s.len() - 2]),
    ensures split_inv(orig, s.drop_last(), res), weight(s.drop_last()) < weight(s),
{
    reveal(split_inv);
    let n = s.len() as int;
    let s1 = s.drop_last();
    assert(s[n - 1] == s.last());
    top_lowest(s);
    assert forall|v: int| cov(s1, v) <==> #[trigger] cov(s, v) by {
        if cov(s, v) { let i = choose|i: int| 0 <= i < s.len() && lo(#[trigger] s[i]) <= v <= hi(s[i]); if i < n - 1 { assert(s1[i] == s[i]); } else { assert(s1[n - 2] == s[n - 2]); } }
        if cov(s1, v) { let i = choose|i: int| 0 <= i < s1.len() && lo(#[trigger] s1[i]) <= v <= hi(s1[i]); assert(s1[i] == s[i]); }
    }
    assert forall|v: int| #[trigger] has_lo(s, v) implies has_lo(s1, v) by { let i = choose|i: int| 0 <= i < s.len() && lo(#[trigger] s[i]) == v; if i < n - 1 { assert(s1[i] == s[i]); } else { assert(s1[n - 2] == s[n - 2]); } }
    assert forall|v: int| #[trigger] has_hi(s, v) implies has_hi(s1, v) by { let i = choose|i: int| 0 <= i < s.len() && hi(#[trigger] s[i]) == v; if i < n - 1 { assert(s1[i] == s[i]); } else { assert(s1[n - 2] == s[n - 2]); } }
    assert forall|i: int, j: int| 0 <= i < j < n - 1 implies ordered(#[trigger] s1[j], #[trigger] s1[i]) by {
        assert(s1[i] == s[i] && s1[j] == s[j]);
        if j == n - 2 { assert(ordered(s[n - 1], s[i])); }
    }
    assert forall|i: int, j: int| 0 <= i < res.len() && 0 <= j < s1.len() implies hi(#[trigger] res[i]) < lo(#[trigger] s1[j]) by { assert(s1[j] == s[j]); }
    assert forall|i: int| 0 <= i < s1.len() implies lo(#[trigger] s1[i]) <= hi(s1[i]) by { assert(s1[i] == s[i]); }
}

/// the two topmost ranges start together: the longer one loses what it shares with the shorter
/// (m is the stack without the two, with the rest of the longer one in its place or already there; the shorter goes on top)
pub open spec fn cut_of<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>, m: Seq<SymbolRange<S>>, c: SymbolRange<S>, p: int) -> bool {
    let base = s.drop_last().drop_last();
    &&& s.len() >= 2 && lo(s.last()) == lo(s[s.len() - 2]) && hi(s.last()) < hi(s[s.len() - 2])
    &&& lo(c) == hi(s.last()) + 1 && hi(c) == hi(s[s.len() - 2])
    &&& 0 <= p <= base.len()
    &&& m == base.insert(p, c) && (forall|i: int| 0 <= i < p ==> ordered(c, #[trigger] base[i])) && (forall|i: int| p <= i < base.len() ==> ordered(#[trigger] base[i], c))
        || p < base.len() && m == base && m[p] == c
}
/// where entries of the new stack come from, and where those of the old one went
proof fn cut_from<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>, m: Seq<SymbolRange<S>>, c: SymbolRange<S>, p: int, i: int) -> (k: int)
    requires cut_of(s, m, c, p), 0 <= i < m.len(),
    ensures m[i] == c || (0 <= k < s.len() - 2 && m[i] == s[k]),
{
    if m.len() == s.len() - 2 { i } else if i < p { i } else { i - 1 }
}
proof fn cut_to<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>, m: Seq<SymbolRange<S>>, c: SymbolRange<S>, p: int, k: int) -> (i: int)
    requires cut_of(s, m, c, p), 0 <= k < s.len() - 2,
    ensures 0 <= i < m.len(), m[i] == s[k],
{
    if m.len() == s.len() - 2 { k } else if k < p { k } else { k + 1 }
}
proof fn cut_cov<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>, m: Seq<SymbolRange<S>>, c: SymbolRange<S>, p: int, v: int)
    requires cut_of(s, m, c, p), lo(s.last()) <= hi(s.last()),
    ensures cov(s, v) <==> cov(m.push(s.last()), v), has_lo(s, v) ==> has_lo(m.push(s.last()), v), has_hi(s, v) ==> has_hi(m.push(s.last()), v),
{
    let n = s.len() as int;
    let a = s.last();
    let s1 = m.push(a);
    let e = m.len() as int;
    assert(m[p] == c);
    assert(s1[p] == c && s1[e] == a && s[n - 1] == a);
    if cov(s, v) {
        let k = choose|k: int| 0 <= k < s.len() && lo(#[trigger] s[k]) <= v <= hi(s[k]);
        if k == n - 2 { if v <= hi(a) { assert(lo(s1[e]) <= v <= hi(s1[e])); } else { assert(lo(s1[p]) <= v <= hi(s1[p])); } }
        else if k == n - 1 { assert(lo(s1[e]) <= v <= hi(s1[e])); }
        else { let i = cut_to(s, m, c, p, k); assert(lo(s1[i]) <= v <= hi(s1[i])); }
    }
    if cov(s1, v) {
        let i = choose|i: int| 0 <= i < s1.len() && lo(#[trigger] s1[i]) <= v <= hi(s1[i]);
        if i == e { assert(lo(s[n - 1]) <= v <= hi(s[n - 1])); }
        else { let k = cut_from(s, m, c, p, i); if m[i] == c { assert(lo(s[n - 2]) <= v <= hi(s[n - 2])); } else { assert(lo(s[k]) <= v <= hi(s[k])); } }
    }
    if has_lo(s, v) {
        let k = choose|k: int| 0 <= k < s.len() && lo(#[trigger] s[k]) == v;
        if k >= n - 2 { assert(lo(s1[e]) == v); } else { let i = cut_to(s, m, c, p, k); assert(lo(s1[i]) == v); }
    }
    if has_hi(s, v) {
        let k = choose|k: int| 0 <= k < s.len() && hi(#[trigger] s[k]) == v;
        if k == n - 2 { assert(hi(s1[p]) == v); } else if k == n - 1 { assert(hi(s1[e]) == v); } else { let i = cut_to(s, m, c, p, k); assert(hi(s1[i]) == v); }
    }
}
proof fn cut_order<S: Ord + Clone + Countable>(s: Seq<SymbolRange<S>>, m: Seq<SymbolRange<S>>, c: SymbolRange<S>, p: int)
    requires cut_of(s, m, c, p), stack_order(s), forall|i: int| 0 <= i < s.len() ==> lo(#[trigger] s[i]) <= hi(s[i]),
    ensures
        stack_order(m.push(s.last())),
        forall|i: int| #![trigger m.push(s.last())[i]] 0 <= i < m.len() + 1 ==> lo(m.push(s.last())[i]) <= hi(m.push(s.last())[i]) && lo(s.last()) <= lo(m.push(s.last())[i]),
{
    let n = s.len() as int;
    let a = s.last();
    let s1 = m.push(a);
    let e = m.len() as int;
    assert(s[n - 1] == a);
    top_lowest(s);
    assert forall|i: int| #![trigger s1[i]] 0 <= i < s1.len() implies lo(s1[i]) <= hi(s1[i]) && lo(a) <= lo(s1[i]) && ordered(a, s1[i]) by {
        if i < e { let k = cut_from(s, m, c, p, i); if m[i] != c { assert(ordered(s[n - 1], s[k])); } }
    }
    let base = s.drop_last().drop_last();
    assert forall|i: int, j: int| 0 <= i < j < base.len() implies ordered(#[trigger] base[j], #[trigger] base[i]) by { assert(base[i] == s[i] && base[j] == s[j]); }
    assert forall|i: int, j: int| 0 <= i < j < e implies ordered(#[trigger] m[j], #[trigger] m[i]) by {
        if m.len() != base.len() {
            if j < p { assert(m[i] == base[i] && m[j] == base[j]); }
            else if j == p { assert(m[i] == base[i]); }
            else if i < p { assert(m[i] == base[i] && m[j] == base[j - 1]); }
            else if i == p { assert(m[j] == base[j - 1]); }
            else { assert(m[i] == base[i - 1] && m[j] == base[j - 1]); }
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < s1.len() implies ordered(#[trigger] s1[j], #[trigger] s1[i]) by {
        assert(s1[i] == m[i]);
        if j < e { assert(s1[j] == m[j]); }
    }
}
pub proof fn step_cut<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>, m: Seq<SymbolRange<S>>, c: SymbolRange<S>, p: int)
    requires split_inv(orig, s, res), cut_of(s, m, c, p),
    ensures split_inv(orig, m.push(s.last()), res), weight(m.push(s.last())) < weight(s),
{
    reveal(split_inv);
    let n = s.len() as int;
    let a = s.last();
    let base = s.drop_last().drop_last();
    let s1 = m.push(a);
    assert(s[n - 1] == a);
    cut_order(s, m, c, p);
    assert forall|v: int| #[trigger] cov(orig, v) <==> cov(res, v) || cov(s1, v) by { cut_cov(s, m, c, p, v); }
    assert forall|k: int| #![trigger orig[k]] 0 <= k < orig.len() implies (below(res, lo(orig[k])) || has_lo(s1, lo(orig[k]))) && (below(res, hi(orig[k])) || has_hi(s1, hi(orig[k]))) by {
        cut_cov(s, m, c, p, lo(orig[k]));
        cut_cov(s, m, c, p, hi(orig[k]));
    }
    assert forall|i: int, j: int| 0 <= i < res.len() && 0 <= j < s1.len() implies hi(#[trigger] res[i]) < lo(#[trigger] s1[j]) by { assert(hi(res[i]) < lo(s[n - 1])); }
    assert(s.drop_last().last() == s[n - 2]);
    assert(weight(s) == weight(s.drop_last()) + (hi(a) - lo(a) + 1));
    assert(weight(s.drop_last()) == weight(base) + (hi(s[n - 2]) - lo(s[n - 2]) + 1));
    weight_push(m, a);
    if m.len() != base.len() { weight_insert(base, p, c); }
}

/// the top range starts first: the part before the second range is finished
pub proof fn step_head<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>, q: SymbolRange<S>, t: SymbolRange<S>, s1: Seq<SymbolRange<S>>)
    requires
        split_inv(orig, s, res), s.len() >= 2, lo(s.last()) < lo(s[s.len() - 2]) <= hi(s.last()),
        lo(q) == lo(s.last()), hi(q) == lo(s[s.len() - 2]) - 1,
        lo(t) == lo(s[s.len() - 2]), hi(t) == hi(s.last()),
        ({ let base = s.drop_last().drop_last(); let b = s[s.len() - 2];
           (s1 == base.push(b).push(t) && hi(t) <= hi(b)) || (s1 == base.push(t).push(b) && hi(b) <= hi(t)) }),
    ensures split_inv(orig, s1, res.push(q)), weight(s1) < weight(s),
{
    reveal(split_inv);
    let n = s.len() as int;
    let a = s.last();
    let b = s[n - 2];
    let base = s.drop_last().drop_last();
    let r1 = res.push(q);
    let first = s1 == base.push(b).push(t) && hi(t) <= hi(b);
    let tb = if first { n - 1 } else { n - 2 };
    let bb = if first { n - 2 } else { n - 1 };
    assert(s[n - 1] == a && lo(a) <= hi(a) && lo(b) <= hi(b));
    top_lowest(s);
    assert forall|i: int| 0 <= i < n - 1 implies hi(q) < lo(#[trigger] s[i]) by { if i < n - 2 { assert(ordered(s[n - 2], s[i])); } }
    push_piece(orig, s, res, q);
    assert(s1.len() == n);
    assert(s1[tb] == t && s1[bb] == b);
    assert forall|i: int| 0 <= i < n - 2 implies #[trigger] s1[i] == s[i] by {}
    assert forall|v: int| #[trigger] cov(orig, v) <==> cov(r1, v) || cov(s1, v) by {
        assert(cov(orig, v) <==> cov(res, v) || cov(s, v));
        assert(cov(r1, v) <==> cov(res, v) || lo(q) <= v <= hi(q));
        if cov(s, v) {
            let i = choose|i: int| 0 <= i < s.len() && lo(#[trigger] s[i]) <= v <= hi(s[i]);
            if i < n - 2 { assert(lo(s1[i]) <= v <= hi(s1[i])); } else if i == n - 2 { assert(lo(s1[bb]) <= v <= hi(s1[bb])); } else if v > hi(q) { assert(lo(s1[tb]) <= v <= hi(s1[tb])); }
        }
        if cov(s1, v) { let i = choose|i: int| 0 <= i < s1.len() && lo(#[trigger] s1[i]) <= v <= hi(s1[i]); if i < n - 2 { assert(lo(s[i]) <= v <= hi(s[i])); } else if i == bb { assert(lo(s[n - 2]) <= v <= hi(s[n - 2])); } else { assert(lo(s[n - 1]) <= v <= hi(s[n - 1])); } }
        if lo(q) <= v <= hi(q) { assert(lo(s[n - 1]) <= v <= hi(s[n - 1])); }
    }
    assert forall|k: int| #![trigger orig[k]] 0 <= k < orig.len() implies (below(r1, lo(orig[k])) || has_lo(s1, lo(orig[k]))) && (below(r1, hi(orig[k])) || has_hi(s1, hi(orig[k]))) by {
        let r = orig[k];
        if has_lo(s, lo(r)) { let i = choose|i: int| 0 <= i < s.len() && lo(#[trigger] s[i]) == lo(r); if i < n - 2 { assert(lo(s1[i]) == lo(r)); } else if i == n - 2 { assert(lo(s1[bb]) == lo(r)); } }
        if has_hi(s, hi(r)) { let i = choose|i: int| 0 <= i < s.len() && hi(#[trigger] s[i]) == hi(r); if i < n - 2 { assert(hi(s1[i]) == hi(r)); } else if i == n - 2 { assert(hi(s1[bb]) == hi(r)); } else { assert(hi(s1[tb]) == hi(r)); } }
    }
    assert forall|i: int| 0 <= i < n - 2 implies lo(b) <= lo(#[trigger] s[i]) && (lo(b) == lo(s[i]) ==> hi(b) <= hi(s[i])) by { assert(ordered(s[n - 2], s[i])); }
    assert forall|i: int| 0 <= i < s1.len() implies lo(#[trigger] s1[i]) <= hi(s1[i]) && hi(q) < lo(s1[i]) by { if i < n - 2 { assert(s1[i] == s[i]); } }
    assert(stack_order(s1)) by {
        assert forall|i: int, j: int| 0 <= i < j < n && j != n - 2 implies ordered(#[trigger] s1[j], #[trigger] s1[i]) by {
            if j < n - 2 { assert(s1[i] == s[i] && s1[j] == s[j]); }
            else if i < n - 2 { assert(s1[i] == s[i]); assert(ordered(s[n - 2], s[i])); }
        }
    }
    assert forall|i: int, j: int| 0 <= i < r1.len() && 0 <= j < s1.len() implies hi(#[trigger] r1[i]) < lo(#[trigger] s1[j]) by {
        if i < res.len() { assert(r1[i] == res[i]); assert(hi(res[i]) < lo(s[n - 1])); }
    }
    assert(s.drop_last().last() == b);
    assert(weight(s) == weight(s.drop_last()) + (hi(a) - lo(a) + 1));
    assert(weight(s.drop_last()) == weight(base) + (hi(b) - lo(b) + 1));
    weight_push(base, b); weight_push(base.push(b), t); weight_push(base, t); weight_push(base.push(t), b);
}

/// the symbol is in one of the ranges
pub open spec fn covers<S: Ord>(s: Seq<SymbolRange<S>>, x: S) -> bool { exists|i: int| 0 <= i < s.len() && in_range(#[trigger] s[i], x) }
pub open spec fn inside_or_outside<S: Ord>(q: SymbolRange<S>, r: SymbolRange<S>) -> bool {
    (forall|x: S| #[trigger] in_range(q, x) ==> in_range(r, x)) || (forall|x: S| #[trigger] in_range(q, x) ==> !in_range(r, x))
}
/// what the finished pieces say about symbols (C06): sorted, non-empty, disjoint, covering the same symbols, and every piece
/// lies inside or outside every original range (so each original range is exactly a union of pieces)
pub open spec fn exact_split<S: Ord>(orig: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>) -> bool {
    &&& rsorted(res) && all_nonempty(res)
    &&& forall|i: int, j: int| 0 <= i < j < res.len() ==> lt(#[trigger] res[i].highest, #[trigger] res[j].lowest)
    &&& forall|x: S| #[trigger] covers(orig, x) <==> covers(res, x)
    &&& forall|k: int, i: int| 0 <= k < orig.len() && 0 <= i < res.len() ==> inside_or_outside(#[trigger] res[i], #[trigger] orig[k])
}
pub proof fn split_done<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>)
    requires lawful_sym::<S>(), split_inv(orig, s, res), s.len() == 0,
    ensures exact_split(orig, res),
{
    reveal(split_inv);
    assert forall|i: int| 0 <= i < res.len() implies nonempty(#[trigger] res[i]) by {}
    assert forall|i: int, j: int| 0 <= i < j < res.len() implies rlt(#[trigger] res[i], #[trigger] res[j]) by { assert(hi(res[i]) < lo(res[j])); assert(lo(res[i]) <= hi(res[i])); }
    assert forall|i: int, j: int| 0 <= i < j < res.len() implies lt(#[trigger] res[i].highest, #[trigger] res[j].lowest) by { assert(hi(res[i]) < lo(res[j])); }
    assert forall|x: S| #[trigger] covers(orig, x) <==> covers(res, x) by {
        let v = x.idx();
        assert(cov(orig, v) <==> cov(res, v) || cov(s, v));
        if covers(orig, x) {
            let i = choose|i: int| 0 <= i < orig.len() && in_range(#[trigger] orig[i], x);
            assert(lo(orig[i]) <= v <= hi(orig[i]));
            let k = choose|k: int| 0 <= k < res.len() && lo(#[trigger] res[k]) <= v <= hi(res[k]);
            assert(in_range(res[k], x));
        }
        if covers(res, x) {
            let i = choose|i: int| 0 <= i < res.len() && in_range(#[trigger] res[i], x);
            assert(lo(res[i]) <= v <= hi(res[i]));
            let k = choose|k: int| 0 <= k < orig.len() && lo(#[trigger] orig[k]) <= v <= hi(orig[k]);
            assert(in_range(orig[k], x));
        }
    }
    assert forall|k: int, i: int| 0 <= k < orig.len() && 0 <= i < res.len() implies inside_or_outside(#[trigger] res[i], #[trigger] orig[k]) by {
        assert(within_or_apart(res[i], orig[k]));
    }
}
proof fn start_bounds<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>)
    ensures bounds_kept(orig, orig.reverse(), Seq::empty()),
{
    let s = orig.reverse();
    assert forall|k: int| #![trigger orig[k]] 0 <= k < orig.len() implies has_lo(s, lo(orig[k])) && has_hi(s, hi(orig[k])) by { let i = orig.len() - 1 - k; assert(s[i] == orig[k]); }
}
pub proof fn split_start<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>)
    requires lawful_sym::<S>(), rsorted(orig), all_nonempty(orig),
    ensures split_inv(orig, orig.reverse(), Seq::empty()),
{
    reveal(split_inv);
    let s = orig.reverse();
    let e = Seq::<SymbolRange<S>>::empty();
    let n = orig.len() as int;
    assert forall|i: int, j: int| 0 <= i < j < n implies ordered(#[trigger] s[j], #[trigger] s[i]) by { let (a, b) = (orig[n - 1 - j], orig[n - 1 - i]); assert(rlt(a, b)); }
    assert forall|i: int| 0 <= i < s.len() implies lo(#[trigger] s[i]) <= hi(s[i]) by { let a = orig[n - 1 - i]; assert(nonempty(a)); }
    assert forall|v: int| #[trigger] cov(orig, v) <==> cov(e, v) || cov(s, v) by {
        if cov(orig, v) { let i = choose|i: int| 0 <= i < orig.len() && lo(#[trigger] orig[i]) <= v <= hi(orig[i]); let k = n - 1 - i; assert(lo(s[k]) <= v <= hi(s[k])); }
        if cov(s, v) { let i = choose|i: int| 0 <= i < s.len() && lo(#[trigger] s[i]) <= v <= hi(s[i]); let k = n - 1 - i; assert(lo(orig[k]) <= v <= hi(orig[k])); }
    }
    start_bounds(orig);
}
pub proof fn split_weight<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>)
    requires split_inv(orig, s, res),
    ensures weight(s) >= 0,
{ reveal(split_inv); weight_nonneg(s); }
/// one round of the conversion, whatever it found on top of the stack
pub proof fn split_step<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s0: Seq<SymbolRange<S>>, r0: Seq<SymbolRange<S>>, s1: Seq<SymbolRange<S>>, r1: Seq<SymbolRange<S>>, gc: SymbolRange<S>, gp: int)
    requires
        lawful_sym::<S>(), split_inv(orig, s0, r0), s0.len() > 0,
        ({
            let n = s0.len() as int;
            let a = s0.last();
            let b = s0[n - 2];
            let base = s0.drop_last().drop_last();
            if n < 2 || !touches(a, b) { s1 =~= s0.drop_last() && r1 =~= r0.push(a) }
            else if a == b { s1 =~= s0.drop_last() && r1 == r0 }
            else if a.lowest == b.lowest {
                &&& r1 == r0
                &&& gc.lowest.idx() == hi(a) + 1 && gc.highest == b.highest
                &&& s1 =~= base.push(a) && holds(base, gc)
                    || 0 <= gp <= base.len() && s1 =~= base.insert(gp, gc).push(a) && (forall|i: int| 0 <= i < gp ==> ordered(gc, #[trigger] base[i])) && (forall|i: int| gp <= i < base.len() ==> ordered(#[trigger] base[i], gc))
            } else {
                let t = SymbolRange { lowest: b.lowest, highest: a.highest };
                &&& r1.len() == r0.len() + 1 && r1 =~= r0.push(r1.last()) && r1.last().lowest == a.lowest && hi(r1.last()) == lo(b) - 1
                &&& s1 =~= base.push(b).push(t) && lt(a.highest, b.highest) || s1 =~= base.push(t).push(b) && !lt(a.highest, b.highest)
            }
        }),
    ensures split_inv(orig, s1, r1), 0 <= weight(s1) < weight(s0),
{
    split_facts(orig, s0, r0);
    let n = s0.len() as int;
    let a = s0.last();
    if n >= 2 && touches(a, s0[n - 2]) {
        let b = s0[n - 2];
        let base = s0.drop_last().drop_last();
        if a == b { step_same(orig, s0, r0); }
        else if a.lowest == b.lowest {
            assert(hi(a) < hi(b));
            if s1 =~= base.push(a) && holds(base, gc) {
                let p = choose|p: int| 0 <= p < base.len() && #[trigger] base[p] == gc;
                step_cut(orig, s0, r0, base, gc, p);
            } else { step_cut(orig, s0, r0, base.insert(gp, gc), gc, gp); }
        } else {
            step_head(orig, s0, r0, r1.last(), SymbolRange { lowest: b.lowest, highest: a.highest }, s1);
        }
    } else {
        if n >= 2 { let b = s0[n - 2]; assert(!(le(a.lowest, b.highest) && le(b.lowest, a.highest))); assert(hi(a) < lo(b)); }
        step_finish(orig, s0, r0);
    }
    split_weight(orig, s1, r1);
}
/// what the code relies on when it looks at the top of the stack
pub proof fn split_facts<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>)
    requires split_inv(orig, s, res), s.len() > 0,
    ensures
        weight(s) > 0,
        nonempty_i(s.last()),
        s.len() >= 2 ==> nonempty_i(s[s.len() - 2]) && ordered(s.last(), s[s.len() - 2]),
        forall|i: int, j: int| 0 <= i <= j < s.len() - 2 ==> ordered(#[trigger] s.drop_last().drop_last()[j], #[trigger] s.drop_last().drop_last()[i]),
{
    reveal(split_inv);
    weight_nonneg(s);
    let n = s.len() as int;
    let base = s.drop_last().drop_last();
    assert(s[n - 1] == s.last());
    if n >= 2 {
        assert(ordered(s[n - 1], s[n - 2]));
        assert forall|i: int, j: int| 0 <= i <= j < n - 2 implies ordered(#[trigger] base[j], #[trigger] base[i]) by { assert(base[i] == s[i] && base[j] == s[j]); }
    }
}
/// the rest of the stack is partitioned by comparison with any range, as the binary search needs it
pub proof fn partitioned<S: Ord + Clone + Countable>(orig: Seq<SymbolRange<S>>, s: Seq<SymbolRange<S>>, res: Seq<SymbolRange<S>>, c: SymbolRange<S>)
    requires lawful_sym::<S>(), split_inv(orig, s, res), s.len() >= 2,
    ensures forall|i: int, j: int| 0 <= i <= j < s.len() - 2 ==> rank(range_cmp(c, #[trigger] s.drop_last().drop_last()[i])) <= rank(range_cmp(c, #[trigger] s.drop_last().drop_last()[j])),
{
    split_facts(orig, s, res);
    let base = s.drop_last().drop_last();
    assert forall|i: int, j: int| 0 <= i <= j < s.len() - 2 implies rank(range_cmp(c, #[trigger] base[i])) <= rank(range_cmp(c, #[trigger] base[j])) by { assert(ordered(base[j], base[i])); }
}
pub open spec fn nonempty_i<S: Ord + Clone + Countable>(r: SymbolRange<S>) -> bool { lo(r) <= hi(r) }

@@ items SymbolMap
    pub open spec fn wf(self) -> bool { rsorted(self.ranges@) }

@@ fn SymbolMap::new
@ret r
@spec
    ensures r.ranges@.len() == 0, r.wf(),

@@ fn SymbolMap::order_symbols
@ret r
@spec
    requires Symbol::obeys_cmp_spec(),
    ensures r == ocmp(*a, *b),

@@ fn SymbolMap::order_ranges
@ret r
@spec
    requires Symbol::obeys_cmp_spec(),
    ensures r == range_cmp(*a, *b),

@@ fn SymbolMap::add_range
@spec
    requires lawful_ord::<Symbol>(), lawful_clone::<Symbol>(), old(self).wf(),
    ensures final(self).wf(), forall|x: SymbolRange<Symbol>| #[trigger] holds(final(self).ranges@, x) <==> holds(old(self).ranges@, x) || x == *range,
@start
    let ghost s0 = self.ranges@;
    proof { lawful_ranges::<Symbol>(); lawful_range_clone::<Symbol>(); }
@closure 0 r Ordering
    requires Symbol::obeys_cmp_spec()
    ensures r == range_cmp(*test_range, *range)
@end
    proof {
        if self.ranges@ != s0 {
            let p = choose|p: int| 0 <= p <= s0.len() && self.ranges@ == #[trigger] s0.insert(p, *range)
                && (forall|i: int| #![trigger s0[i]] 0 <= i < p ==> rlt(s0[i], *range)) && (forall|i: int| #![trigger s0[i]] p <= i < s0.len() ==> range_cmp(s0[i], *range) == Ordering::Greater);
            assert forall|i: int| p <= i < s0.len() implies rlt(*range, #[trigger] s0[i]) by { assert(ocmp(s0[i], *range) == Ordering::Greater); assert(ocmp(*range, s0[i]) == Ordering::Less); }
            insert_sorted(s0, p, *range);
        }
    }

@@ fn SymbolMap::find_overlapping_ranges
@ret r
@rewrite type result Vec<&SymbolRange<Symbol>>
@spec
    requires lawful_ord::<Symbol>(), self.wf(), all_nonempty(self.ranges@), nonempty(*range),
    ensures
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> rlt(*#[trigger] r@[i], *#[trigger] r@[j]),
        forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> holds(self.ranges@, *r@[i]) && share(*r@[i], *range),
        forall|k: int| #![trigger self.ranges@[k]] 0 <= k < self.ranges@.len() && share(self.ranges@[k], *range) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == self.ranges@[k],
@loop 0
    invariant
        lawful_ord::<Symbol>(), self.wf(), all_nonempty(self.ranges@), nonempty(*range),
        pos <= self.ranges@.len(),
        forall|i: int, j: int| 0 <= i < j < result@.len() ==> rlt(*#[trigger] result@[i], *#[trigger] result@[j]),
        forall|i: int| #![trigger result@[i]] 0 <= i < result@.len() ==> (exists|k: int| 0 <= k < pos && *result@[i] == #[trigger] self.ranges@[k]) && touches(*result@[i], *range),
        forall|k: int| #![trigger self.ranges@[k]] 0 <= k < pos && touches(self.ranges@[k], *range) ==> exists|i: int| 0 <= i < result@.len() && *#[trigger] result@[i] == self.ranges@[k],
    decreases self.ranges@.len() - pos,
@loop 0 start
    let ghost before = result@;
    let ghost at = pos as int;
@loop 0 end
    proof {
        assert forall|k: int| #![trigger self.ranges@[k]] 0 <= k < at && touches(self.ranges@[k], *range) implies exists|i: int| 0 <= i < result@.len() && *#[trigger] result@[i] == self.ranges@[k] by {
            let i = choose|i: int| 0 <= i < before.len() && *#[trigger] before[i] == self.ranges@[k];
            assert(*result@[i] == self.ranges@[k]);
        }
        if touches(self.ranges@[at], *range) { assert(*result@[before.len() as int] == self.ranges@[at]); }
        assert forall|i: int| #![trigger result@[i]] 0 <= i < result@.len() implies (exists|k: int| 0 <= k < at + 1 && *result@[i] == #[trigger] self.ranges@[k]) && touches(*result@[i], *range) by {
            if i < before.len() { assert(result@[i] == before[i]); let k = choose|k: int| 0 <= k < at && *before[i] == #[trigger] self.ranges@[k]; assert(*result@[i] == self.ranges@[k]); }
        }
    }
@after loop 0
    proof {
        assert forall|k: int| #![trigger self.ranges@[k]] pos <= k < self.ranges@.len() implies !touches(self.ranges@[k], *range) by {
            if k > pos { assert(rlt(self.ranges@[pos as int], self.ranges@[k])); }
            assert(le(self.ranges@[pos as int].lowest, self.ranges@[k].lowest));
        }
        assert forall|k: int| #![trigger self.ranges@[k]] 0 <= k < self.ranges@.len() implies share(self.ranges@[k], *range) == touches(self.ranges@[k], *range) by { share_iff_touches(self.ranges@[k], *range); }
        assert forall|i: int| #![trigger result@[i]] 0 <= i < result@.len() implies holds(self.ranges@, *result@[i]) && share(*result@[i], *range) by {
            let k = choose|k: int| 0 <= k < pos && *result@[i] == #[trigger] self.ranges@[k];
            share_iff_touches(self.ranges@[k], *range);
        }
    }

@@ fn SymbolMap::to_non_overlapping_map
@ret r
@rewrite type result Vec<SymbolRange<Symbol>>
@spec
    requires lawful_sym::<Symbol>(), self.wf(), all_nonempty(self.ranges@),
    ensures r.wf(), exact_split(self.ranges@, r.ranges@),
@start
    let ghost orig = self.ranges@;
    proof { lawful_range_clone::<Symbol>(); }
@before loop 0
    proof {
        assert(to_process@ =~= orig.reverse());
        split_start(orig);
    }
@loop 0
    invariant lawful_sym::<Symbol>(), split_inv(orig, to_process@, result@), lawful_clone::<SymbolRange<Symbol>>(),
    ensures to_process@.len() == 0, split_inv(orig, to_process@, result@),
    decreases weight(to_process@),
@loop 0 start
    let ghost s0 = to_process@.push(might_overlap);
    let ghost r0 = result@;
    let ghost n = s0.len() as int;
    let ghost base = s0.drop_last().drop_last();
    let ghost mut gc = s0.last();
    let ghost mut gp = 0int;
    proof {
        assert(s0.drop_last() =~= to_process@);
        assert forall|t: Seq<SymbolRange<Symbol>>| #[trigger] split_inv(orig, t, r0) && t.len() > 0 && t.last() == might_overlap && t.subrange(0, t.len() - 1) == to_process@ implies t == s0 by { assert(t =~= s0); }
        split_facts(orig, s0, r0);
    }
@after let larger_range_without_smaller_range
    proof {
        gc = larger_range_without_smaller_range;
        assert(to_process@ =~= base);
        partitioned(orig, s0, r0, gc);
    }
@after call binary_search_by
    proof {
        if to_process@.len() == base.len() {
            assert(to_process@ =~= base);
            assert(exists|p: int| 0 <= p < base.len() && range_cmp(gc, #[trigger] base[p]) == Ordering::Equal);
            let p = choose|p: int| 0 <= p < base.len() && range_cmp(gc, #[trigger] base[p]) == Ordering::Equal;
            range_equal(gc, base[p]);
            assert(holds(base, gc));
        }
    }
@before call insert
    proof { assert forall|i: int| 0 <= i < base.len() implies (i < insertion_pos ==> ordered(gc, #[trigger] base[i])) && (i >= insertion_pos ==> ordered(base[i], gc)) by { assert(base[i] == to_process@[i]); } }
@after call insert
    proof { assert(to_process@ =~= base.insert(insertion_pos as int, gc)); gp = insertion_pos as int; }
@closure 0 r Ordering
    requires Symbol::obeys_cmp_spec()
    ensures r == range_cmp(larger_range_without_smaller_range, *test_range)
@loop 0 end
    proof {
        assert(n >= 2 && touches(s0.last(), s0[n - 2]) && s0.last() != s0[n - 2] && s0.last().lowest == s0[n - 2].lowest && to_process@.len() != n - 1 ==> to_process@ =~= base.insert(gp, gc).push(s0.last()));
        split_step(orig, s0, r0, to_process@, result@, gc, gp);
    }
@after loop 0
    proof { split_done(orig, to_process@, result@); }
