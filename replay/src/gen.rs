//! Choice sources (enumerating or random), symbol types, random patterns and the language oracle.
use concordance::*;
use std::collections::BTreeSet;
use std::fmt::Debug;

/// A source of choices. In enumerating mode the choices are the mixed-radix digits of the case number, so that
/// counting case numbers upwards enumerates every small structure; in random mode they come from a PRNG.
///
/// Some random cases are scaled: they hold one thing of an unusual size (a length, a count, a number of states), taken
/// from the usual boundaries and from REPLAY_HINTS, the integer literals that appeared in the source.
pub struct Ch { id: u64, rng: bool, scale: usize, hint: Option<i64> }
fn hints() -> &'static [i64] {
    static H: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();
    H.get_or_init(|| std::env::var("REPLAY_HINTS").unwrap_or_default().split(',').filter_map(|x| x.parse::<i128>().ok()).map(|x| x as i64).collect())
}
impl Ch {
    pub fn new(id: u64, rng: bool) -> Ch {
        let mut z = id.wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        let mut c = Ch { id: if rng { (z ^ (z >> 31)) | 1 } else { id }, rng, scale: 0, hint: None };
        if rng {
            let h = hints();
            if !h.is_empty() && c.pick(2) == 0 { c.hint = Some(c.of(h).saturating_add(c.pick(3) as i64 - 1)); }
            if c.pick(if h.is_empty() { 24 } else { 6 }) == 0 {
                c.scale = match c.hint { Some(x) if x > 1 && x < 70_000 => x as usize, _ => *c.of(&[9, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 258, 300, 513, 1025]) };
            }
        }
        c
    }
    /// the unusual size this case is about, if there is one no larger than `cap`
    pub fn scaled(&self, cap: usize) -> Option<usize> { if self.scale > 0 && self.scale <= cap { Some(self.scale) } else { None } }
    /// a length up to `max`, or about the unusual size
    pub fn size(&mut self, max: usize, cap: usize) -> usize {
        match self.scaled(cap) { Some(k) if self.pick(3) > 0 => (k + self.pick(4)).saturating_sub(2), _ => self.len(max) }
    }
    pub fn hinted(&mut self) -> Option<i64> { let h = self.hint?; if self.pick(3) == 0 { Some(h) } else { None } }
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.rng {
            self.id ^= self.id << 13;
            self.id ^= self.id >> 7;
            self.id ^= self.id << 17;
            ((self.id.wrapping_mul(0x2545F4914F6CDD1D) >> 33) as usize) % n
        } else {
            let r = (self.id % n as u64) as usize;
            self.id /= n as u64;
            r
        }
    }
    pub fn flag(&mut self) -> bool { self.pick(2) == 1 }
    /// a length: geometric-ish, bounded
    pub fn len(&mut self, max: usize) -> usize { if self.rng { self.pick(max + 1) } else { let mut n = 0; while n < max && self.id > 0 && self.pick(3) != 0 { n += 1; } n } }
    pub fn is_random(&self) -> bool { self.rng }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.pick(v.len()); &v[i] }
}

pub trait Sym: Ord + Clone + Countable + Debug + 'static + std::panic::RefUnwindSafe + std::panic::UnwindSafe {
    /// consecutive runs of symbols; consecutive entries of the returned list are not necessarily adjacent
    fn alphabet(ch: &mut Ch) -> Vec<Self>;
    fn is_last(&self) -> bool;
}
impl Sym for u8 { fn is_last(&self) -> bool { *self == 255 } fn alphabet(ch: &mut Ch) -> Vec<u8> { if let Some(h) = ch.hinted() { let b = (h & 255).max(2).min(253) as u8; return vec![b - 2, b - 1, b, b + 1, b + 2]; } match ch.pick(4) { 0 => vec![0, 1, 2, 3, 4], 1 => vec![97, 98, 99, 100, 101], 2 => vec![251, 252, 253, 254, 255], _ => vec![0, 1, 7, 9, 255] } } }
impl Sym for i32 { fn is_last(&self) -> bool { *self == i32::MAX } fn alphabet(ch: &mut Ch) -> Vec<i32> { if let Some(h) = ch.hinted() { let b = h.max(-2_000_000_000).min(2_000_000_000) as i32; return vec![b - 2, b - 1, b, b + 1, b + 2]; } match ch.pick(4) { 0 => vec![0, 1, 2, 3, 4], 1 => vec![-2, -1, 0, 1, 2], 2 => vec![i32::MIN, i32::MIN + 1, 0, i32::MAX - 1, i32::MAX], _ => vec![-100, -99, 5, 6, 1000] } } }
impl Sym for char { fn is_last(&self) -> bool { *self == '\u{10ffff}' } fn alphabet(ch: &mut Ch) -> Vec<char> { if let Some(h) = ch.hinted() { let b = h.max(0).min(0x10f000) as u32; return (b.saturating_sub(2)..).filter_map(std::char::from_u32).take(5).collect(); } match ch.pick(4) { 0 => vec!['a', 'b', 'c', 'd', 'e'], 1 => vec!['\u{d7fe}', '\u{d7ff}', '\u{e000}', '\u{e001}', '\u{e002}'], 2 => vec!['\u{0}', '\u{1}', '\u{ffff}', '\u{10000}', '\u{10ffff}'], _ => vec!['y', 'z', '\u{d7ff}', '\u{e000}', '\u{10fffe}'] } } }

macro_rules! wide_sym { ($t:ty, $mid:expr, $low:expr) => {
impl Sym for $t { fn is_last(&self) -> bool { *self == <$t>::MAX } fn alphabet(ch: &mut Ch) -> Vec<$t> { if let Some(h) = ch.hinted() { let b = (h as $t).max(<$t>::MIN + 2).min(<$t>::MAX - 2); return vec![b - 2, b - 1, b, b + 1, b + 2]; } let (l, h, m, o): ($t, $t, $t, $t) = (<$t>::MIN, <$t>::MAX, $mid, $low); match ch.pick(4) { 0 => vec![m - 2, m - 1, m, m + 1, m + 2], 1 => vec![o - 2, o - 1, o, o + 1, o + 2], 2 => vec![l, l + 1, m, h - 1, h], _ => { let mut v = vec![o, o + 1, m - 1, m, h]; v.sort(); v } } } }
} }
wide_sym!(u16, 0x8000, 256);
wide_sym!(u64, 1 << 63, 1 << 32);
wide_sym!(i64, 0, 1 << 32);
wide_sym!(i16, 0, 256);

/// a few symbols to build cases from; in some scaled cases very many
pub fn alpha<S: Sym>(ch: &mut Ch) -> Vec<S> {
    let a = S::alphabet(ch);
    let k = match ch.scaled(300) { Some(k) if ch.pick(3) == 0 => k + 2, _ => return a };
    let step = 1 + ch.pick(3);
    let mut v = vec![a[0].clone()];
    while v.len() < k {
        let mut x = v[v.len() - 1].clone();
        let mut wrapped = false;
        for _ in 0..step { match catch_next(&x) { Some(y) if y > x => x = y, _ => { wrapped = true; break; } } }
        if wrapped { break; }
        v.push(x);
    }
    if v.len() < 5 { a } else { v }
}
fn catch_next<S: Sym>(x: &S) -> Option<S> { if x.is_last() { None } else { Some(x.next()) } }

pub fn range<S: Sym>(ch: &mut Ch, a: &[S]) -> (S, S) {
    let i = ch.pick(a.len());
    let j = i + ch.pick(a.len() - i);
    (a[i].clone(), a[j].clone())
}
pub fn word<S: Sym>(ch: &mut Ch, a: &[S], max: usize) -> Vec<S> { let n = ch.len(max); (0..n).map(|_| ch.of(a).clone()).collect() }

/// every word over the first `k` symbols of the alphabet of at most `max` symbols
pub fn words<S: Sym>(a: &[S], k: usize, max: usize) -> Vec<Vec<S>> {
    let a = &a[..k.min(a.len())];
    let mut out: Vec<Vec<S>> = vec![vec![]];
    let mut last: Vec<Vec<S>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for w in &last { for s in a { let mut x = w.clone(); x.push(s.clone()); next.push(x); } }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

pub fn pattern<S: Sym>(ch: &mut Ch, a: &[S], depth: usize) -> Pattern<S> {
    let kind = if depth == 0 { ch.pick(3) } else { ch.pick(7) };
    match kind {
        0 => Pattern::Match(word(ch, a, 3)),
        1 => { let (l, h) = range(ch, a); Pattern::MatchRange(l, h) }
        2 => Pattern::Epsilon,
        3 => { let lo = ch.pick(3) as u32; Pattern::RepeatInfinite(lo, Box::new(pattern(ch, a, depth - 1))) }
        4 => { let lo = ch.pick(3) as u32; let hi = (lo + ch.pick(4) as u32).saturating_sub(if ch.pick(4) == 3 { 2 } else { 0 }); Pattern::Repeat(lo..hi, Box::new(pattern(ch, a, depth - 1))) }
        5 => { let n = ch.len(3); Pattern::MatchAll(siblings(ch, a, depth - 1, n)) }
        _ => { let n = ch.len(3); Pattern::MatchAny(siblings(ch, a, depth - 1, n)) }
    }
}
fn siblings<S: Sym>(ch: &mut Ch, a: &[S], depth: usize, n: usize) -> Vec<Pattern<S>> {
    let mut v: Vec<Pattern<S>> = vec![];
    for i in 0..n {
        let p = if i > 0 && ch.is_random() && ch.pick(3) == 0 { related(ch, a, &v[i - 1]) } else { pattern(ch, a, depth) };
        v.push(p);
    }
    v
}
/// the same pattern again, or one that has something in common with it
pub fn related<S: Sym>(ch: &mut Ch, a: &[S], p: &Pattern<S>) -> Pattern<S> {
    if ch.pick(3) == 0 { return p.clone(); }
    match p {
        Pattern::Match(s) => {
            let mut t = s.clone();
            match ch.pick(5) {
                0 => { t.pop(); }
                1 => t.push(ch.of(a).clone()),
                2 => if !t.is_empty() { t.remove(0); },
                3 => t.insert(0, ch.of(a).clone()),
                _ => if !t.is_empty() { let i = ch.pick(t.len()); t[i] = ch.of(a).clone(); },
            }
            Pattern::Match(t)
        }
        Pattern::MatchRange(l, h) => match ch.pick(3) { 0 => Pattern::Match(vec![if ch.flag() { l.clone() } else { h.clone() }]), 1 => Pattern::RepeatInfinite(ch.pick(2) as u32, Box::new(p.clone())), _ => { let (x, y) = range(ch, a); let hi = if *h > y { h.clone() } else { y }; Pattern::MatchRange(if *l < x { l.clone() } else { x }, hi) } },
        Pattern::RepeatInfinite(n, q) => match ch.pick(3) { 0 => (**q).clone(), 1 => Pattern::Repeat(*n..*n + 1, q.clone()), _ => Pattern::RepeatInfinite(*n ^ 1, q.clone()) },
        Pattern::Repeat(r, q) => match ch.pick(3) { 0 => (**q).clone(), 1 => Pattern::RepeatInfinite(r.start, q.clone()), _ => Pattern::Repeat(r.start..r.end + 1, q.clone()) },
        Pattern::MatchAll(v) | Pattern::MatchAny(v) => {
            let mut w = v.clone();
            if !w.is_empty() { let i = ch.pick(w.len()); if ch.flag() { w.remove(i); } else { let q = related(ch, a, &w[i]); w[i] = q; } }
            match (p, ch.pick(4)) { (_, 0) => Pattern::MatchAll(w), (_, 1) => Pattern::MatchAny(w), (Pattern::MatchAll(_), _) => Pattern::MatchAll(w), _ => Pattern::MatchAny(w) }
        }
        Pattern::Epsilon => Pattern::Match(vec![]),
    }
}

/// a pattern with one part of about `k` parts or repeats
pub fn big_pattern<S: Sym>(ch: &mut Ch, a: &[S], k: usize) -> Pattern<S> {
    let x = ch.of(a).clone();
    let one = |ch: &mut Ch| if ch.flag() { Pattern::Match(vec![x.clone()]) } else { let (l, h) = range(ch, a); Pattern::MatchRange(l, h) };
    let big = match if a.len() > 8 && ch.flag() { 4 } else { ch.pick(6) } {
        0 => { let h = k + ch.pick(3); Pattern::Repeat(k as u32..h as u32, Box::new(one(ch))) }
        1 => Pattern::RepeatInfinite(k as u32, Box::new(one(ch))),
        2 => Pattern::Match((0..k).map(|_| ch.of(a).clone()).collect()),
        3 => Pattern::MatchAll((0..k).map(|_| one(ch)).collect()),
        4 => { let short = ch.flag(); Pattern::MatchAny((0..k).map(|_| if short { if ch.pick(8) > 0 { Pattern::Match(vec![ch.of(a).clone(), ch.of(a).clone()]) } else { one(ch) } } else { Pattern::Match(word(ch, a, 6)) }).collect()) }
        _ => Pattern::Repeat(0..k as u32, Box::new(one(ch))),
    };
    match ch.pick(5) { 0 => { let p = pattern(ch, a, 0); Pattern::MatchAll(vec![p, big]) } 1 => { let p = pattern(ch, a, 0); Pattern::MatchAny(vec![big, p]) } 2 => { let p = pattern(ch, a, 1); Pattern::MatchAll(vec![big, p]) } _ => big }
}
/// a word the pattern matches, most of the time
pub fn sample<S: Sym>(ch: &mut Ch, p: &Pattern<S>) -> Vec<S> {
    match p {
        Pattern::Epsilon => vec![],
        Pattern::Match(s) => s.clone(),
        Pattern::MatchRange(l, h) => vec![if ch.flag() { l.clone() } else { h.clone() }],
        Pattern::MatchAll(v) => v.iter().flat_map(|q| sample(ch, q)).collect(),
        Pattern::MatchAny(v) => if v.is_empty() { vec![] } else { let i = ch.pick(v.len()); sample(ch, &v[i]) },
        Pattern::Repeat(r, q) => { let n = if r.end <= r.start { r.start as usize } else { r.start as usize + match ch.pick(3) { 0 => 0, 1 => (r.end - r.start) as usize - 1, _ => ch.pick((r.end - r.start) as usize) } }; (0..n).flat_map(|_| sample(ch, q)).collect() }
        Pattern::RepeatInfinite(n, q) => { let n = *n as usize + ch.pick(3); (0..n).flat_map(|_| sample(ch, q)).collect() }
    }
}
/// a word the pattern matches, with at most one symbol too many, too few or changed
pub fn near<S: Sym>(ch: &mut Ch, a: &[S], p: &Pattern<S>) -> Vec<S> {
    let mut w = sample(ch, p);
    match ch.pick(6) {
        0 => if !w.is_empty() { let i = ch.pick(w.len()); w.remove(i); },
        1 => { let i = ch.pick(w.len() + 1); w.insert(i, ch.of(a).clone()); }
        2 => if !w.is_empty() { let i = ch.pick(w.len()); w[i] = ch.of(a).clone(); },
        3 => { let e = word(ch, a, 3); w.extend(e); }
        _ => {}
    }
    w
}

thread_local!(static FUEL: std::cell::Cell<usize> = std::cell::Cell::new(0));
pub const OUT_OF_FUEL: &str = "the oracle is out of fuel";
pub fn refuel(n: usize) { FUEL.with(|f| f.set(n)) }
/// a case on which the oracle itself would take too long is given up (and counts for nothing)
pub fn burn(n: usize) { FUEL.with(|f| { let k = f.get(); if k < n { panic!("{}", OUT_OF_FUEL) } f.set(k - n) }) }

/// the positions at which a match of `p` starting at any position in `from` can end
pub fn ends<S: Sym>(p: &Pattern<S>, w: &[S], from: &BTreeSet<usize>) -> BTreeSet<usize> {
    burn(1 + from.len());
    match p {
        Pattern::Epsilon => from.clone(),
        Pattern::Match(s) => from.iter().filter(|&&i| w.len() >= i + s.len() && w[i..i + s.len()] == s[..]).map(|&i| i + s.len()).collect(),
        Pattern::MatchRange(l, h) => from.iter().filter(|&&i| i < w.len() && *l <= w[i] && w[i] <= *h).map(|&i| i + 1).collect(),
        Pattern::MatchAll(v) => v.iter().fold(from.clone(), |f, q| ends(q, w, &f)),
        Pattern::MatchAny(v) => v.iter().flat_map(|q| ends(q, w, from)).collect(),
        Pattern::Repeat(r, q) => {
            let mut out = BTreeSet::new();
            let mut cur = from.clone();
            for k in 0..r.end { if k >= r.start { out.extend(cur.iter().copied()); } cur = ends(q, w, &cur); }
            out
        }
        Pattern::RepeatInfinite(n, q) => {
            let mut cur = from.clone();
            for _ in 0..*n { cur = ends(q, w, &cur); }
            let mut out = cur.clone();
            loop {
                cur = ends(q, w, &cur);
                let before = out.len();
                out.extend(cur.iter().copied());
                if out.len() == before { return out; }
                cur = out.clone();
            }
        }
    }
}
pub fn ends0<S: Sym>(p: &Pattern<S>, w: &[S]) -> BTreeSet<usize> { ends(p, w, &std::iter::once(0).collect()) }
pub fn longest<S: Sym>(p: &Pattern<S>, w: &[S]) -> Option<usize> { ends0(p, w).last().copied() }
pub fn in_lang<S: Sym>(p: &Pattern<S>, w: &[S]) -> bool { ends0(p, w).contains(&w.len()) }
pub fn size<S: Sym>(p: &Pattern<S>) -> usize {
    match p {
        Pattern::MatchAll(v) | Pattern::MatchAny(v) => 1 + v.iter().map(size).sum::<usize>(),
        Pattern::Repeat(r, q) => 1 + size(q) * (1 + r.end as usize),
        Pattern::RepeatInfinite(n, q) => 1 + size(q) * (*n as usize + 2),
        Pattern::Match(s) => 1 + s.len(),
        _ => 1,
    }
}

/// a reader over a vector that counts reads and can misbehave after its end (returns more symbols)
pub struct Counting<S> { pub v: Vec<S>, pub pos: usize, pub reads: usize, pub after: Option<S> }
impl<S: Clone> Counting<S> { pub fn new(v: &[S], after: Option<S>) -> Self { Counting { v: v.to_vec(), pos: 0, reads: 0, after } } }
impl<S: Clone> SymbolReader<S> for Counting<S> {
    fn next_symbol(&mut self) -> Option<S> {
        self.reads += 1;
        self.pos += 1;
        if self.pos <= self.v.len() { Some(self.v[self.pos - 1].clone()) }
        else if self.pos == self.v.len() + 1 { None }
        else { self.after.clone() }
    }
}
