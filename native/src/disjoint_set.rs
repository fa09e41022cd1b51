//! Oracles for D01..D04: a plain relabelling model of a partition.
use crate::cx::*;
use crate::keys::{Id, OneBucket};
use advanced_collections::disjoint_set::DisjointSet;
use std::collections::{BTreeMap, BTreeSet};
use std::collections::hash_map::RandomState;
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash, Hasher};
use std::iter::FromIterator;

/// whatever FastDisjointSet uses
trait HasherOf { type H; }
impl<T: Eq + Hash, S: BuildHasher> HasherOf for DisjointSet<T, S> { type H = S; }
type Fast = <advanced_collections::disjoint_set::FastDisjointSet<u32> as HasherOf>::H;

#[derive(Clone, Debug, PartialEq)]
pub enum Op { Make(usize), Union(usize, usize), Query(usize, usize), Contains(usize), Iterate, Part(usize), Clear, Reserve, Extend(Vec<usize>), ExtendRef(Vec<usize>), Dup, DupFrom(usize, usize) }
use self::Op::*;

#[derive(Clone, Default)]
struct Model { of: BTreeMap<usize, usize>, next: usize }
impl Model {
    fn make(&mut self, x: usize) { let n = self.next; let mut fresh = false; self.of.entry(x).or_insert_with(|| { fresh = true; n }); if fresh { self.next += 1; } }
    fn union(&mut self, a: usize, b: usize) { self.make(a); self.make(b); let (p, q) = (self.of[&a], self.of[&b]); for v in self.of.values_mut() { if *v == q { *v = p; } } }
    fn same(&self, a: usize, b: usize) -> bool { match (self.of.get(&a), self.of.get(&b)) { (Some(x), Some(y)) => x == y, _ => false } }
    fn parts(&self) -> BTreeSet<BTreeSet<usize>> {
        let mut m: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for (k, v) in &self.of { m.entry(*v).or_default().insert(*k); }
        m.into_iter().map(|(_, v)| v).collect()
    }
}
trait El: Eq + Hash + Copy + Debug + Ord {}
impl<T: Eq + Hash + Copy + Debug + Ord> El for T {}

fn apply<T: El, S: BuildHasher + Clone>(prop: &str, ds: &mut DisjointSet<T, S>, m: &mut Model, op: &Op, v: &[T]) -> R {
    match op {
        Make(x) => { ds.make_set(v[*x]); m.make(*x) }
        Union(a, b) => { ds.union(v[*a], v[*b]); m.union(*a, *b) }
        Query(a, b) => { let r = ds.in_union(&v[*a], &v[*b]); if prop == "D01" { eq("in_union during the history", m.same(*a, *b), r)?; } }
        Contains(a) => { let r = ds.contains(&v[*a]); if prop == "D02" { eq("contains during the history", m.of.contains_key(a), r)?; } }
        Iterate => { let n = ds.into_iter().count(); if prop == "D03" { eq("number of subsets during the history", m.parts().len(), n)?; } }
        Part(k) => { for s in ds.into_iter().take(*k) { for _ in s.take(1) {} } }
        Clear => { ds.clear(); *m = Model::default() }
        Reserve => ds.reserve(5),
        Dup => { let c = ds.clone(); let mut old = std::mem::replace(ds, c); old.union(v[0], v[1]); old.make_set(v[0]); old.clear(); }
        DupFrom(a, b) => { let mut c = ds.clone(); c.clear(); c.union(v[*a], v[*b]); c.make_set(v[(*a + 1) % v.len()]); c.clone_from(ds); std::mem::swap(ds, &mut c); c.clear(); c.make_set(v[*b]); }
        Extend(xs) => { ds.extend(Loose(xs.iter().map(|x| v[*x]), xs.iter().sum())); for x in xs { m.make(*x) } }
        ExtendRef(xs) => { let t: Vec<T> = xs.iter().map(|x| v[*x]).collect(); ds.extend(Loose(t.iter(), xs.iter().sum())); for x in xs { m.make(*x) } }
    }
    Ok(())
}
fn pairs_ok<T: Eq + Hash + Debug, S: BuildHasher>(ds: &mut DisjointSet<T, S>, m: &Model, v: &[T], when: &str) -> R {
    for a in 0..v.len() { for b in 0..v.len() {
        let w = m.same(a, b);
        let g = ds.in_union(&v[a], &v[b]);
        if w != g { return Err((format!("in_union({:?}, {:?}) {}", v[a], v[b], when), w.to_string(), g.to_string())); }
    } }
    Ok(())
}
fn size_ok<T: Eq + Hash + Debug, S: BuildHasher>(ds: &DisjointSet<T, S>, m: &Model, v: &[T], when: &str) -> R {
    for a in 0..v.len() {
        let (w, g) = (m.of.contains_key(&a), ds.contains(&v[a]));
        if w != g { return Err((format!("contains({:?}) {}", v[a], when), w.to_string(), g.to_string())); }
    }
    eq("len", m.of.len(), ds.len())?;
    eq("is_empty", m.of.is_empty(), ds.is_empty())
}
fn parts_of<T: Eq + Hash + Debug, S: BuildHasher>(ds: &mut DisjointSet<T, S>, v: &[T]) -> Result<BTreeSet<BTreeSet<usize>>, (String, String, String)> {
    let mut out = BTreeSet::new();
    let mut seen = BTreeSet::new();
    for set in ds {
        let mut s = BTreeSet::new();
        for e in set {
            let i = v.iter().position(|x| x == e).unwrap_or(usize::MAX);
            if !seen.insert(i) { return Err(("element yielded twice".into(), "once".into(), format!("{:?}", e))); }
            s.insert(i);
        }
        if s.is_empty() { return Err(("yielded subset".into(), "not empty".into(), "empty".into())); }
        out.insert(s);
    }
    Ok(out)
}
/// longest chain of links, read off the Debug output; None where that cannot be interpreted
fn depth<T: Debug + Eq + Hash, S: BuildHasher + Debug>(ds: &DisjointSet<T, S>) -> Option<usize> {
    let t = format!("{:?}", ds);
    let mut par = vec![];
    for p in t.split("parent: ").skip(1) { par.push(p.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<usize>().ok()?); }
    let n = par.len();
    if n != ds.len() || par.iter().any(|p| *p >= n) { return None; }
    let mut best = 0;
    for i in 0..n {
        let (mut j, mut k) = (i, 0);
        while par[j] != j { j = par[j]; k += 1; if k > n { return None; } }
        best = best.max(k);
    }
    Some(best)
}
fn log2(n: usize) -> usize { if n < 2 { 0 } else { (usize::BITS - 1 - n.leading_zeros()) as usize } }
fn shallow<T: Debug + Eq + Hash, S: BuildHasher + Debug>(ds: &DisjointSet<T, S>) -> R {
    if let Some(d) = depth(ds) { if d > log2(ds.len()) { return Err((format!("longest chain of links with {} elements", ds.len()), format!("at most {}", log2(ds.len())), d.to_string())); } }
    Ok(())
}

/// The iterator used otherwise than by a plain loop: whatever is skipped, counted or yielded, no subset is lost or repeated.
fn used_in_steps<T: El, S: BuildHasher>(ds: &mut DisjointSet<T, S>, m: &Model, v: &[T]) -> R {
    let parts = m.parts();
    let n = parts.len();
    for k in 0..(n + 2).min(5) {
        for form in 0..8 {
            let mut it = ds.into_iter();
            let mut got: Vec<BTreeSet<usize>> = vec![];
            let mut skipped = 0;
            macro_rules! put { ($s:expr) => { got.push($s.map(|e| v.iter().position(|x| x == e).unwrap_or(usize::MAX)).collect()) } }
            match form {
                0 => { if let Some(s) = it.nth(k) { put!(s) } skipped = k.min(n); for s in it { put!(s) } }
                1 => { for s in it.by_ref().take(k) { put!(s) } for s in it { put!(s) } }
                2 => { for s in it.by_ref().skip(k) { put!(s) } skipped = k.min(n); eq("next() of the iterator after its end", true, it.next().is_none())?; }
                3 => { for _ in 0..k { it.next(); } let (l, h) = it.size_hint(); let c = it.count(); eq("count() of what is left", n.saturating_sub(k), c)?; eq("size_hint() holds the number left", true, l <= c && h.map_or(true, |h| h >= c))?; continue; }
                4 => { for _ in 0..k { it.next(); } let l = it.last(); eq("last() of what is left is there", k < n, l.is_some())?; if let Some(s) = l { put!(s) } skipped = n - (k < n) as usize; }
                5 => { for _ in 0..k { if let Some(s) = it.next() { put!(s) } } it.for_each(|s| put!(s)) }
                6 => { for s in it.step_by(k + 1) { put!(s) } skipped = n - (n + k) / (k + 1); }
                _ => { got = it.fold(vec![], |mut g, s| { g.push(s.map(|e| v.iter().position(|x| x == e).unwrap_or(usize::MAX)).collect()); g }) }
            }
            eq(&format!("number of subsets yielded, way {} of using the iterator with {}", form, k), n - skipped, got.len())?;
            for (i, s) in got.iter().enumerate() { if !parts.contains(s) || got[..i].contains(s) { return Err((format!("subset yielded, way {} of using the iterator with {}", form, k), "each of the subsets at most once".into(), format!("{:?}", got))); } }
        }
    }
    // the elements of one subset, taken otherwise than by a plain loop
    for s in ds.into_iter() {
        let mut t = s.clone();
        let all: Vec<&T> = s.collect();
        let (l, h) = t.size_hint();
        eq("size_hint() of a subset", true, l <= all.len() && h.map_or(true, |h| h >= all.len()))?;
        let x = t.nth(all.len() / 2).map(|x| v.iter().position(|y| x == y));
        eq("nth() of a subset", all.get(all.len() / 2).map(|x| v.iter().position(|y| *x == y)), x)?;
        eq("count() of the rest of a subset", all.len() - all.len() / 2 - 1, t.count())?;
    }
    Ok(())
}

fn finish<T: El, S: BuildHasher + Debug>(prop: &str, ds: &mut DisjointSet<T, S>, m: &Model, v: &[T]) -> R {
    match prop {
        "D01" => {
            pairs_ok(ds, m, v, "after the history")?;
            let _ = ds.into_iter().count();
            pairs_ok(ds, m, v, "after queries and iteration")
        }
        "D02" => {
            size_ok(ds, m, v, "after the history")?;
            pairs_ok(ds, m, v, "(subsets untouched)")?;
            size_ok(ds, m, v, "after queries")
        }
        "D03" => {
            let p = parts_of(ds, v)?;
            if p != m.parts() { return Err(("subsets yielded".into(), format!("{:?}", m.parts()), format!("{:?}", p))); }
            size_ok(ds, m, v, "after iterating")?;
            pairs_ok(ds, m, v, "after iterating")?;
            if v.len() > 6 || m.next % 4 == 3 { used_in_steps(ds, m, v)?; }
            let p = parts_of(ds, v)?;
            if p != m.parts() { return Err(("subsets yielded the second time".into(), format!("{:?}", m.parts()), format!("{:?}", p))); }
            Ok(())
        }
        _ => shallow(ds),
    }
}

fn history<T: El, S: BuildHasher + Clone + Debug>(prop: &str, mut ds: DisjointSet<T, S>, ops: &[Op], v: &[T]) -> R {
    let mut m = Model::default();
    for o in ops {
        apply(prop, &mut ds, &mut m, o, v)?;
        if prop == "D04" { shallow(&ds)?; }
    }
    finish(prop, &mut ds, &m, v)
}
fn built<T: El, S: BuildHasher + Clone + Debug>(prop: &str, mut ds: DisjointSet<T, S>, items: &[usize], ops: &[Op], v: &[T]) -> R {
    let mut m = Model::default();
    for i in items { m.make(*i); }
    if prop == "D02" { size_ok(&ds, &m, v, "after construction")?; }
    if prop == "D03" { let p = parts_of(&mut ds, v)?; if p != m.parts() { return Err(("subsets after construction".into(), format!("{:?}", m.parts()), format!("{:?}", p))); } }
    for o in ops { apply(prop, &mut ds, &mut m, o, v)?; if prop == "D04" { shallow(&ds)?; } }
    finish(prop, &mut ds, &m, v)
}

fn random_op(r: &mut Rng, n: usize) -> Op {
    let x = r.below(n as u64) as usize;
    let y = r.below(n as u64) as usize;
    let some = |r: &mut Rng| (0..r.below(5)).map(|_| r.below(n as u64) as usize).collect::<Vec<_>>();
    match r.below(26) {
        0 | 1 | 2 => Make(x),
        3..=12 => Union(x, y),
        13..=15 => Query(x, y),
        16 => Contains(x),
        17 => Iterate,
        18 => Part(r.below(3) as usize),
        19 => if r.below(6) == 0 { Clear } else { Union(y, x) },
        20 => Reserve,
        21 => Extend(some(r)),
        22 => ExtendRef(some(r)),
        23 => Dup,
        24 => DupFrom(x, y),
        _ => Union(x, (x + 1) % n),
    }
}

/// many elements: labels with the members of each, the smaller relabelled
struct Big { label: Vec<usize>, members: Vec<Vec<usize>> }
impl Big {
    fn union(&mut self, a: usize, b: usize) {
        let (p, q) = (self.label[a], self.label[b]);
        if p == q { return; }
        let (p, q) = if self.members[p].len() < self.members[q].len() { (q, p) } else { (p, q) };
        for x in std::mem::take(&mut self.members[q]) { self.label[x] = p; self.members[p].push(x); }
    }
}
fn large(prop: &str, cx: &mut Cx) {
    let sizes = [65usize, 129, 257, 300, 513, 1000, 1025, 2049, 4097, 10_001, 66_000];
    for (i, n) in hints().iter().copied().chain(sizes).enumerate() { for plan in 0..if n > 20_000 { 3 } else { 6u64 } {
        if cx.done() { return; }
        let seed = cx.seed * 1000 + i as u64 * 10 + plan;
        cx.case(true, &|| format!("{} elements, plan {}, seed {}", n, plan, seed), &mut || {
            let mut g = Rng::new(seed);
            let el = |i: usize| (i as u32).wrapping_mul(2654435761);
            let mut ds: DisjointSet<u32> = match plan % 4 { 0 => DisjointSet::new(), 1 => DisjointSet::from_iter((0..n).map(el)), 2 => DisjointSet::with_capacity(n / 2), _ => { let mut d = DisjointSet::default(); d.extend((0..n).map(el)); d } };
            if plan % 2 == 0 { for k in 0..n { ds.make_set(el(k)); } }
            let mut b = Big { label: (0..n).collect(), members: (0..n).map(|k| vec![k]).collect() };
            let rounds = match plan { 0 => n / 2, 1 => n - 1, 2 => n / 3, 3 => 2 * n, 4 => n, _ => n / 2 };
            for k in 0..rounds {
                let (x, y) = match plan { 1 => (k, k + 1), 2 => (3 * k, 3 * k + 1), 4 => { let w = 1usize << (k * 12 / rounds.max(1)); let x = g.below(n as u64) as usize; (x, (x + w) % n) } _ => (g.below(n as u64) as usize, g.below(n as u64) as usize) };
                ds.union(el(x), el(y));
                b.union(x, y);
                if prop == "D01" { let (x, y) = (g.below(n as u64) as usize, g.below(n as u64) as usize); eq("in_union during the unions", b.label[x] == b.label[y], ds.in_union(&el(x), &el(y)))?; }
            }
            match prop {
                "D01" => for turn in 0..2 {
                    for k in 0..n { let r = b.label[k]; for y in [r, (k + 1) % n, g.below(n as u64) as usize, b.members[r][b.members[r].len() / 2]] { if (b.label[k] == b.label[y]) != ds.in_union(&el(k), &el(y)) { return Err((format!("in_union({}, {}) by number, turn {}", k, y, turn), (b.label[k] == b.label[y]).to_string(), "the opposite".into())); } } }
                    if turn == 0 { let _ = ds.into_iter().count(); }
                },
                "D02" => {
                    eq("len", n, ds.len())?;
                    for k in 0..n { if !ds.contains(&el(k)) { return Err((format!("contains element number {}", k), "true".into(), "false".into())); } }
                    for k in n..n + 300 { if ds.contains(&el(k)) { return Err((format!("contains element number {}", k), "false".into(), "true".into())); } }
                    for k in (0..n).step_by(1 + n / 50) { ds.make_set(el(k)); }
                    eq("len after inserting what is there", n, ds.len())?;
                    for k in (0..n).step_by(1 + n / 200) { let r = b.label[k]; eq("grouping after inserting what is there", true, ds.in_union(&el(k), &el(r)))?; }
                    let mut c = ds.clone();
                    c.clear();
                    eq("len once cleared", 0, c.len())?;
                    c.make_set(el(1)); c.make_set(el(2));
                    eq("after the clear", (2, false, false), (c.len(), c.contains(&el(3)), c.in_union(&el(1), &el(2))))?;
                }
                "D03" => for turn in 0..2 {
                    let back: std::collections::HashMap<u32, usize> = (0..n).map(|k| (el(k), k)).collect();
                    let mut seen = vec![false; n];
                    let mut sets = 0;
                    for s in &mut ds {
                        let ks: Vec<usize> = s.map(|e| back.get(e).copied().unwrap_or(usize::MAX)).collect();
                        eq("elements yielded are there", true, !ks.is_empty() && ks.iter().all(|k| *k < n))?;
                        let l = b.label[ks[0]];
                        if ks.len() != b.members[l].len() || ks.iter().any(|k| b.label[*k] != l) { return Err((format!("subset of element number {}, turn {}", ks[0], turn), format!("{} elements", b.members[l].len()), format!("{} elements", ks.len()))); }
                        for k in ks { if seen[k] { return Err(("element yielded twice".into(), "once".into(), k.to_string())); } seen[k] = true; }
                        sets += 1;
                    }
                    eq("number of subsets", b.members.iter().filter(|m| !m.is_empty()).count(), sets)?;
                    eq("every element was yielded", true, seen.iter().all(|x| *x))?;
                },
                _ => shallow(&ds)?,
            }
            Ok(())
        });
    } }
}

/// unions that make one tree of 2^k elements starting at `at` as deep as it can get, when the first named (or, mirrored,
/// the second) of two equal trees stays on top; the top is then the first element (the last one)
fn deepest(ds: &mut DisjointSet<u32>, at: u32, k: u32, mirrored: bool) {
    for j in 0..k { let w = 1u32 << j; for i in (0..1u32 << k).step_by(2 * w as usize) { if mirrored { ds.union(at + i + w - 1, at + i + 2 * w - 1) } else { ds.union(at + i, at + i + w) } } }
}
/// the deepest trees there are, of every size, first used in every way, and joined with one another
fn deep(prop: &str, cx: &mut Cx) {
    let most = if cx.thorough { 17 } else { 14u32 };
    for k in 1..=most { for mirrored in [false, true] { for way in 0..6u32 {
        if cx.done() || prop == "D04" { break; }
        let s = cx.rng.next();
        cx.case(true, &|| format!("a tree of 2^{} elements as deep as can be, mirrored {}, used in way {}, seed {}", k, mirrored, way, s), &mut || {
            let n = 1u32 << k;
            let mut g = Rng::new(s);
            let mut ds: DisjointSet<u32> = DisjointSet::new();
            deepest(&mut ds, 0, k, mirrored);
            ds.make_set(n);
            // one look-up at the deepest place, whatever it is, before any other has shortened the way
            let far = if mirrored { 0 } else { n - 1 };
            let top = n - 1 - far;
            let mut more = n + 1;
            match way {
                0 => { eq("in_union of the two ends", true, ds.in_union(&far, &top))?; eq("in_union with a stranger", false, ds.in_union(&far, &n))?; }
                1 => { eq("in_union of the two ends", true, ds.in_union(&top, &far))?; eq("in_union with a stranger", false, ds.in_union(&n, &far))?; }
                2 => { ds.union(far, n); eq("in_union with the element joined", true, ds.in_union(&top, &n))?; }
                3 => { deepest(&mut ds, n + 1, k, mirrored); more = 2 * n + 1; ds.union(far, n + 1 + far); eq("in_union across the join", true, ds.in_union(&top, &(n + 1 + top)))?; }
                4 => { ds.make_set(far); eq("in_union of the two ends", true, ds.in_union(&far, &top))?; }
                _ => {}
            }
            let of = |x: u32| if x < n { 0 } else if x == n { if way == 2 { 0 } else { 1 } } else { 0 };
            if prop == "D03" || way == 5 {
                let mut sets: Vec<Vec<u32>> = (&mut ds).into_iter().map(|s| { let mut v: Vec<u32> = s.copied().collect(); v.sort(); v }).collect();
                sets.sort();
                let want: Vec<Vec<u32>> = match way { 2 => vec![(0..=n).collect()], _ => vec![(0..more).filter(|x| *x != n).collect(), vec![n]] };
                if sets != want { return Err(("subsets".into(), format!("sizes {:?}", want.iter().map(|v| v.len()).collect::<Vec<_>>()), format!("sizes {:?}, or other elements", sets.iter().map(|v| v.len()).collect::<Vec<_>>()))); }
            }
            if prop == "D02" { eq("len", more as usize, ds.len())?; }
            for j in 0..more {
                let x = if g.bool() { j } else { more - 1 - j };
                let y = g.below(more as u64) as u32;
                if prop == "D02" { eq("contains", true, ds.contains(&x))?; }
                eq(&format!("in_union({}, {})", x, y), of(x) == of(y), ds.in_union(&x, &y))?;
                eq(&format!("in_union({}, {})", x, top), of(x) == of(top), ds.in_union(&x, &top))?;
            }
            Ok(())
        });
    } } }
    if prop != "D04" { return; }
    let most = if cx.thorough { 13 } else { 10u32 };
    for k in 1..=most { for l in 0..=k { for way in 0..4u32 {
        if cx.done() { return; }
        cx.case(true, &|| format!("trees of 2^{} and 2^{} elements as deep as can be, joined in way {}", k, l, way), &mut || {
            let mirrored = way & 1 == 1;
            let mut ds: DisjointSet<u32> = DisjointSet::new();
            deepest(&mut ds, 0, k, mirrored);
            shallow(&ds)?;
            let at = 1u32 << k;
            if l == 0 { ds.make_set(at) } else { deepest(&mut ds, at, l, mirrored) }
            let (a, b) = if mirrored { (at - 1, at + (1 << l) - 1) } else { (0, at) };
            if way & 2 == 0 { ds.union(a, b) } else { ds.union(b, a) }
            shallow(&ds)?;
            // and the result with another of the second size, and with one element
            let at = at + (1 << l);
            if l == 0 { ds.make_set(at) } else { deepest(&mut ds, at, l, mirrored) }
            let c = if mirrored { at + (1 << l) - 1 } else { at };
            if way & 2 == 0 { ds.union(a, c) } else { ds.union(c, a) }
            shallow(&ds)?;
            ds.union(u32::MAX, b);
            shallow(&ds)
        });
    } } }
}

/// user code that panics: hashing of one element, cloning when the fuse has burnt down, an iterator in mid-way
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Bomb(u32);
const POISON: u32 = 77;
thread_local! { static FUSE: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
impl Hash for Bomb { fn hash<H: Hasher>(&self, h: &mut H) { if self.0 == POISON { panic!("hash") } self.0.hash(h) } }
impl Clone for Bomb { fn clone(&self) -> Bomb { FUSE.with(|f| { if f.get() == 1 { f.set(0); panic!("clone") } if f.get() > 1 { f.set(f.get() - 1) } }); Bomb(self.0) } }
fn faults(prop: &str, cx: &mut Cx) {
    for _ in 0..if cx.thorough { 20_000 } else { 2_000 } {
        if cx.done() { return; }
        let s = cx.rng.next();
        cx.case(true, &|| format!("history with panics out of the elements' Hash and Clone and out of iterators, seed {}", s), &mut || {
            let mut g = Rng::new(s);
            let n = 2 + g.below(9) as usize;
            let b = |i: usize| Bomb(i as u32);
            let bad = || Bomb(POISON);
            let mut m = Model::default();
            let mut ds: DisjointSet<Bomb, RandomState> = DisjointSet::new();
            for turn in 0..2 + g.below(14) {
                let (x, y) = (g.below(n as u64) as usize, g.below(n as u64) as usize);
                // what may be there afterwards: nothing done, or a part of the steps
                let mut may = vec![m.clone()];
                let kind = g.below(12);
                let many: Vec<usize> = (0..g.below(5)).map(|_| g.below(n as u64) as usize).collect();
                let mut prefixes = |m: &Model| { let mut c = m.clone(); for i in &many { c.make(*i); may.push(c.clone()); } };
                match kind {
                    0 => { catch(|| ds.make_set(bad())) }
                    1 => { let mut c = m.clone(); c.make(x); let r = catch(|| ds.union(b(x), bad())); may.push(c); r }
                    2 => { let mut c = m.clone(); c.make(x); let r = catch(|| ds.union(bad(), b(x))); may.push(c); r }
                    3 => catch(|| { ds.in_union(&b(x), &bad()); }) | catch(|| { ds.in_union(&bad(), &b(x)); }) | catch(|| { ds.contains(&bad()); }),
                    4 => { prefixes(&m); catch(|| ds.extend(Loose(many.iter().map(|i| b(*i)).chain(Some(bad())).collect::<Vec<_>>().into_iter(), x))) }
                    5 => { prefixes(&m); let mut k = 0; catch(|| ds.extend(std::iter::from_fn(|| { k += 1; if k > many.len() { panic!("next") } Some(b(many[k - 1])) }))) }
                    6 => {
                        let mut o: DisjointSet<Bomb, RandomState> = many.iter().map(|i| b(*i)).collect();
                        o.union(b(x), b(y));
                        let mut c = Model::default();
                        for i in &many { c.make(*i) }
                        c.union(x, y);
                        may.push(c.clone());
                        may.push(Model::default());
                        FUSE.with(|f| f.set(1 + g.below(4) as u32));
                        let r = catch(|| ds.clone_from(&o));
                        FUSE.with(|f| f.set(0));
                        if !r { may = vec![c]; }
                        r
                    }
                    7 => { FUSE.with(|f| f.set(1 + g.below(4) as u32)); let r = catch(|| { let mut c = ds.clone(); c.union(b(x), b(y)); }); FUSE.with(|f| f.set(0)); r }
                    8 => { let mut k = 0; catch(|| for s in &mut ds { for _ in s { k += 1; if k > x { panic!("caller") } } }) }
                    9 => { ds.make_set(b(x)); m.make(x); continue }
                    _ => { ds.union(b(x), b(y)); m.union(x, y); continue }
                };
                let there: Vec<bool> = (0..n).map(|i| ds.contains(&b(i))).collect();
                may.retain(|c| (0..n).all(|i| c.of.contains_key(&i) == there[i]));
                if kind == 6 && may.len() > 1 { let v: Vec<Bomb> = (0..n as u32).map(Bomb).collect(); if let Some(k) = may.iter().position(|c| pairs_ok(&mut ds, c, &v, "").is_ok()) { may.swap(0, k) } }
                match may.first() {
                    Some(c) => m = c.clone(),
                    None if prop == "D02" => return Err((format!("elements contained after a panic in operation {} (kind {})", turn, kind), format!("{:?} or with some of the items", m.of.keys()), format!("{:?}", there))),
                    None => return Ok(()),
                }
                // the element that panics is in nothing
                eq("len after a panic", m.of.len(), ds.len())?;
            }
            let v: Vec<Bomb> = (0..n as u32).map(Bomb).collect();
            match prop {
                "D01" => { pairs_ok(&mut ds, &m, &v, "after panics")?; for i in 1..n { ds.union(b(0), b(i)); m.union(0, i); pairs_ok(&mut ds, &m, &v, "after panics and unions")?; } Ok(()) }
                "D02" => { size_ok(&ds, &m, &v, "after panics")?; for i in 0..n { ds.make_set(b(i)); m.make(i); size_ok(&ds, &m, &v, "after panics and insertions")?; } pairs_ok(&mut ds, &m, &v, "after panics and insertions") }
                "D03" => { for _ in 0..2 { let p = parts_of(&mut ds, &v)?; if p != m.parts() { return Err(("subsets yielded after panics".into(), format!("{:?}", m.parts()), format!("{:?}", p))); } } Ok(()) }
                _ => { shallow(&ds)?; for i in 1..n { ds.union(b(i), b(0)); shallow(&ds)?; } Ok(()) }
            }
        });
    }
}

pub fn run(prop: &str, cx: &mut Cx) -> bool {
    let prop: &str = &prop.to_string();
    cx.rule = "a history counts when it contains at least one union or one bulk insertion".into();
    large(prop, cx);
    deep(prop, cx);
    faults(prop, cx);
    let v4: Vec<u32> = (0..5).collect();
    // every history of a given length over four elements (a fifth is never added)
    let mut alpha: Vec<Op> = vec![Iterate, Clear];
    for i in 0..4 { alpha.push(Make(i)); for j in 0..4 { alpha.push(Union(i, j)); if i < j { alpha.push(Query(i, j)); } } }
    let len = if cx.thorough { 4 } else { 3 };
    let k = alpha.len();
    for code in 0..k.pow(len as u32) {
        if cx.done() { return true; }
        let mut c = code;
        let ops: Vec<Op> = (0..len).map(|_| { let o = alpha[c % k].clone(); c /= k; o }).collect();
        let nt = ops.iter().any(|o| matches!(o, Union(..)));
        cx.case(nt, &|| format!("{:?}", ops), &mut || history(prop, DisjointSet::<u32>::new(), &ops, &v4));
    }
    cx.exhaustive.push(format!("all histories of {} operations out of {} on four elements", len, k));
    // unions only, five elements, every sequence of four unions of distinct elements
    let un: Vec<Op> = (0..5).flat_map(|i| (0..5).filter(move |j| *j != i).map(move |j| Union(i, j))).collect();
    let v6: Vec<u32> = (0..6).collect();
    let l = if cx.thorough { 4 } else { 3 };
    for code in 0..un.len().pow(l as u32) {
        if cx.done() { return true; }
        let mut c = code;
        let ops: Vec<Op> = (0..l).map(|_| { let o = un[c % un.len()].clone(); c /= un.len(); o }).collect();
        cx.case(true, &|| format!("{:?}", ops), &mut || history(prop, DisjointSet::<u32>::new(), &ops, &v6));
    }
    // random histories
    let rounds = if cx.thorough { 60_000 } else { 4_000 };
    for r in 0..rounds {
        if cx.done() { return true; }
        let n = match r % 4 { 0 => 4, 1 => 8, 2 => 17, _ => 40 };
        let len = 1 + cx.rng.below(3 * n as u64) as usize;
        let mut g = Rng::new(cx.rng.next());
        let ops: Vec<Op> = (0..len).map(|_| random_op(&mut g, n)).collect();
        let items: Vec<usize> = (0..g.below(n as u64)).map(|_| g.below(n as u64) as usize).collect();
        let nt = ops.iter().any(|o| matches!(o, Union(..) | Extend(_) | ExtendRef(_)));
        let v: Vec<u32> = (0..n as u32 + 1).map(|x| x.wrapping_mul(2654435761)).collect();
        let w: Vec<&'static str> = ["", "a", "b", "ab", "ba", "aa", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"].to_vec();
        let ids: Vec<Id> = (0..n as u32 + 1).map(|x| Id(x, r as u32)).collect();
        match r % 9 {
            0 => cx.case(nt, &|| format!("new() {:?}", ops), &mut || history(prop, DisjointSet::<u32>::new(), &ops, &v)),
            1 => cx.case(nt, &|| format!("with_capacity(7) {:?}", ops), &mut || history(prop, DisjointSet::<u32>::with_capacity(7), &ops, &v)),
            2 => cx.case(nt, &|| format!("with_hasher(all collide) {:?}", ops), &mut || history(prop, DisjointSet::with_hasher(OneBucket), &ops, &v)),
            3 => cx.case(nt, &|| format!("with_capacity_and_hasher(3, all collide), elements equal by id only {:?}", ops), &mut || history(prop, DisjointSet::with_capacity_and_hasher(3, OneBucket), &ops, &ids)),
            4 => cx.case(true, &|| format!("from_iter({:?}) {:?}", items, ops), &mut || { let t: Vec<u32> = items.iter().map(|i| v[*i]).collect(); built(prop, DisjointSet::<u32, RandomState>::from_iter(Loose(t.into_iter(), items.iter().sum())), &items, &ops, &v) }),
            5 => cx.case(true, &|| format!("from_iter(&{:?}) {:?}", items, ops), &mut || { let t: Vec<u32> = items.iter().map(|i| v[*i]).collect(); built(prop, DisjointSet::<u32, RandomState>::from_iter(Loose(t.iter(), items.iter().sum())), &items, &ops, &v) }),
            6 => cx.case(nt, &|| format!("FastDisjointSet, new() {:?}", ops), &mut || history(prop, DisjointSet::<u32, Fast>::new(), &ops, &v)),
            7 => cx.case(true, &|| format!("FastDisjointSet, from_iter({:?}) {:?}", items, ops), &mut || { let t: Vec<u32> = items.iter().map(|i| v[*i]).collect(); built(prop, DisjointSet::<u32, Fast>::from_iter(Loose(t.iter(), items.iter().sum())), &items, &ops, &v) }),
            _ => { if n < w.len() { cx.case(nt, &|| format!("default(), strings {:?}", ops), &mut || history(prop, <DisjointSet<&str>>::default(), &ops, &w[..n + 1])); } }
        }
    }
    if prop == "D02" || prop == "D03" {
        // items repeated in the source, and bulk insertion into existing subsets
        for code in 0..256usize {
            let items: Vec<usize> = (0..4).map(|i| code >> (2 * i) & 3).collect();
            for ops in [vec![], vec![Union(0, 1)], vec![Union(2, 3), Extend(vec![2, 4, 4])], vec![Clear, Make(1)]] {
                cx.case(true, &|| format!("from_iter({:?}) {:?}", items, ops), &mut || { let t: Vec<u32> = items.iter().map(|i| v6[*i]).collect(); built(prop, DisjointSet::<u32, RandomState>::from_iter(Loose(t.into_iter(), items.iter().sum())), &items, &ops, &v6) });
                cx.case(true, &|| format!("from_iter(&{:?}) {:?}", items, ops), &mut || { let t: Vec<u32> = items.iter().map(|i| v6[*i]).collect(); built(prop, DisjointSet::<u32, RandomState>::from_iter(Loose(t.iter(), items.iter().sum())), &items, &ops, &v6) });
            }
        }
    }
    if prop == "D04" { adversarial(cx); }
    true
}

/// orders of unions that build deep trees where the linking rule is wrong
fn adversarial(cx: &mut Cx) {
    let n = 256usize;
    let mut plans: Vec<(String, Vec<(usize, usize)>)> = vec![
        ("ascending (i, i+1)".into(), (0..n - 1).map(|i| (i, i + 1)).collect()),
        ("ascending (i+1, i)".into(), (0..n - 1).map(|i| (i + 1, i)).collect()),
        ("descending (i, i+1)".into(), (0..n - 1).rev().map(|i| (i, i + 1)).collect()),
        ("descending (i+1, i)".into(), (0..n - 1).rev().map(|i| (i + 1, i)).collect()),
        ("star (0, i)".into(), (1..n).map(|i| (0, i)).collect()),
        ("star (i, 0)".into(), (1..n).map(|i| (i, 0)).collect()),
    ];
    // equal trees joined pairwise, naming first or last members, in either order, plus lopsided joins
    for k in 0..8usize {
        let mut p = vec![];
        let mut w = 1;
        while w < n { for i in (0..n).step_by(2 * w) { let a = if k & 1 == 0 { i } else { i + w - 1 }; let b = if k & 2 == 0 { i + w } else { i + 2 * w - 1 }; p.push(if k & 4 == 0 { (a, b) } else { (b, a) }); } w *= 2; }
        plans.push((format!("pairwise, variant {}", k), p));
    }
    // a deep tree repeatedly joined with fresh pairs and single elements
    for k in 0..8usize {
        let mut p = vec![];
        let mut top = 0;
        let mut i = 1;
        while i + 1 < n { if k & 1 == 0 { p.push((i, i + 1)); } else { p.push((i + 1, i)); } let t = if k & 2 == 0 { i } else { i + 1 }; p.push(if k & 4 == 0 { (t, top) } else { (top, t) }); if k & 4 == 0 { top = t; } i += 2; }
        plans.push((format!("chain of pairs, variant {}", k), p));
    }
    for (name, plan) in &plans {
        cx.case(true, &|| format!("{} elements, unions {}", n, name), &mut || {
            let mut ds: DisjointSet<usize> = DisjointSet::new();
            for (i, (a, b)) in plan.iter().enumerate() { ds.union(*a, *b); if i % 16 == 0 || i + 1 == plan.len() { shallow(&ds)?; } }
            Ok(())
        });
    }
    // random joins of whatever is the representative of two groups, guided by the links in the Debug output
    let rounds = if cx.thorough { 600 } else { 60 };
    for _ in 0..rounds {
        let s = cx.rng.next();
        cx.case(true, &|| format!("64 elements, joins of random representatives, seed {}", s), &mut || {
            let mut g = Rng::new(s);
            let m = 64u32;
            let mut ds: DisjointSet<u32> = DisjointSet::new();
            let mut groups: Vec<Vec<u32>> = (0..m).map(|x| vec![x]).collect();
            while groups.len() > 1 {
                let a = groups.swap_remove(g.below(groups.len() as u64) as usize);
                let k = g.below(groups.len() as u64) as usize;
                let b = &mut groups[k];
                // name the most or the least recently joined member
                let x = if g.bool() { a[0] } else { a[a.len() - 1] };
                let y = if g.bool() { b[0] } else { b[b.len() - 1] };
                if g.bool() { ds.union(x, y) } else { ds.union(y, x) }
                b.extend(a);
                shallow(&ds)?;
            }
            Ok(())
        });
    }
    // a long chain of unions, then lookups, on a small stack (a deep recursion ends the process)
    let big = if cx.thorough { 400_000u32 } else { 100_000 };
    for k in 0..4u32 {
        cx.case(true, &|| format!("{} elements chained, variant {}, on a thread with a 256 KiB stack", big, k), &mut || {
            let t = std::thread::Builder::new().stack_size(256 * 1024).spawn(move || {
                let mut ds: DisjointSet<u32> = DisjointSet::with_capacity(big as usize);
                for i in 0..big - 1 { let (a, b) = match k { 0 => (i, i + 1), 1 => (i + 1, i), 2 => (big - 1 - i, big - 2 - i), _ => (big - 2 - i, big - 1 - i) }; ds.union(a, b); }
                ds.in_union(&0, &(big - 1)) && ds.in_union(&(big / 2), &0)
            });
            eq("everything joined", Some(true), t.ok().and_then(|h| h.join().ok()))
        });
    }
}
