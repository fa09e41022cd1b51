//! Oracles for K01..K05: a plain ordered map of counts.
use crate::cx::*;
use crate::keys::{Id, OneBucket};
use advanced_collections::counter::Counter;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};
use std::iter::FromIterator;
use std::sync::atomic::{AtomicU64, Ordering};

/// every instance hashes differently
#[derive(Clone, Debug)]
pub struct Salted(u64);
static SALT: AtomicU64 = AtomicU64::new(1);
impl Default for Salted { fn default() -> Self { Salted(SALT.fetch_add(1, Ordering::Relaxed)) } }
impl BuildHasher for Salted { type Hasher = DefaultHasher; fn build_hasher(&self) -> DefaultHasher { let mut h = DefaultHasher::new(); self.0.hash(&mut h); h } }
use fnv::FnvBuildHasher as Fnv;
/// whatever FastCounter uses
trait HasherOf { type H; }
impl<T: Hash + Eq, S: BuildHasher> HasherOf for Counter<T, S> { type H = S; }
type Fast = <advanced_collections::counter::FastCounter<i32> as HasherOf>::H;

trait El: Eq + Hash + Clone + Debug {}
impl<T: Eq + Hash + Clone + Debug> El for T {}
type M = BTreeMap<usize, usize>;


fn as_map<T: El>(m: &M, v: &[T]) -> Vec<(T, usize)> { m.iter().map(|(k, n)| (v[*k].clone(), *n)).collect() }
fn map_of<T: El, S: BuildHasher + Default>(m: &M, v: &[T]) -> HashMap<T, usize, S> { let mut h = HashMap::with_hasher(S::default()); for (k, n) in as_map(m, v) { h.insert(k, n); } h }
fn counter_of<T: El, S: BuildHasher + Default>(m: &M, v: &[T]) -> Counter<T, S> { Counter::from_hashmap(map_of(m, v)) }

/// where an element stands in the list of all elements
struct At<'a, T: El> { v: &'a [T], by: HashMap<&'a T, usize> }
impl<'a, T: El> At<'a, T> {
    fn new(v: &'a [T]) -> Self { At { v, by: if v.len() > 200 { v.iter().enumerate().map(|(i, x)| (x, i)).collect() } else { HashMap::new() } } }
    fn of(&self, x: &T) -> usize { (if self.v.len() > 200 { self.by.get(x).copied() } else { self.v.iter().position(|y| x == y) }).unwrap_or(usize::MAX) }
}
/// the whole contents, through look-ups and through a listing
fn same<T: El, S: BuildHasher>(what: &str, c: &HashMap<T, usize, S>, m: &M, v: &[T]) -> R {
    for (i, x) in v.iter().enumerate() {
        let (w, g) = (m.get(&i).copied(), c.get(x).copied());
        if w != g { return Err((format!("count of {:?} {}", x, what), format!("{:?}", w), format!("{:?}", g))); }
    }
    let mut l = M::new();
    let at = At::new(v);
    for (k, n) in c.iter() {
        let i = at.of(k);
        if l.insert(i, *n).is_some() { return Err((format!("listing {}", what), "every element once".into(), format!("{:?} twice", k))); }
    }
    if &l != m { return Err((format!("listing {}", what), format!("{:?}", m), format!("{:?}", l))); }
    eq(&format!("len {}", what), m.len(), c.len())
}
fn add_model(m: &mut M, items: &[usize]) { for i in items { *m.entry(*i).or_insert(0) += 1; } }

#[derive(Clone, Debug)]
enum Op { Push(usize), Extend(Vec<usize>, usize), ExtendRef(Vec<usize>) }
use self::Op::*;

fn apply<T: El + Copy, S: BuildHasher>(c: &mut Counter<T, S>, m: &mut M, o: &Op, v: &[T]) {
    match o {
        Push(i) => { c.push(v[*i]); add_model(m, &[*i]) }
        Extend(xs, h) => { c.extend(Loose(xs.iter().map(|i| v[*i]).collect::<Vec<_>>().into_iter(), *h)); add_model(m, xs) }
        ExtendRef(xs) => { let t: Vec<T> = xs.iter().map(|i| v[*i]).collect(); c.extend(Loose(t.iter(), xs.iter().sum())); add_model(m, xs) }
    }
}
fn build<T: El, S: BuildHasher + Default>(how: usize, items: &[usize], v: &[T]) -> Counter<T, S> {
    let t: Vec<T> = items.iter().map(|i| v[*i].clone()).collect();
    match how {
        0 => Counter::from_iter(Loose(t.into_iter(), items.iter().sum())),
        1 => Counter::from_iter(Loose(t.iter(), items.iter().sum())),
        2 => Counter::from_iter(Loose(t.into_iter(), 1)),
        3 => { let mut c = Counter::with_capacity(2); for x in t { c.push(x) } c }
        4 => { let mut c = Counter::with_hasher(S::default()); c.extend(t); c }
        5 => { let mut c = Counter::with_capacity_and_hasher(3, S::default()); for x in t { c.extend(Some(x)) } c }
        6 => { let mut c: Counter<T, S> = Counter::new(); c.extend(t.into_iter().filter(|_| true)); c }
        _ => { let mut c: Counter<T, S> = Default::default(); for x in t { c.push(x) } c }
    }
}
fn history<T: El + Copy, S: BuildHasher + Default>(how: usize, items: &[usize], ops: &[Op], v: &[T]) -> R {
    let mut c: Counter<T, S> = build(how, items, v);
    let mut m = M::new();
    add_model(&mut m, items);
    same("after construction", &c, &m, v)?;
    for o in ops { apply(&mut c, &mut m, o, v); }
    same("after all items", &c, &m, v)
}
fn owned_history<T: El, S: BuildHasher + Default>(how: usize, items: &[usize], more: &[usize], v: &[T]) -> R {
    let mut c: Counter<T, S> = build(how, items, v);
    let mut m = M::new();
    add_model(&mut m, items);
    same("after construction", &c, &m, v)?;
    c.extend(more.iter().map(|i| v[*i].clone()));
    add_model(&mut m, more);
    for i in more.iter().take(3) { c.push(v[*i].clone()); add_model(&mut m, &[*i]); same("after a push", &c, &m, v)?; }
    same("after all items", &c, &m, v)
}

fn arith<T: El, A: BuildHasher + Default, B: BuildHasher + Default>(plus: bool, form: usize, l: &M, r: &M, v: &[T]) -> R {
    let mut want = l.clone();
    if plus { for (k, n) in r { *want.entry(*k).or_insert(0) += n; } }
    else { for (k, n) in r { if let Some(x) = want.get(k).copied() { if x <= *n { want.remove(k); } else { want.insert(*k, x - n); } } } }
    let mut a: Counter<T, A> = counter_of(l, v);
    let b: Counter<T, B> = counter_of(r, v);
    match (plus, form) {
        (true, 0) => same("of a + b", &(a + b), &want, v),
        (true, 1) => { let c = a + &b; same("of a + &b", &c, &want, v)?; same("of b after a + &b", &b, r, v) }
        (true, 2) => { a += b; same("after a += b", &a, &want, v) }
        (true, _) => { a += &b; same("after a += &b", &a, &want, v)?; same("of b after a += &b", &b, r, v) }
        (false, 0) => same("of a - b", &(a - b), &want, v),
        (false, 1) => { let c = a - &b; same("of a - &b", &c, &want, v)?; same("of b after a - &b", &b, r, v) }
        (false, 2) => { a -= b; same("after a -= b", &a, &want, v) }
        (false, _) => { a -= &b; same("after a -= &b", &a, &want, v)?; same("of b after a -= &b", &b, r, v) }
    }
}

fn listing<T: El, S: BuildHasher + Default>(m: &M, v: &[T]) -> R {
    let c: Counter<T, S> = counter_of(m, v);
    let at = At::new(v);
    let check = |what: &str, l: &[(T, usize)]| -> R {
        for w in l.windows(2) { if w[0].1 < w[1].1 { return Err((format!("{}: order", what), "non-increasing counts".into(), format!("{:?}", l))); } }
        let mut g: Vec<(usize, usize)> = l.iter().map(|(k, n)| (at.of(k), *n)).collect();
        g.sort();
        eq(&format!("{}: entries", what), m.iter().map(|(k, n)| (*k, *n)).collect::<Vec<_>>(), g)
    };
    let a = c.most_common();
    check("most_common", &a)?;
    same("after most_common", &c, m, v)?;
    check("most_common again", &c.most_common())?;
    check("into_most_common", &c.into_most_common())
}

fn views<T: El, A: BuildHasher + Default, B: BuildHasher + Default + Clone>(m: &M, v: &[T], seed: u64) -> R {
    let at = At::new(v);
    let h: HashMap<T, usize, A> = map_of(m, v);
    let c: Counter<T, B> = Counter::from(&h);
    same("of Counter::from(&map)", &c, m, v)?;
    same("of the map after Counter::from(&map)", &h, m, v)?;
    let c: Counter<T, B> = Counter::from(map_of::<T, A>(m, v));
    same("of Counter::from(map)", &c, m, v)?;
    let mut c: Counter<T, A> = Counter::from_hashmap(h);
    same("of Counter::from_hashmap(map)", &c, m, v)?;
    let mut l: Vec<(usize, usize)> = (&c).into_iter().map(|(k, n)| (at.of(k), *n)).collect();
    l.sort();
    eq("borrowing iteration", m.iter().map(|(k, n)| (*k, *n)).collect::<Vec<_>>(), l)?;
    // changes through the mutable views
    let mut g = Rng::new(seed);
    let mut w = m.clone();
    let mut seen = 0;
    for (k, n) in &mut c {
        let i = at.of(k);
        eq("count shown by mutable iteration", m.get(&i).copied(), Some(*n))?;
        if g.bool() { let x = g.below(9) as usize; *n = x; w.insert(i, x); }
        seen += 1;
    }
    eq("entries shown by mutable iteration", m.len(), seen)?;
    same("after changes by mutable iteration", &c, &w, v)?;
    for _ in 0..4 {
        let i = g.below(v.len() as u64) as usize;
        match g.below(4) {
            0 => { c.insert(v[i].clone(), 5); w.insert(i, 5); }
            1 => { let a = c.remove(&v[i]); let b = w.remove(&i); eq("remove through the map view", b, a)?; }
            2 => { if let Some(x) = c.get_mut(&v[i]) { *x = x.wrapping_add(1); } if let Some(x) = w.get_mut(&i) { *x = x.wrapping_add(1); } }
            _ => { *c.entry(v[i].clone()).or_insert(2) = 3; w.insert(i, 3); }
        }
        same("after a change through the map view", &c, &w, v)?;
    }
    let mut l: Vec<(usize, usize)> = c.into_iter().map(|(k, n)| (at.of(&k), n)).collect();
    l.sort();
    eq("consuming iteration", w.iter().map(|(k, n)| (*k, *n)).collect::<Vec<_>>(), l)?;
    let none = M::new();
    same("of new()", &Counter::<T, B>::new(), &none, v)?;
    same("of default()", &Counter::<T, B>::default(), &none, v)?;
    let k = (seed % 5) as usize;
    let c = Counter::<T, B>::with_capacity(k);
    same("of with_capacity()", &c, &none, v)?;
    if c.capacity() < k { return Err(("capacity of with_capacity".into(), format!("at least {}", k), c.capacity().to_string())); }
    same("of with_hasher()", &Counter::with_hasher(B::default()), &none, v)?;
    same("of with_capacity_and_hasher()", &Counter::with_capacity_and_hasher(k, B::default()), &none, v)?;
    let o: Counter<T, B> = counter_of(m, v);
    let mut d = o.clone();
    same("of a clone", &d, m, v)?;
    let i = g.below(v.len() as u64) as usize;
    let mut w = m.clone();
    d.insert(v[i].clone(), 3); w.insert(i, 3);
    same("of a changed clone", &d, &w, v)?;
    same("of the counter cloned", &o, m, v)?;
    let mut e: Counter<T, B> = counter_of(&w, v);
    e.insert(v[i].clone(), 8);
    e.clone_from(&o);
    same("of clone_from", &e, m, v)?;
    let mut w = m.clone();
    e.insert(v[i].clone(), 4); w.insert(i, 4);
    same("of what clone_from made, changed", &e, &w, v)?;
    same("of the source of clone_from", &o, m, v)?;
    // the iterators used in other ways than by a for loop
    let e: Counter<T, B> = counter_of(m, v);
    let at_ = |l: Vec<(usize, usize)>| { let mut l = l; l.sort(); l };
    let want: Vec<(usize, usize)> = m.iter().map(|(k, n)| (*k, *n)).collect();
    let k = g.below(m.len() as u64 + 2) as usize;
    let mut f = e.clone();
    for n in [(&e).into_iter().count(), (&mut f).into_iter().count(), e.clone().into_iter().count()] { eq("count() of the iterators", m.len(), n)?; }
    for (lo, hi) in [(&e).into_iter().size_hint(), (&mut f).into_iter().size_hint(), e.clone().into_iter().size_hint()] { eq("size_hint() allows the length", true, lo <= m.len() && hi.map_or(true, |h| h >= m.len()))?; }
    eq("for_each of borrowing iteration", &want, &at_({ let mut l = vec![]; (&e).into_iter().for_each(|(k, n)| l.push((at.of(k), *n))); l }))?;
    eq("for_each of mutable iteration", &want, &at_({ let mut l = vec![]; (&mut f).into_iter().for_each(|(k, n)| l.push((at.of(k), *n))); l }))?;
    eq("for_each of consuming iteration", &want, &at_({ let mut l = vec![]; e.clone().into_iter().for_each(|(k, n)| l.push((at.of(&k), n))); l }))?;
    eq("nth and the rest of borrowing iteration", &want, &at_({ let mut l = vec![]; let mut it = (&e).into_iter(); let all: Vec<_> = (&e).into_iter().map(|(k, n)| (at.of(k), *n)).collect(); if let Some((q, n)) = it.nth(k) { l.extend(&all[..k]); l.push((at.of(q), *n)); } else { l.extend(&all); } l.extend(it.map(|(k, n)| (at.of(k), *n))); l }))?;
    eq("nth and the rest of mutable iteration", &want, &at_({ let mut l = vec![]; let all: Vec<_> = (&f).into_iter().map(|(k, n)| (at.of(k), *n)).collect(); let mut it = (&mut f).into_iter(); if let Some((q, n)) = it.nth(k) { l.extend(&all[..k]); l.push((at.of(q), *n)); } else { l.extend(&all); } l.extend(it.map(|(k, n)| (at.of(k), *n))); l }))?;
    // equality, between counters filled in different orders
    let o: Counter<T, Fnv> = counter_of(m, v);
    let of = |w: &M, spare: usize| { let mut h = HashMap::with_capacity_and_hasher(spare, Fnv::default()); for (k, n) in as_map(w, v).into_iter().rev() { h.insert(k, n); } Counter::<T, Fnv>::from_hashmap(h) };
    let n = v.len() as u64;
    let mut near = vec![m.clone(), M::new()];
    { let mut w = m.clone(); w.insert(g.below(n) as usize, g.below(3) as usize); near.push(w); }
    { let mut w = m.clone(); w.remove(&(g.below(n) as usize)); near.push(w); }
    { let mut w = m.clone(); for x in w.values_mut() { if g.below(4) == 0 { *x = x.wrapping_add(1); } } near.push(w); }
    // the same number of elements and the same counts, on other elements
    { let mut w = m.clone(); if let Some((k, c)) = m.iter().nth(g.below(m.len().max(1) as u64) as usize) { let j = g.below(n) as usize; if !w.contains_key(&j) { w.remove(k); w.insert(j, *c); } } near.push(w); }
    for w in &near {
        let d = of(w, g.below(50) as usize);
        let what = format!("equality of counters with {} and {} elements", m.len(), w.len());
        eq(&what, m == w, o == d)?;
        eq(&what, m == w, d == o)?;
        eq(&what, m != w, o != d)?;
    }
    Ok(())
}

fn random_map(g: &mut Rng, n: usize, style: u64) -> M {
    let mut m = M::new();
    for i in 0..n {
        if g.below(3) == 0 { continue; }
        let x = match style { 0 => g.below(4), 1 => g.below(100), 2 => u64::MAX - g.below(3), 3 => 1, 4 => if g.bool() { u64::MAX / 2 - g.below(2) } else { g.below(3) }, _ => g.next() >> g.below(64) };
        let w = value_hints();
        let x = if !w.is_empty() && g.below(3) == 0 { w[g.below(w.len() as u64) as usize] as u64 } else { x };
        m.insert(i, x as usize);
    }
    m
}

fn short<D: Debug>(d: &D) -> String { let s = format!("{:?}", d); if s.len() > 200 { format!("{}...", &s[..200]) } else { s } }
/// many elements, long inputs, counts around powers of two
fn large(prop: &str, cx: &mut Cx) {
    let all: Vec<i32> = (0..70_000.max(hints().iter().max().map_or(0, |h| *h as i32 + 10))).map(|x: i32| x.wrapping_mul(-0x61c88647)).collect();
    for (i, n) in hints().iter().copied().chain([65usize, 129, 257, 300, 513, 1000, 1025, 2049, 4097, 10_001, 66_000]).enumerate() {
        for rep in 0..if n < 3000 { 6 } else { 2 } {
            if cx.done() { return; }
            let mut g = Rng::new(cx.seed * 1000 + i as u64 * 10 + rep);
            let v = &all[..n + 2];
            let style = [5, 1, 0, 3, 5, 2][rep as usize];
            let mut m = M::new();
            let skip = g.below(5);
            for k in 0..n { if skip > 0 && g.below(skip * 4 + 1) == 0 { continue; } let x = match style { 0 => g.below(4), 1 => g.below(100), 2 => u64::MAX - g.below(3), 3 => 1, _ => g.next() >> g.below(64) }; m.insert(k, x as usize); }
            match prop {
                "K01" => {
                    let how = g.below(8) as usize;
                    let len = n + g.below(2 * n as u64) as usize;
                    let items: Vec<usize> = (0..len).map(|k| if rep == 0 { k % n } else if rep == 1 { (k / 3) % n } else { g.below(n as u64) as usize }).collect();
                    let ops: Vec<Op> = (0..3).map(|k| { let x: Vec<usize> = (0..g.below(n as u64)).map(|_| g.below(n as u64) as usize).collect(); if k % 2 == 0 { Extend(x, g.below(9) as usize) } else { ExtendRef(x) } }).collect();
                    cx.case(true, &|| format!("{} elements, build way {} from {} items {}, then {}", n, how, len, short(&items), short(&ops)), &mut || if rep % 2 == 0 { history::<i32, RandomState>(how, &items, &ops, v) } else { history::<i32, Fast>(how, &items, &ops, v) });
                }
                "K02" | "K03" => {
                    let plus = prop == "K02";
                    let other: M = match rep {
                        0 => m.iter().filter(|(k, _)| **k % 2 == 0).map(|(k, x)| (*k, *x / 2)).collect(),
                        1 => m.iter().map(|(k, x)| (*k, if *k % 3 == 0 { *x } else { 1 })).collect(),
                        2 => m.iter().take(3).map(|(k, x)| (*k, *x)).collect(),
                        _ => { let mut o = M::new(); for k in 0..n { if g.bool() { o.insert(k + 2, g.below(5) as usize); } } o }
                    };
                    for form in 0..4 { for turn in 0..2 {
                        let (l, r) = if turn == 0 { (&m, &other) } else { (&other, &m) };
                        if plus && l.iter().any(|(k, x)| r.get(k).map_or(false, |y| x.checked_add(*y).is_none())) { continue; }
                        if n > 5000 && turn == 1 && form % 2 == 0 { continue; }
                        cx.case(true, &|| format!("{} and {} elements: {} {} {}, form {}", l.len(), r.len(), short(l), if plus { "+" } else { "-" }, short(r), form), &mut || if rep % 2 == 0 { arith::<i32, RandomState, Fast>(plus, form, l, r, v) } else { arith::<i32, Fast, Fast>(plus, form, l, r, v) });
                    } }
                }
                "K04" => cx.case(true, &|| format!("{} elements: {}", m.len(), short(&m)), &mut || if rep % 2 == 0 { listing::<i32, RandomState>(&m, v) } else { listing::<i32, Fast>(&m, v) }),
                "K05" => { let s = g.next(); cx.case(true, &|| format!("{} elements: {}, seed {}", m.len(), short(&m), s), &mut || if rep % 2 == 0 { views::<i32, RandomState, Fast>(&m, v, s) } else { views::<i32, Fast, RandomState>(&m, v, s) }) }
                _ => return,
            }
        }
    }
    if prop == "K01" { for base in [0usize, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 53, 1 << 63].into_iter().chain(value_hints().iter().copied()) { for off in 0..4 { for how in 0..3 {
        let v = &all[..3];
        cx.case(true, &|| format!("three items onto the count {}, way {}", base.wrapping_sub(off), how), &mut || {
            let m: M = [(0, base.saturating_sub(off).min(usize::MAX - 3)), (1, 1)].into_iter().collect();
            let mut c: Counter<i32> = counter_of(&m, v);
            let mut w = m.clone();
            match how { 0 => for _ in 0..3 { c.push(v[0]) }, 1 => c.extend(vec![v[0]; 3]), _ => c.extend(&[v[0]; 3]) }
            *w.get_mut(&0).unwrap() += 3;
            same("afterwards", &c, &w, v)
        });
    } } }
    for how in 0..8 { cx.case(true, &|| format!("one item 70000 times, way {}", how), &mut || history::<i32, Fast>(how, &vec![0; 70_000], &[Extend(vec![0; 300], 1), ExtendRef(vec![1; 300])], &all[..3])); } }
}

pub fn run(prop: &str, cx: &mut Cx) -> bool {
    let v3: Vec<i32> = vec![7, -1, 0];
    let v5: Vec<i32> = vec![7, -1, 0, i32::MAX, 12];
    let words: Vec<String> = (0..70).map(|i| if i == 0 { String::new() } else { "ab".repeat(i % 7) + &i.to_string() }).collect();
    let ids: Vec<Id> = (0..70).map(|x| Id(x, 70 - x)).collect();
    let nums: Vec<i32> = (0..70).map(|x: i32| x.wrapping_mul(-0x61c88647)).collect();
    large(prop, cx);
    match prop {
        "K01" => {
            cx.rule = "a case counts when at least one item is counted".into();
            // every sequence of up to six items over three elements, every way to build from a prefix
            let max = if cx.thorough { 6 } else { 5 };
            for len in 0..=max as u32 { for code in 0..3usize.pow(len) {
                let items: Vec<usize> = (0..len).map(|i| code / 3usize.pow(i) % 3).collect();
                for cut in 0..=items.len() { for how in 0..8 {
                    if cx.done() { return true; }
                    let (a, b) = items.split_at(cut);
                    let ops: Vec<Op> = match (how + cut) % 4 { 0 => b.iter().map(|i| Push(*i)).collect(), 1 => vec![Extend(b.to_vec(), 9)], 2 => vec![ExtendRef(b.to_vec())], _ => b.chunks(2).map(|c| if c.len() == 2 { ExtendRef(c.to_vec()) } else { Push(c[0]) }).collect() };
                    cx.case(len > 0, &|| format!("build way {} from {:?}, then {:?}", how, a, ops), &mut || match how % 3 { 0 => history::<i32, RandomState>(how, a, &ops, &v3), 1 => history::<i32, Fast>(how, a, &ops, &v3), _ => history::<i32, OneBucket>(how, a, &ops, &v3) });
                } }
            } }
            cx.exhaustive.push(format!("all sequences of up to {} items over 3 elements, every split, 8 ways of building", max));
            for r in 0..if cx.thorough { 40_000 } else { 4_000 } {
                if cx.done() { return true; }
                let mut g = Rng::new(cx.rng.next());
                let n = 1 + g.below(if r % 5 == 0 { 69 } else { 8 }) as usize;
                let some = |g: &mut Rng, k: u64| { let l = g.below(k); (0..l).map(|_| g.below(n as u64) as usize).collect::<Vec<_>>() };
                let items = some(&mut g, if r % 11 == 0 { 600 } else { 30 });
                let ops: Vec<Op> = (0..g.below(8)).map(|_| match g.below(4) { 0 => Push(g.below(n as u64) as usize), 1 => ExtendRef(some(&mut g, 40)), _ => { let x = some(&mut g, 40); Extend(x, g.below(40) as usize) } }).collect();
                let more = some(&mut g, 20);
                let how = g.below(8) as usize;
                let nt = items.len() + ops.len() > 0;
                match r % 6 {
                    0 => cx.case(nt, &|| format!("integers, build way {} from {:?}, then {:?}", how, items, ops), &mut || history::<i32, RandomState>(how, &items, &ops, &nums)),
                    1 => cx.case(nt, &|| format!("integers, salted hasher, build way {} from {:?}, then {:?}", how, items, ops), &mut || history::<i32, Salted>(how, &items, &ops, &nums)),
                    2 => cx.case(nt, &|| format!("equal by id only, all collide, build way {} from {:?}, then {:?}", how, items, ops), &mut || history::<Id, OneBucket>(how, &items, &ops, &ids)),
                    3 => cx.case(nt, &|| format!("strings, build way {} from {:?}, then {:?}", how, items, more), &mut || owned_history::<String, Fast>(how, &items, &more, &words)),
                    4 => cx.case(nt, &|| format!("strings, salted hasher, build way {} from {:?}, then {:?}", how, items, more), &mut || owned_history::<String, Salted>(how, &items, &more, &words)),
                    _ => cx.case(nt, &|| format!("units, build way {} from {} items", how, items.len()), &mut || { let z = vec![0; items.len()]; history::<(), RandomState>(how, &z, &[Push(0), Extend(vec![0; 3], 0)], &[()]) }),
                }
            }
            // counts near the limit
            for k in 1..6usize {
                let m: M = [(0, usize::MAX - k), (1, 1)].into_iter().collect();
                cx.case(true, &|| format!("push {} times onto the count usize::MAX - {}", k, k), &mut || {
                    let mut c: Counter<i32> = counter_of(&m, &v3);
                    let mut w = m.clone();
                    for _ in 0..k { c.push(v3[0]); *w.get_mut(&0).unwrap() += 1; same("near the limit", &c, &w, &v3)?; }
                    Ok(())
                });
            }
        }
        "K02" | "K03" => {
            let plus = prop == "K02";
            cx.rule = "a pair counts when both operands have an element".into();
            let opt = |d: usize| match d { 0 => None, 1 => Some(1), 2 => Some(2), 3 => Some(0), 4 => Some(3), _ => None };
            let base = if cx.thorough { 5usize } else { 4 };
            for code in 0..base.pow(6) {
                let d: Vec<usize> = (0..6).map(|i| code / base.pow(i) % base).collect();
                let l: M = (0..3).filter_map(|i| opt(d[i]).map(|n| (i, n))).collect();
                let r: M = (0..3).filter_map(|i| opt(d[i + 3]).map(|n| (i, n))).collect();
                for form in 0..4 {
                    if cx.done() { return true; }
                    cx.case(!l.is_empty() && !r.is_empty(), &|| format!("{:?} {} {:?}, form {}", l, if plus { "+" } else { "-" }, r, form), &mut || match code % 4 {
                        0 => arith::<i32, RandomState, RandomState>(plus, form, &l, &r, &v3), 1 => arith::<i32, Fast, Salted>(plus, form, &l, &r, &v3),
                        2 => arith::<i32, Salted, Salted>(plus, form, &l, &r, &v3), _ => arith::<i32, RandomState, OneBucket>(plus, form, &l, &r, &v3) });
                }
            }
            cx.exhaustive.push(format!("all pairs of counters over 3 elements with {} possible counts (absent included), 4 operator forms", base));
            for k in 0..if cx.thorough { 40_000 } else { 6_000 } {
                if cx.done() { return true; }
                let mut g = Rng::new(cx.rng.next());
                let n = 1 + g.below(if k % 4 == 0 { 69 } else { 6 }) as usize;
                let (s, t) = if plus { match g.below(4) { 0 => (0, 0), 1 => (1, 1), 2 => (4, 4), _ => (3, 0) } } else { (g.below(6), g.below(6)) };
                let l = random_map(&mut g, n, s);
                let r = random_map(&mut g, n, t);
                if plus && l.iter().any(|(k, x)| r.get(k).map_or(false, |y| x.checked_add(*y).is_none())) { continue; }
                let form = g.below(4) as usize;
                cx.case(!l.is_empty() && !r.is_empty(), &|| format!("{:?} {} {:?}, form {}", l, if plus { "+" } else { "-" }, r, form), &mut || match k % 4 {
                    0 => arith::<i32, RandomState, Fast>(plus, form, &l, &r, &nums), 1 => arith::<String, Salted, Fast>(plus, form, &l, &r, &words),
                    2 => arith::<Id, OneBucket, RandomState>(plus, form, &l, &r, &ids), _ => arith::<String, RandomState, RandomState>(plus, form, &l, &r, &words) });
            }
        }
        "K04" => {
            cx.rule = "a counter counts when it has at least two elements".into();
            let vals = [0usize, 1, 2, usize::MAX - 1, usize::MAX];
            for code in 0..6usize.pow(5) {
                if cx.done() { return true; }
                let m: M = (0..5).filter_map(|i| { let d = code / 6usize.pow(i) % 6; if d == 0 { None } else { Some((i as usize, vals[d - 1])) } }).collect();
                cx.case(m.len() > 1, &|| format!("{:?}", m), &mut || listing::<i32, RandomState>(&m, &v5));
            }
            cx.exhaustive.push("all counters over 5 elements with counts 0, 1, 2, MAX-1, MAX or absent".into());
            for k in 0..if cx.thorough { 40_000 } else { 4_000 } {
                if cx.done() { return true; }
                let mut g = Rng::new(cx.rng.next());
                let n = 1 + g.below(70) as usize;
                let s = g.below(6);
                let m = random_map(&mut g, n, s);
                cx.case(m.len() > 1, &|| format!("{:?}", m), &mut || match k % 3 { 0 => listing::<String, Fast>(&m, &words), 1 => listing::<Id, OneBucket>(&m, &ids), _ => listing::<i32, Salted>(&m, &nums) });
            }
        }
        "K05" => {
            cx.rule = "a map counts when it is not empty".into();
            let vals = [0usize, 1, 7, usize::MAX];
            for code in 0..5usize.pow(4) { for k in 0..4 {
                if cx.done() { return true; }
                let m: M = (0..4).filter_map(|i| { let d = code / 5usize.pow(i) % 5; if d == 0 { None } else { Some((i as usize, vals[d - 1])) } }).collect();
                let s = cx.rng.next();
                cx.case(!m.is_empty(), &|| format!("{:?}, hashers {}, seed {}", m, k, s), &mut || match k { 0 => views::<i32, RandomState, RandomState>(&m, &v5, s), 1 => views::<i32, Fast, Salted>(&m, &v5, s), 2 => views::<i32, Salted, Salted>(&m, &v5, s), _ => views::<i32, OneBucket, Fast>(&m, &v5, s) });
            } }
            cx.exhaustive.push("all maps over 4 elements with counts 0, 1, 7, MAX or absent, 4 hasher combinations".into());
            for k in 0..if cx.thorough { 20_000 } else { 2_000 } {
                if cx.done() { return true; }
                let mut g = Rng::new(cx.rng.next());
                let n = 1 + g.below(70) as usize;
                let st = g.below(6);
                let m = random_map(&mut g, n, st);
                let s = g.next();
                cx.case(!m.is_empty(), &|| format!("{:?}, seed {}", m, s), &mut || match k % 3 { 0 => views::<String, RandomState, Fast>(&m, &words, s), 1 => views::<Id, OneBucket, RandomState>(&m, &ids, s), _ => views::<i32, Salted, OneBucket>(&m, &nums, s) });
            }
        }
        _ => return false,
    }
    true
}
