//! Executes the contracts that the proofs assume of the standard library (contracts/*.vc) on bounded inputs.
use crate::cx::*;
use std::cmp::Ordering::{self, *};
use std::collections::hash_map::{Entry, RandomState};
use std::collections::HashMap;
use std::iter::FromIterator;
use std::mem::MaybeUninit;

fn vecs(max: usize, vals: u32) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![vec![]];
    let mut i = 0;
    while i < v.len() { if v[i].len() < max { for x in 0..vals { let mut t = v[i].clone(); t.push(x); v.push(t) } } i += 1 }
    v
}
fn mapof(v: &[u32]) -> HashMap<u32, usize> { let mut m = HashMap::new(); for (i, x) in v.iter().enumerate() { m.insert(*x, i + 1); } m }
fn entries(m: &HashMap<u32, usize>) -> Vec<(u32, usize)> { let mut e: Vec<(u32, usize)> = (0..100).filter_map(|k| m.get(&k).map(|n| (k, *n))).collect(); e.sort(); e }

fn slices(v: &[u32]) -> R {
    let n = v.len();
    eq("Vec::into_boxed_slice", v.to_vec(), v.to_vec().into_boxed_slice().to_vec())?;
    { let mut w = v.to_vec(); w.reserve(7); w.shrink_to_fit(); eq("Vec::shrink_to_fit", v, &w[..])?; }
    for k in 0..=n {
        let mut w = v.to_vec(); w.rotate_left(k);
        eq("rotate_left", v[k..].iter().chain(&v[..k]).copied().collect::<Vec<_>>(), w)?;
        let mut w = v.to_vec(); w.rotate_right(k);
        eq("rotate_right", v[n - k..].iter().chain(&v[..n - k]).copied().collect::<Vec<_>>(), w)?;
        let c: Vec<u32> = v[..k].iter().chain(v[k..].iter()).copied().collect();
        eq("chain of slice iterators", v, &c[..])?;
        { let mut w = v.to_vec(); let (a, b) = w.split_at_mut(k); for x in a.iter_mut().chain(b.iter_mut()) { *x += 7 } eq("chain of mutable slice iterators", v.iter().map(|x| x + 7).collect::<Vec<_>>(), w)?; }
        { let mut w = v[..k].to_vec(); w.extend(v[k..].iter().copied()); eq("Vec::extend", v, &w[..])?; }
        for j in 0..n { if k < n { let mut w = v.to_vec(); w.swap(k, j); for i in 0..n { eq("slice::swap", v[if i == k { j } else if i == j { k } else { i }], w[i])? } } }
    }
    { let mut w = v.to_vec(); w.reverse(); for i in 0..n { eq("slice::reverse", v[n - 1 - i], w[i])? } }
    { let u: Vec<MaybeUninit<String>> = v.iter().map(|x| MaybeUninit::new(x.to_string())).collect(); let s: &[String] = unsafe { std::mem::transmute(&u[..]) }; for i in 0..n { eq("transmute of filled slots", v[i].to_string(), s[i].clone())? } eq("length", n, s.len())?; for x in u { drop(unsafe { x.assume_init() }) } }
    { let mut u: Vec<MaybeUninit<String>> = v.iter().map(|x| MaybeUninit::new(x.to_string())).collect(); { let s: &mut [String] = unsafe { std::mem::transmute(&mut u[..]) }; for x in s.iter_mut() { x.push('!') } } for (i, x) in u.into_iter().enumerate() { eq("writes through a transmuted slice", format!("{}!", v[i]), unsafe { x.assume_init() })? } }
    eq("collect into a Vec", v, &v.iter().copied().collect::<Vec<_>>()[..])?;
    eq("Vec::from_iter", v, &Vec::from_iter(v.iter().copied())[..])?;
    for f in [|x: &u32| *x, |x: &u32| 9 - *x, |x: &u32| x / 2] {
        let mut w = v.to_vec(); w.sort_unstable_by_key(f);
        eq("sort_unstable_by_key sorts", true, w.windows(2).all(|p| f(&p[0]) <= f(&p[1])))?;
        for x in 0..10 { eq("sort_unstable_by_key keeps the elements", v.iter().filter(|y| **y == x).count(), w.iter().filter(|y| **y == x).count())? }
    }
    Ok(())
}
fn lex(a: &[u32], b: &[u32]) -> Ordering { match (a.first(), b.first()) { (None, None) => Equal, (None, _) => Less, (_, None) => Greater, (Some(x), Some(y)) => if x < y { Less } else if x > y { Greater } else { lex(&a[1..], &b[1..]) } } }
fn pairs(a: &[u32], b: &[u32]) -> R {
    eq("Iterator::cmp", lex(a, b), a.iter().cmp(b.iter()))?;
    eq("Iterator::eq", lex(a, b) == Equal, a.iter().eq(b.iter()))?;
    eq("Iterator::partial_cmp", Some(lex(a, b)), a.iter().partial_cmp(b.iter()))?;
    let f = |v: &[u32]| v.iter().map(|x| if *x == 2 { f64::NAN } else { *x as f64 }).collect::<Vec<_>>();
    let (fa, fb) = (f(a), f(b));
    let want = { let mut i = 0; loop { match (a.get(i), b.get(i)) { (None, None) => break Some(Equal), (None, _) => break Some(Less), (_, None) => break Some(Greater), (Some(2), _) | (_, Some(2)) => break None, (Some(x), Some(y)) => if x != y { break Some(x.cmp(y)) } } i += 1 } };
    eq("Iterator::partial_cmp with incomparable items", want, fa.iter().partial_cmp(fb.iter()))
}
fn maps(v: &[u32]) -> R {
    let m = mapof(v);
    let e = entries(&m);
    { let mut g: Vec<(u32, usize)> = m.clone().into_iter().collect(); g.sort(); eq("HashMap::into_iter", e.clone(), g)?; }
    { let mut w = m.clone(); let mut seen = vec![]; for (k, n) in w.iter_mut() { seen.push((*k, *n)); *n += 100 } seen.sort(); eq("HashMap::iter_mut", e.clone(), seen)?; eq("writes through iter_mut", e.iter().map(|x| (x.0, x.1 + 100)).collect::<Vec<_>>(), entries(&w))?; }
    { let same = |w: &HashMap<u32, usize>| entries(w) == e && w.len() == m.len(); let mut all = vec![m.clone(), HashMap::new()]; for k in 0..4 { for n in 0..3 { let mut w = m.clone(); w.insert(k, n); all.push(w) } let mut w = m.clone(); w.remove(&k); all.push(w) } for w in &all { eq("HashMap::eq", same(w), m == *w)?; eq("HashMap::ne", !same(w), m != *w)?; } }
    eq("HashMap::with_hasher", 0, HashMap::<u32, u32, _>::with_hasher(RandomState::new()).len())?;
    eq("HashMap::with_capacity_and_hasher", 0, HashMap::<u32, u32, _>::with_capacity_and_hasher(v.len(), RandomState::new()).len())?;
    eq("collect into a HashMap", e.clone(), entries(&v.iter().enumerate().map(|(i, x)| (*x, i + 1)).collect()))?;
    for k in 0..5 {
        let old = m.get(&k).copied();
        let others = |w: &HashMap<u32, usize>| entries(w).into_iter().filter(|x| x.0 != k).collect::<Vec<_>>();
        let rest = others(&m);
        { let mut w = m.clone(); let mut called = false; { let r = w.entry(k).or_insert_with(|| { called = true; 50 }); eq("or_insert_with", old.unwrap_or(50), *r)?; *r = 60; } eq("or_insert_with calls", old.is_none(), called)?; eq("after or_insert_with", Some(60), w.get(&k).copied())?; eq("others", rest.clone(), others(&w))?; }
        { let mut w = m.clone(); { let r = w.entry(k).or_default(); eq("or_default", old.unwrap_or(0), *r)?; *r = 60; } eq("after or_default", Some(60), w.get(&k).copied())?; eq("others", rest.clone(), others(&w))?; }
        { let mut w = m.clone(); { let r = w.get_mut(&k); eq("get_mut", old, r.as_ref().map(|x| **x))?; if let Some(r) = r { *r = 70 } } eq("after get_mut", old.map(|_| 70), w.get(&k).copied())?; eq("others", rest.clone(), others(&w))?; }
        { let mut w = m.clone(); eq("entry", old.is_some(), matches!(w.entry(k), Entry::Occupied(_)))?; }
    }
    Ok(())
}
fn options(a: Option<u32>, b: Option<u32>) -> R {
    let big = |x: u32| x > 1;
    eq("map_or", if let Some(x) = a { x + 1 } else { 9 }, a.map_or(9, |x| x + 1))?;
    eq("map_or_else", if let Some(x) = a { x + 1 } else { 9 }, a.map_or_else(|| 9, |x| x + 1))?;
    eq("is_some_and", if let Some(x) = a { big(x) } else { false }, a.is_some_and(big))?;
    eq("is_none_or", if let Some(x) = a { big(x) } else { true }, a.is_none_or(big))?;
    eq("filter", if let Some(x) = a { if big(x) { Some(x) } else { None } } else { None }, a.filter(|x| big(*x)))?;
    { let mut c = a; eq("Option::replace", a, c.replace(5))?; eq("after", Some(5), c)?; }
    eq("or", if a.is_some() { a } else { b }, a.or(b))?;
    eq("and", if a.is_some() { b } else { None }, a.and(b))?;
    eq("xor", if a.is_some() && b.is_none() { a } else if a.is_none() && b.is_some() { b } else { None }, a.xor(b))?;
    eq("zip", if let (Some(x), Some(y)) = (a, b) { Some((x, y)) } else { None }, a.zip(b))?;
    eq("copied", a, a.as_ref().copied())?;
    for t in [true, false] { eq("then_some", if t { a } else { None }, t.then_some(a).flatten())? }
    if let (Some(x), Some(y)) = (a, b) { eq("max", if y >= x { y } else { x }, std::cmp::max(x, y))?; eq("min", if y < x { y } else { x }, std::cmp::min(x, y))? }
    { let mut c = a; eq("mem::replace", a, std::mem::replace(&mut c, b))?; eq("after", b, c)?; eq("mem::take", b, std::mem::take(&mut c))?; eq("after", None, c) }
}
fn orders(o: Ordering, p: Ordering) -> R {
    eq("then", if o == Equal { p } else { o }, o.then(p))?;
    eq("then_with", if o == Equal { p } else { o }, o.then_with(|| p))?;
    eq("reverse", match o { Less => Greater, Equal => Equal, Greater => Less }, o.reverse())?;
    eq("is_*", [o == Less, o != Greater, o == Greater, o != Less, o == Equal, o != Equal], [o.is_lt(), o.is_le(), o.is_gt(), o.is_ge(), o.is_eq(), o.is_ne()])?;
    for (i, x) in [false, true].iter().enumerate() { for (j, y) in [false, true].iter().enumerate() { eq("bool::cmp", i.cmp(&j), x.cmp(y))? } }
    for p in [Less, Equal, Greater] { eq("Ordering::eq", o as i8 == p as i8, o == p)? }
    Ok(())
}
pub fn run(p: &str, cx: &mut Cx) -> bool {
    if p != "STD" { return false; }
    cx.rule = "an input of the functions of the standard library whose contracts the proofs assume".into();
    let vs = vecs(4, 4);
    for v in &vs { cx.case(v.len() > 1, &|| format!("{:?}", v), &mut || slices(v)); cx.case(!v.is_empty(), &|| format!("map of {:?}", v), &mut || maps(v)); }
    let short = vecs(3, 3);
    for a in &short { for b in &short { cx.case(true, &|| format!("{:?} and {:?}", a, b), &mut || pairs(a, b)); } }
    let os = [None, Some(0), Some(1), Some(2), Some(3)];
    for a in os { for b in os { cx.case(true, &|| format!("{:?} and {:?}", a, b), &mut || options(a, b)); } }
    for a in [Less, Equal, Greater] { for b in [Less, Equal, Greater] { cx.case(true, &|| format!("{:?} and {:?}", a, b), &mut || orders(a, b)); } }
    for i in 0..200 {
        let n = cx.rng.below(300) as usize;
        let v: Vec<u32> = (0..n).map(|_| cx.rng.below(10) as u32).collect();
        if i < 60 { cx.case(true, &|| format!("{:?}", v), &mut || { let mut w = v.clone(); w.sort_unstable_by_key(|x| 9 - x); eq("sort_unstable_by_key sorts", true, w.windows(2).all(|p| p[0] >= p[1]))?; for x in 0..10 { eq("count", v.iter().filter(|y| **y == x).count(), w.iter().filter(|y| **y == x).count())? } Ok(()) }); }
        cx.case(true, &|| format!("map of {:?}", v), &mut || maps(&v));
    }
    true
}
