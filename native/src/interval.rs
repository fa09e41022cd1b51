//! Oracles for I01..I09. Intervals are modelled as sets of positions 0..P: end points sit on even
//! positions, odd positions are the points strictly between two neighbouring end points.
use crate::cx::*;
use advanced_collections::interval::{Interval, LowerBound, UpperBound};
use std::cmp::Ordering::{self, *};
use std::fmt::Debug;
use std::ops::*;

type M = Option<(usize, bool, usize, bool)>;
const P: usize = 9;

fn bits(m: M) -> u32 {
    match m { None => 0, Some((l, lc, u, uc)) => (0..P).filter(|&p| (p > l || p == l && lc) && (p < u || p == u && uc)).fold(0, |a, p| a | 1 << p) }
}
fn canon(b: u32) -> M {
    if b == 0 { return None; }
    let lo = b.trailing_zeros() as usize;
    let hi = 31 - b.leading_zeros() as usize;
    Some((if lo % 2 == 0 { lo } else { lo - 1 }, lo % 2 == 0, if hi % 2 == 0 { hi } else { hi + 1 }, hi % 2 == 0))
}
fn contiguous(b: u32) -> bool { b == 0 || { let s = b >> b.trailing_zeros(); s & (s + 1) == 0 } }
fn fill(b: u32) -> u32 { if b == 0 { 0 } else { let lo = b.trailing_zeros(); let hi = 31 - b.leading_zeros(); (lo..=hi).fold(0, |a, p| a | 1 << p) } }
fn all() -> Vec<M> {
    let mut v = vec![None];
    for l in (0..P).step_by(2) { for u in (l..P).step_by(2) { for k in 0..4 { let (a, b) = (k & 1 == 1, k & 2 == 2); if l < u || a && b { v.push(Some((l, a, u, b))); } } } }
    v
}
pub trait El: Ord + Clone + Debug {}
impl<T: Ord + Clone + Debug> El for T {}

fn mk<T: El>(m: M, v: &[T]) -> Interval<T> {
    match m {
        None => Interval::empty(),
        Some((l, lc, u, uc)) => Interval::new(v[l].clone(), lc, v[u].clone(), uc),
    }
}
fn pos<T: El>(x: &T, v: &[T]) -> usize { v.iter().position(|y| y.cmp(x) == Equal).unwrap_or(99) }
fn rd<T: El>(i: &Interval<T>, v: &[T]) -> M {
    match (i.lower(), i.upper()) {
        (None, None) => None,
        (Some(l), Some(u)) => Some((pos(l.val(), v), l.is_closed(), pos(u.val(), v), u.is_closed())),
        _ => Some((77, false, 77, false)),
    }
}
fn wellformed(m: M) -> bool { match m { None => true, Some((l, lc, u, uc)) => l < u || l == u && lc && uc } }
fn show<T: El>(m: M, v: &[T]) -> String {
    match m { None => "empty".into(), Some((l, lc, u, uc)) => format!("{}{:?},{:?}{}", if lc { '[' } else { '(' }, v[l], v[u], if uc { ']' } else { ')' }) }
}
type B = (usize, bool);
fn lb<T: El>(b: B, v: &[T]) -> LowerBound<T> { LowerBound::new(v[b.0].clone(), b.1) }
fn ub<T: El>(b: B, v: &[T]) -> UpperBound<T> { UpperBound::new(v[b.0].clone(), b.1) }
fn bounds() -> Vec<B> { (0..P).step_by(2).flat_map(|p| [(p, false), (p, true)]).collect() }
/// the points a bound admits, as positions -1..=P (one sentinel on each side)
fn ladm(b: B) -> u32 { (0..P + 2).filter(|&q| q > b.0 + 1 || q == b.0 + 1 && b.1).fold(0, |a, q| a | 1 << q) }
fn uadm(b: B) -> u32 { (0..P + 2).filter(|&q| q < b.0 + 1 || q == b.0 + 1 && b.1).fold(0, |a, q| a | 1 << q) }

fn per_type<T: El>(prop: &str, cx: &mut Cx, v: &[T]) {
    let ivs = all();
    let p1 = |a: M, op: &'static str| move || format!("{} {}", show(a, v), op);
    match prop {
        "I01" => {
            // every constructor, on every pair of values (also reversed) and closedness
            for l in (0..P).step_by(2) { for u in (0..P).step_by(2) { for k in 0..4 {
                let (a, b) = (k & 1 == 1, k & 2 == 2);
                let ok = l < u || l == u && a && b;
                let (x, y) = (&v[l], &v[u]);
                let want = Some((l, a, u, b));
                let mut ctor = |name: &'static str, f: &dyn Fn() -> Interval<T>| {
                    cx.case(true, &|| format!("Interval::{}({:?},{},{:?},{})", name, x, a, y, b), &mut || {
                        let mut got = None;
                        let pan = panics(|| got = Some(f()));
                        eq("panics", !ok, pan)?;
                        if let Some(i) = got {
                            eq("bounds", want, rd(&i, v))?;
                            eq("is_empty", false, i.is_empty())?;
                            eq("is_single", l == u, i.is_single())?;
                            eq("is_lower_closed", Some(a), i.is_lower_closed())?;
                            eq("is_upper_closed", Some(b), i.is_upper_closed())?;
                            eq("into_tuple", Some((x.clone(), a, y.clone(), b)), i.clone().into_tuple())?;
                            let (p, q) = i.bounds().unwrap();
                            eq("bounds()", (x, a, y, b), (p.val(), p.is_closed(), q.val(), q.is_closed()))?;
                            let (p, q) = i.into_bounds().unwrap();
                            eq("into_bounds", (x.clone(), a, y.clone(), b), (p.val().clone(), p.is_closed(), q.val().clone(), q.is_closed()))?;
                        }
                        Ok(())
                    });
                };
                ctor("new", &|| Interval::new(x.clone(), a, y.clone(), b));
                ctor("from_bounds", &|| Interval::from_bounds(LowerBound::new(x.clone(), a), UpperBound::new(y.clone(), b)));
                if !a && !b { ctor("open", &|| Interval::open(x.clone(), y.clone())); }
                if a && b { ctor("closed", &|| Interval::closed(x.clone(), y.clone())); }
                if a && !b { ctor("lower_closed", &|| Interval::lower_closed(x.clone(), y.clone())); }
                if !a && b { ctor("upper_closed", &|| Interval::upper_closed(x.clone(), y.clone())); }
                if a && b && l == u { ctor("single", &|| Interval::single(x.clone())); }
            } } }
            cx.case(false, &|| "Interval::empty()".into(), &mut || {
                let i: Interval<T> = Interval::empty();
                eq("is_empty", true, i.is_empty())?; eq("is_single", false, i.is_single())?;
                eq("closed", (None, None), (i.is_lower_closed(), i.is_upper_closed()))?;
                eq("bounds", (true, true, true), (i.lower().is_none(), i.upper().is_none(), i.bounds().is_none()))?;
                eq("into", (true, true), (i.clone().into_tuple().is_none(), i.into_bounds().is_none()))
            });
            for &a in &ivs { for &b in &ivs {
                cx.case(a.is_some() && b.is_some(), &|| format!("results of every operation on {} {}", show(a, v), show(b, v)), &mut || {
                    let (x, y) = (mk(a, v), mk(b, v));
                    let mut rs = vec![x.clone().into_intersection(y.clone()), x.clone().into_span(y.clone())];
                    if let Ok(m) = x.clone().into_merged(y.clone()) { rs.push(m); }
                    let mut t = x.clone(); t.intersection(y.clone()); rs.push(t);
                    let mut t = x.clone(); t.span(y.clone()); rs.push(t);
                    let mut t = x.clone(); let _ = t.merge(y.clone()); rs.push(t);
                    let mut t = x.clone(); t.clone_from(&y);
                    eq("bounds after clone_from", b, rd(&t, v))?;
                    eq("is_empty after clone_from", b.is_none(), t.is_empty())?;
                    eq("into_tuple after clone_from", y.clone().into_tuple(), t.clone().into_tuple())?;
                    rs.push(t);
                    if let (Some((l, u)), Some((p, q))) = (x.clone().into_bounds(), y.clone().into_bounds()) {
                        let (mut l, mut u) = (l, u);
                        l.clone_from(&p); u.clone_from(&q);
                        eq("bounds after clone_from of bounds", (p.val(), p.is_closed(), q.val(), q.is_closed()), (l.val(), l.is_closed(), u.val(), u.is_closed()))?;
                        rs.push(Interval::from_bounds(l, u));
                    }
                    for r in rs {
                        let m = rd(&r, v);
                        eq("well formed", true, wellformed(m))?;
                        eq("is_empty agrees", m.is_none(), r.is_empty())?;
                        eq("is_single agrees", matches!(m, Some((l, _, u, _)) if l == u), r.is_single())?;
                    }
                    Ok(())
                });
            } }
        }
        "I02" => {
            for &a in &ivs {
                for p in 0..P {
                    cx.case(a.is_some(), &|| format!("{} contains_val {:?}", show(a, v), v[p]), &mut || eq("contains_val", bits(a) >> p & 1 == 1, mk(a, v).contains_val(&v[p])));
                }
                for &b in &ivs {
                    cx.case(a.is_some() || b.is_some(), &|| format!("{} contains_interval {}", show(a, v), show(b, v)), &mut || eq("contains_interval", bits(b) & !bits(a) == 0, mk(a, v).contains_interval(&mk(b, v))));
                }
            }
        }
        "I03" | "I04" | "I05" => {
            for &a in &ivs { for &b in &ivs {
                let (ba, bb) = (bits(a), bits(b));
                cx.case(a.is_some() && b.is_some(), &|| format!("{} with {}", show(a, v), show(b, v)), &mut || {
                    let (x, y) = (mk(a, v), mk(b, v));
                    match prop {
                        "I03" => {
                            eq("intersects", ba & bb != 0, x.intersects(&y))?;
                            let want = canon(ba & bb);
                            eq("into_intersection", want, rd(&x.clone().into_intersection(y.clone()), v))?;
                            let mut t = x.clone(); t.intersection(y.clone());
                            eq("intersection", want, rd(&t, v))
                        }
                        "I04" => {
                            let ok = contiguous(ba | bb);
                            eq("can_be_merged", ok, x.can_be_merged(&y))?;
                            match x.clone().into_merged(y.clone()) {
                                Ok(r) => { eq("into_merged succeeds", ok, true)?; eq("into_merged", canon(ba | bb), rd(&r, v))?; }
                                Err((p, q)) => { eq("into_merged succeeds", ok, false)?; eq("into_merged hands back", (a, b), (rd(&p, v), rd(&q, v)))?; }
                            }
                            let mut t = x.clone();
                            match t.merge(y.clone()) {
                                Ok(()) => { eq("merge succeeds", ok, true)?; eq("merge", canon(ba | bb), rd(&t, v)) }
                                Err(q) => { eq("merge succeeds", ok, false)?; eq("merge hands back", (a, b), (rd(&t, v), rd(&q, v))) }
                            }
                        }
                        _ => {
                            let want = canon(fill(ba | bb));
                            eq("into_span", want, rd(&x.clone().into_span(y.clone()), v))?;
                            let mut t = x.clone(); t.span(y.clone());
                            eq("span", want, rd(&t, v))
                        }
                    }
                });
            } }
        }
        "I06" => {
            for &a in &ivs {
                for &b in &ivs {
                    cx.case(a.is_some() && b.is_some(), &|| format!("{} compared with {}", show(a, v), show(b, v)), &mut || {
                        let (x, y) = (mk(a, v), mk(b, v));
                        let (lt, gt, le, ge) = match (a, b) {
                            (Some(m), Some(n)) => (below(bits(a), bits(b)), below(bits(b), bits(a)), m.2 <= n.0, n.2 <= m.0),
                            _ => (false, false, false, false),
                        };
                        eq("<", lt, x < y)?; eq(">", gt, x > y)?; eq("<=", le, x <= y)?; eq(">=", ge, x >= y)?; eq("==", a == b, x == y)?; eq("!=", a != b, x != y)?;
                        eq("partial_cmp", if lt { Some(Less) } else if gt { Some(Greater) } else if a == b { Some(Equal) } else { None }, x.partial_cmp(&y))
                    });
                }
                for p in 0..P {
                    cx.case(a.is_some(), &|| format!("{} compared with value {:?}", show(a, v), v[p]), &mut || {
                        let (x, y) = (mk(a, v), &v[p]);
                        let pb = 1 << p;
                        let (lt, gt, le, ge, e) = match a {
                            Some(m) => (below(bits(a), pb), below(pb, bits(a)), m.2 <= p, p <= m.0, bits(a) == pb && m.0 == m.2),
                            None => (false, false, false, false, false),
                        };
                        eq("<", lt, x < *y)?; eq(">", gt, x > *y)?; eq("<=", le, x <= *y)?; eq(">=", ge, x >= *y)?; eq("==", e, x == *y)?; eq("!=", !e, x != *y)?;
                        eq("partial_cmp", if lt { Some(Less) } else if gt { Some(Greater) } else if e { Some(Equal) } else { None }, x.partial_cmp(y))
                    });
                }
            }
        }
        "I07" => {
            let bs = bounds();
            for &a in &bs { for &b in &bs {
                cx.case(true, &|| format!("bounds ({:?},{}) ({:?},{})", v[a.0], a.1, v[b.0], b.1), &mut || {
                    // a lower bound is smaller when it admits more, an upper bound when it admits less
                    let lo = if ladm(a) == ladm(b) { Equal } else if ladm(b) & !ladm(a) == 0 { Less } else { Greater };
                    let uo = if uadm(a) == uadm(b) { Equal } else if uadm(a) & !uadm(b) == 0 { Less } else { Greater };
                    let (x, y, s, t) = (lb(a, v), lb(b, v), ub(a, v), ub(b, v));
                    same("lower", lo, &x, &y)?;
                    same("upper", uo, &s, &t)?;
                    eq("lower cmp", lo, x.cmp(&y))?; eq("upper cmp", uo, s.cmp(&t))?;
                    let bl = |z: LowerBound<T>| (pos(z.val(), v), z.is_closed());
                    let bu = |z: UpperBound<T>| (pos(z.val(), v), z.is_closed());
                    eq("lower max", if lo == Greater { a } else { b }, bl(x.clone().max(y.clone())))?;
                    eq("lower min", if lo == Greater { b } else { a }, bl(x.clone().min(y.clone())))?;
                    eq("upper max", if uo == Greater { a } else { b }, bu(s.clone().max(t.clone())))?;
                    eq("upper min", if uo == Greater { b } else { a }, bu(s.clone().min(t.clone())))?;
                    eq("lower max by cmp", if lo == Greater { a } else { b }, bl(std::cmp::max_by(x.clone(), y.clone(), |p, q| p.cmp(q))))?;
                    eq("upper clamped", if uo == Greater { b } else { a }, bu(s.clone().clamp(s.clone().min(t.clone()), t.clone())))?;
                    let none = ladm(a) & uadm(b) == 0;
                    eq("lower > upper", none, x > t)?; eq("upper < lower", none, t < x)?;
                    eq("lower == upper", (false, true, false, true), (x == t, x != t, t == x, t != x))?;
                    let sep = a.0 > b.0 || a.0 == b.0 && !a.1 && !b.1;
                    eq("is_separated_from", (sep, sep), (x.is_separated_from(&t), t.is_separated_from(&x)))
                });
            }
            for p in 0..P {
                cx.case(true, &|| format!("bound ({:?},{}) against value {:?}", v[a.0], a.1, v[p]), &mut || {
                    let o = a.0.cmp(&p);
                    let lo = if o == Equal && !a.1 { Greater } else { o };
                    let uo = if o == Equal && !a.1 { Less } else { o };
                    same("lower", lo, &lb(a, v), &v[p])?;
                    same("upper", uo, &ub(a, v), &v[p])
                });
            } }
        }
        "I09" => {
            let bs = bounds();
            for &a in &bs { for &b in &bs {
                let mut known = None;
                cx.case(true, &|| format!("bounds ({:?},{}) ({:?},{})", v[a.0], a.1, v[b.0], b.1), &mut || {
                    let (x, y, s, t) = (lb(a, v), lb(b, v), ub(a, v), ub(b, v));
                    coherent("lower/lower", &x, &y, true)?; coherent("upper/upper", &s, &t, true)?;
                    eq("lower/lower: cmp against partial_cmp", x.partial_cmp(&y), Some(x.cmp(&y)))?; eq("upper/upper: cmp against partial_cmp", s.partial_cmp(&t), Some(s.cmp(&t)))?;
                    flip("lower/lower", &x, &y)?; flip("upper/upper", &s, &t)?;
                    eq("lower/upper: <= >= of the values", (a.0 <= b.0, a.0 >= b.0), (x <= t, x >= t))?;
                    eq("upper/lower: <= >= of the values", (b.0 <= a.0, b.0 >= a.0), (t <= x, t >= x))?;
                    let m: R = coherent("lower/upper", &x, &t, false).and(coherent("upper/lower", &t, &x, false)).and(flip("lower/upper", &x, &t)).and(flip("upper/lower", &t, &x));
                    if m.is_err() {
                        // exactly the recorded finding is let through, nothing else
                        let ob = (tab(&x, &t), tab(&t, &x));
                        let rec = if a.0 == b.0 && !(a.1 && b.1) { Some(((true, true, true, true, false, true, Some(Less)), (true, true, true, true, false, true, Some(Less)))) } else { None };
                        if Some(ob) == rec { known = Some(()); } else { m?; }
                    }
                    Ok(())
                });
                if known.is_some() { cx.note_known("lower bound against upper bound of equal value, not both closed: < and > both true, partial_cmp Less from either side".into()); }
            }
            for p in 0..P {
                cx.case(true, &|| format!("bound ({:?},{}) against value {:?}", v[a.0], a.1, v[p]), &mut || {
                    coherent("lower/value", &lb(a, v), &v[p], true)?;
                    coherent("upper/value", &ub(a, v), &v[p], true)
                });
            } }
            for &a in &ivs {
                for &b in &ivs {
                    cx.case(true, &|| format!("{} compared with {}", show(a, v), show(b, v)), &mut || {
                        let (x, y) = (mk(a, v), mk(b, v));
                        coherent("interval/interval", &x, &y, false)?; flip("interval/interval", &x, &y)
                    });
                }
                for p in 0..P {
                    cx.case(true, &|| format!("{} compared with value {:?}", show(a, v), v[p]), &mut || coherent("interval/value", &mk(a, v), &v[p], false));
                }
            }
        }
        _ => {}
    }
    let _ = p1;
}
fn below(a: u32, b: u32) -> bool { a != 0 && b != 0 && 31 - a.leading_zeros() < b.trailing_zeros() }
type Tab = (bool, bool, bool, bool, bool, bool, Option<Ordering>);
fn tab<A: PartialOrd<C>, C>(a: &A, b: &C) -> Tab { (*a < *b, *a > *b, *a <= *b, *a >= *b, *a == *b, *a != *b, a.partial_cmp(b)) }
fn same<A: PartialOrd<C>, C>(w: &str, o: Ordering, a: &A, b: &C) -> R {
    eq(&format!("{} < > <= >= == != partial_cmp", w), (o == Less, o == Greater, o != Greater, o != Less, o == Equal, o != Equal, Some(o)), tab(a, b))
}
fn coherent<A: PartialOrd<C>, C>(w: &str, a: &A, b: &C, total: bool) -> R {
    let (lt, gt, le, ge, e, ne, pc) = tab(a, b);
    eq(&format!("{}: != is not ==", w), !e, ne)?;
    eq(&format!("{}: < and > exclude each other", w), false, lt && gt)?;
    eq(&format!("{}: partial_cmp against < > ==", w), if lt { Some(Less) } else if gt { Some(Greater) } else if e { Some(Equal) } else { None }, pc)?;
    if total { eq(&format!("{}: <= and >=", w), (lt || e, gt || e), (le, ge))?; }
    Ok(())
}
fn flip<A: PartialOrd<C>, C: PartialOrd<A>>(w: &str, a: &A, b: &C) -> R {
    eq(&format!("{}: a<b iff b>a", w), (*b > *a, *b < *a), (*a < *b, *a > *b))
}

// ---- I08
/// plain integers without overflow
fn arith(cx: &mut Cx, lim: i64, scal: i64) {
    type I = Interval<i64>;
    for l in -lim..=lim { for u in l..=lim { for k in 0..4 {
        let (lc, uc) = (k & 1 == 1, k & 2 == 2);
        if l == u && !(lc && uc) { continue; }
        for s in -scal..=scal {
            arith_one(cx, l, lc, u, uc, s);
        }
        cx.case(true, &|| format!("-({:?})", (l, lc, u, uc)), &mut || {
            let i: I = Interval::new(l, lc, u, uc);
            eq("neg", Some((-u, uc, -l, lc)), (-i).into_tuple())?;
            eq("neg neg", Some((l, lc, u, uc)), (-(-i)).into_tuple())
        });
    } } }
    cx.case(false, &|| "empty + - * / neg".into(), &mut || {
        let e: I = Interval::empty();
        eq("empty", (true, true, true, true, true), ((e + 1).is_empty(), (e - 1).is_empty(), (e * 2).is_empty(), (e / 2).is_empty(), (-e).is_empty()))?;
        let (mut a, mut b, mut c, mut d) = (e, e, e, e);
        a += 1; b -= 1; c *= 2; d /= 2;
        eq("empty assign", (true, true, true, true), (a.is_empty(), b.is_empty(), c.is_empty(), d.is_empty()))
    });
}
fn spanned<T: Ord>(lo: T, lc: bool, up: T, uc: bool) -> Option<(T, bool, T, bool)> {
    let (l, lc, u, uc) = if lo > up { (up, uc, lo, lc) } else { (lo, lc, up, uc) };
    if l == u && !(lc && uc) { None } else { Some((l, lc, u, uc)) }
}
fn arith_one(cx: &mut Cx, l: i64, lc: bool, u: i64, uc: bool, s: i64) {
    cx.case(true, &|| format!("{:?} op {}", (l, lc, u, uc), s), &mut || {
        let i = Interval::new(l, lc, u, uc);
        let (a, b) = (LowerBound::new(l, lc), UpperBound::new(u, uc));
        macro_rules! op { ($name:expr, $op:tt, $asg:tt, $ck:ident) => {
            if let (Some(x), Some(y)) = (l.$ck(s), u.$ck(s)) {
                let want = spanned(x, lc, y, uc);
                eq(concat!("interval ", $name), want, (i $op s).into_tuple())?;
                let mut t = i; t $asg s;
                eq(concat!("interval ", $name, "="), want, t.into_tuple())?;
                eq(concat!("lower bound ", $name), (x, lc), (a $op s).into_tuple())?;
                eq(concat!("upper bound ", $name), (y, uc), (b $op s).into_tuple())?;
                let mut t = a; t $asg s; eq(concat!("lower bound ", $name, "="), (x, lc), t.into_tuple())?;
                let mut t = b; t $asg s; eq(concat!("upper bound ", $name, "="), (y, uc), t.into_tuple())?;
            }
        } }
        op!("+", +, +=, checked_add); op!("-", -, -=, checked_sub); op!("*", *, *=, checked_mul); op!("/", /, /=, checked_div);
        Ok(())
    });
}
/// a value type whose scalar operations are arbitrary order-scrambling maps (and whose scalar type differs)
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct W(u8);
#[derive(Clone, Debug)]
struct S(u8);
macro_rules! wop { ($tr:ident, $f:ident, $ta:ident, $g:ident, $k:expr) => {
    impl $tr<S> for W { type Output = W; fn $f(self, s: S) -> W { W(wmap($k, self.0, s.0)) } }
    impl $tr<W> for W { type Output = W; fn $f(self, s: W) -> W { W(wmap($k, self.0, s.0)) } }
    impl $ta<W> for W { fn $g(&mut self, s: W) { self.0 = wmap($k, self.0, s.0) } }
    impl $ta<S> for W { fn $g(&mut self, s: S) { self.0 = wmap($k, self.0, s.0) } }
} }
fn wmap(k: u8, x: u8, s: u8) -> u8 { (x.wrapping_mul(s | 1).wrapping_add(k * 3 + s)) % 7 }
wop!(Add, add, AddAssign, add_assign, 1); wop!(Sub, sub, SubAssign, sub_assign, 2); wop!(Mul, mul, MulAssign, mul_assign, 3); wop!(Div, div, DivAssign, div_assign, 4);
impl Neg for W { type Output = W; fn neg(self) -> W { W(6 - self.0) } }

/// intervals that came out of arithmetic are as well formed as any other
fn arith_formed(cx: &mut Cx) {
    let ok = |what: &str, i: Interval<W>| -> R {
        let t = i.clone().into_tuple();
        eq(&format!("{} is empty or well formed: {:?}", what, t), true, match &t { None => true, Some((l, a, u, b)) => l < u || l == u && *a && *b })?;
        eq(&format!("{}: is_empty agrees", what), t.is_none(), i.is_empty())?;
        eq(&format!("{}: is_single agrees", what), t.as_ref().map_or(false, |t| t.0 == t.2), i.is_single())?;
        eq(&format!("{}: closedness", what), (t.as_ref().map(|t| t.1), t.as_ref().map(|t| t.3)), (i.is_lower_closed(), i.is_upper_closed()))?;
        let u = i.clone().into_span(Interval::empty()).into_tuple();
        eq(&format!("{}: spanned with the empty interval", what), t, u)
    };
    for l in 0..7u8 { for u in l..7u8 { for k in 0..4 { for s in 0..7u8 { for t in 0..3u8 {
        let (lc, uc) = (k & 1 == 1, k & 2 == 2);
        if l == u && !(lc && uc) { continue; }
        cx.case(true, &|| format!("W {:?} op S({}), then again with {}", (l, lc, u, uc), s, t), &mut || {
            let i = Interval::new(W(l), lc, W(u), uc);
            macro_rules! op { ($name:expr, $op:tt, $asg:tt) => {
                ok($name, i.clone() $op S(s))?; ok($name, i.clone() $op W(s))?;
                ok(concat!("twice ", $name), (i.clone() $op S(s)) $op S(t))?;
                ok(concat!("negated ", $name), -(i.clone() $op S(s)))?;
                let mut a = i.clone(); a $asg W(s); ok(concat!($name, "="), a.clone())?; a $asg W(t); ok(concat!("twice ", $name, "="), a.clone())?; a += W(t); ok(concat!($name, "= and then +="), a)?;
            } }
            op!("+", +, +=); op!("-", -, -=); op!("*", *, *=); op!("/", /, /=);
            ok("neg", -i.clone())
        });
    } } } } }
    for (l, u) in [(0u8, 9u8), (0, 1), (3, 3), (200, 255), (254, 255)] { for k in 0..4 { for s in [0u8, 1, 2, 100, 254, 255] {
        use std::num::Saturating as Sat;
        let (lc, uc) = (k & 1 == 1, k & 2 == 2);
        if l == u && !(lc && uc) { continue; }
        cx.case(true, &|| format!("Saturating {:?} op {}", (l, lc, u, uc), s), &mut || {
            let ok = |what: &str, i: Interval<Sat<u8>>| eq(what, true, match i.into_tuple() { None => i.is_empty(), Some((l, a, u, b)) => (l < u || l == u && a && b) && !i.is_empty() });
            let i = Interval::new(Sat(l), lc, Sat(u), uc);
            ok("+", i + Sat(s))?; ok("-", i - Sat(s))?; ok("*", i * Sat(s))?;
            let mut a = i; a += Sat(s); ok("+=", a)?; let mut a = i; a -= Sat(s); ok("-=", a)?; let mut a = i; a *= Sat(s); ok("*=", a)?;
            if s > 0 { ok("/", i / Sat(s))?; let mut a = i; a /= Sat(s); ok("/=", a)?; }
            Ok(())
        });
    } } }
}
/// negation that does not reverse the order everywhere (the least value is its own negative), and one without any order
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct N(u8);
impl Neg for N { type Output = N; fn neg(self) -> N { N([3, 5, 2, 0, 6, 1, 4][self.0 as usize]) } }
fn negations(cx: &mut Cx) {
    use std::num::Wrapping as Wr;
    fn one<T: Ord + Neg<Output = T> + Clone + Debug>(l: T, lc: bool, u: T, uc: bool) -> R {
        let want = spanned(-u.clone(), uc, -l.clone(), lc);
        let r = -Interval::new(l.clone(), lc, u.clone(), uc);
        eq("neg: is_empty", want.is_none(), r.is_empty())?;
        eq("neg", want, r.into_tuple())
    }
    let ends = [i8::MIN, i8::MIN + 1, -1, 0, 1, i8::MAX - 1, i8::MAX];
    for k in 0..4 {
        let (lc, uc) = (k & 1 == 1, k & 2 == 2);
        for l in 0..7 { for u in l..7 {
            if l == u && !(lc && uc) { continue; }
            cx.case(true, &|| format!("-({:?}) of wrapping numbers", (ends[l], lc, ends[u], uc)), &mut || one(Wr(ends[l]), lc, Wr(ends[u]), uc));
            cx.case(true, &|| format!("-({:?}) with negation by a table", (l, lc, u, uc)), &mut || one(N(l as u8), lc, N(u as u8), uc));
        } }
    }
}
fn arith_weird(cx: &mut Cx) {
    negations(cx);
    for l in 0..7u8 { for u in l..7u8 { for k in 0..4 { for s in 0..7u8 {
        let (lc, uc) = (k & 1 == 1, k & 2 == 2);
        if l == u && !(lc && uc) { continue; }
        cx.case(true, &|| format!("W {:?} op S({})", (l, lc, u, uc), s), &mut || {
            let i = Interval::new(W(l), lc, W(u), uc);
            macro_rules! op { ($name:expr, $op:tt, $asg:tt, $k:expr) => {
                let (x, y) = (W(wmap($k, l, s)), W(wmap($k, u, s)));
                let want = spanned(x.clone(), lc, y.clone(), uc);
                eq($name, want.clone(), (i.clone() $op S(s)).into_tuple())?;
                eq($name, want.clone(), (i.clone() $op W(s)).into_tuple())?;
                let mut t = i.clone(); t $asg W(s); eq(concat!($name, "="), want, t.into_tuple())?;
                let mut t = LowerBound::new(W(l), lc); t $asg S(s); eq(concat!("lower ", $name, "="), (x.clone(), lc), t.into_tuple())?;
                let mut t = UpperBound::new(W(u), uc); t $asg S(s); eq(concat!("upper ", $name, "="), (y.clone(), uc), t.into_tuple())?;
                eq(concat!("lower ", $name), (x, lc), (LowerBound::new(W(l), lc) $op S(s)).into_tuple())?;
                eq(concat!("upper ", $name), (y, uc), (UpperBound::new(W(u), uc) $op S(s)).into_tuple())?;
            } }
            op!("+", +, +=, 1); op!("-", -, -=, 2); op!("*", *, *=, 3); op!("/", /, /=, 4);
            eq("neg", Some((W(6 - u), uc, W(6 - l), lc)), (-i.clone()).into_tuple())?;
            eq("neg neg", i.clone().into_tuple(), (-(-i)).into_tuple())
        });
    } } } }
}

#[derive(Clone, Debug)]
pub struct Key(i32, &'static str);
impl PartialEq for Key { fn eq(&self, o: &Key) -> bool { self.0 == o.0 } }
impl Eq for Key {}
impl PartialOrd for Key { fn partial_cmp(&self, o: &Key) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Key { fn cmp(&self, o: &Key) -> Ordering { o.0.cmp(&self.0) } }

pub fn run(prop: &str, cx: &mut Cx) -> bool {
    if !["I01", "I02", "I03", "I04", "I05", "I06", "I07", "I08", "I09"].contains(&prop) { return false; }
    cx.rule = "every interval (pair of intervals, bound, value) over 5 end points and the points between them, for several value types and random embeddings of the 9 positions; non-trivial: not only empty operands".into();
    if prop == "I08" {
        cx.rule = "every integer interval and scalar in a small range, boundary integers, random integers, and a 7-point value type with order-scrambling operations; non-trivial: non-empty interval".into();
        arith(cx, if cx.thorough { 10 } else { 6 }, 7);
        arith_weird(cx);
        let ex = [i64::MIN, i64::MIN + 1, -3_000_000_000, -1, 0, 1, 2, 3_000_000_000, i64::MAX - 1, i64::MAX];
        for &l in &ex { for &u in &ex { if l <= u { for &s in &ex { for k in 0..4 { if l < u || k == 3 { arith_one(cx, l, k & 1 == 1, u, k & 2 == 2, s); } } } } } }
        let n = if cx.thorough { 200_000 } else { 20_000 };
        for _ in 0..n {
            let sh = cx.rng.below(62); let (a, b, s) = ((cx.rng.next() as i64) >> sh, (cx.rng.next() as i64) >> sh, (cx.rng.next() as i64) >> cx.rng.below(63));
            let k = cx.rng.below(4); let (l, u) = (a.min(b), a.max(b));
            if l < u { arith_one(cx, l, k & 1 == 1, u, k & 2 == 2, s); }
        }
        cx.exhaustive.push("integer end points in -6..=6, scalars in -7..=7; the 7-point type completely".into());
        return true;
    }
    if prop == "I01" { arith_formed(cx); negations(cx); }
    per_type(prop, cx, &(0..P as i32).collect::<Vec<_>>());
    per_type(prop, cx, &[i64::MIN, i64::MIN + 1, -7, -1, 0, 1, 8, i64::MAX - 1, i64::MAX]);
    per_type(prop, cx, &[0u8, 1, 2, 127, 128, 129, 253, 254, 255]);
    per_type(prop, cx, &["", "a", "aa", "ab", "b", "ba", "c", "ca", "d"].map(String::from));
    per_type(prop, cx, &(0..P as i32).rev().map(|i| Key(i, "k")).collect::<Vec<_>>());
    per_type(prop, cx, &[u128::MIN, 1, 2, u64::MAX as u128, u64::MAX as u128 + 1, 1 << 100, (1 << 100) + 1, u128::MAX - 1, u128::MAX]);
    per_type(prop, cx, &[i8::MIN, -127, -2, -1, 0, 1, 2, 126, i8::MAX]);
    per_type(prop, cx, &['\0', 'A', 'Z', 'a', 'z', '~', '\u{d7ff}', '\u{e000}', char::MAX]);
    per_type(prop, cx, &[(0u8, "b"), (0, "c"), (1, ""), (1, "a"), (1, "aa"), (2, "a"), (3, ""), (255, ""), (255, "z")]);
    per_type(prop, cx, &[None, Some(i8::MIN), Some(-1), Some(0), Some(1), Some(2), Some(3), Some(126), Some(i8::MAX)].map(Box::new));
    per_type(prop, cx, &[vec![], vec![0], vec![0, 0], vec![0, 1], vec![1], vec![1, 0, 0], vec![2], vec![2, 9], vec![3u64]]);
    per_type(prop, cx, &[9i16, 8, 7, 3, 2, 1, 0, -1, i16::MIN].map(std::cmp::Reverse));
    cx.exhaustive.push("all 46 intervals over 5 end points, all pairs, all 9 probe points, for i32, i64 (extremes), u8 (extremes), String, and a reversed-order type".into());
    let n = if cx.thorough { 400 } else { 6 };
    for _ in 0..n {
        let sh = cx.rng.below(50);
        let mut s = std::collections::BTreeSet::new();
        while s.len() < P { s.insert((cx.rng.next() as i64) >> sh); }
        per_type(prop, cx, &s.into_iter().collect::<Vec<_>>());
        if cx.done() { break; }
    }
    true
}
