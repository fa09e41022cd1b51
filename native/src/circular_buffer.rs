//! Oracles for C01..C08: a plain VecDeque with a capacity beside it.
use crate::cx::*;
use advanced_collections::circular_buffer::CircularBuffer;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeSet, VecDeque};
use std::fmt::Debug;
use std::iter::FromIterator;
use std::rc::Rc;

type Cb<T> = CircularBuffer<T>;

// ---- element types
trait El: Clone + Debug { fn mk(n: u32) -> Self; fn id(&self) -> u32; const DISTINCT: u32 = u32::MAX; const NAME: &'static str; }
impl El for u32 { fn mk(n: u32) -> Self { n } fn id(&self) -> u32 { *self } const NAME: &'static str = "u32"; }
impl El for u8 { fn mk(n: u32) -> Self { n as u8 } fn id(&self) -> u32 { *self as u32 } const DISTINCT: u32 = 256; const NAME: &'static str = "u8"; }
impl El for bool { fn mk(n: u32) -> Self { n & 1 == 1 } fn id(&self) -> u32 { let b = *self; b as u32 } const DISTINCT: u32 = 2; const NAME: &'static str = "bool"; }
impl El for () { fn mk(_: u32) -> Self {} fn id(&self) -> u32 { 0 } const DISTINCT: u32 = 1; const NAME: &'static str = "()"; }
impl El for String { fn mk(n: u32) -> Self { format!("element number {}", n) } fn id(&self) -> u32 { self["element number ".len()..].parse().unwrap() } const NAME: &'static str = "String"; }
impl El for Box<u64> { fn mk(n: u32) -> Self { Box::new(n as u64) } fn id(&self) -> u32 { **self as u32 } const NAME: &'static str = "Box<u64>"; }
impl El for std::num::NonZeroU16 { fn mk(n: u32) -> Self { std::num::NonZeroU16::new((n % 60000) as u16 + 1).unwrap() } fn id(&self) -> u32 { self.get() as u32 - 1 } const DISTINCT: u32 = 60000; const NAME: &'static str = "NonZeroU16"; }
impl El for [u64; 5] { fn mk(n: u32) -> Self { [n as u64; 5] } fn id(&self) -> u32 { assert!(self.iter().all(|x| *x == self[0])); self[0] as u32 } const NAME: &'static str = "[u64; 5]"; }
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
#[repr(align(64))]
struct Wide([u32; 70]);
impl El for Wide { fn mk(n: u32) -> Self { Wide([n; 70]) } fn id(&self) -> u32 { assert!(self.0.iter().all(|x| *x == self.0[0])); self.0[0] } const NAME: &'static str = "a type of 320 bytes, aligned to 64"; }
impl El for std::sync::Arc<str> { fn mk(n: u32) -> Self { n.to_string().into() } fn id(&self) -> u32 { self.parse().unwrap() } const NAME: &'static str = "Arc<str>"; }
impl El for Option<Vec<u32>> { fn mk(n: u32) -> Self { if n == 0 { None } else { Some(vec![n]) } } fn id(&self) -> u32 { match self { None => 0, Some(v) => { assert!(v.len() == 1); v[0] } } } const NAME: &'static str = "Option<Vec<u32>>"; }

#[derive(Default)]
struct Reg { live: BTreeSet<u64>, next: u64, bad: Option<String> }
thread_local! { static REG: RefCell<Reg> = RefCell::new(Reg::default()); }
/// records every creation, use and destruction
#[derive(Debug)]
struct Tr { key: u64, n: u32, own: std::mem::ManuallyDrop<Box<u32>> }
impl Tr {
    fn new(n: u32) -> Self { let key = REG.with(|r| { let mut r = r.borrow_mut(); r.next += 1; let k = r.next; r.live.insert(k); k }); Tr { key, n, own: std::mem::ManuallyDrop::new(Box::new(n)) } }
    fn used(&self, how: &str) {
        REG.with(|r| { let mut r = r.borrow_mut(); if !r.live.contains(&self.key) || **self.own != self.n { if r.bad.is_none() { r.bad = Some(format!("{} of an element that is not alive", how)); } } })
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        let alive = REG.with(|r| { let mut r = r.borrow_mut(); let a = r.live.remove(&self.key); if !a && r.bad.is_none() { r.bad = Some(format!("drop of what is not an element that is alive (number {})", self.n)); } a });
        // what is not alive may be anything: leave its memory alone, so that the report gets out
        if alive { unsafe { std::mem::ManuallyDrop::drop(&mut self.own) } }
    }
}
// counts down; what reaches zero panics
thread_local! { static FUSE: RefCell<Option<usize>> = RefCell::new(None); }
fn tick() { if FUSE.with(|f| { let mut f = f.borrow_mut(); match *f { Some(0) => { *f = None; true } Some(k) => { *f = Some(k - 1); false } None => false } }) { panic!("of the element type") } }
impl Clone for Tr { fn clone(&self) -> Self { self.used("clone"); tick(); Tr::new(self.n) } }
impl PartialEq for Tr { fn eq(&self, o: &Tr) -> bool { tick(); self.used("comparison"); o.used("comparison"); self.n == o.n } }
impl PartialOrd for Tr { fn partial_cmp(&self, o: &Tr) -> Option<Ordering> { self.used("comparison"); o.used("comparison"); self.n.partial_cmp(&o.n) } }
impl El for Tr { fn mk(n: u32) -> Self { Tr::new(n) } fn id(&self) -> u32 { self.used("use"); self.n } const NAME: &'static str = "a type that counts its instances"; }
fn reg_reset() { REG.with(|r| *r.borrow_mut() = Reg::default()) }
fn reg_live() -> usize { REG.with(|r| r.borrow().live.len()) }
fn reg_bad() -> R { REG.with(|r| match &r.borrow().bad { None => Ok(()), Some(b) => Err(("element lifetime".into(), "used and dropped exactly once".into(), b.clone())) }) }
// an element without a size that counts its instances
thread_local! { static ZST: RefCell<i64> = RefCell::new(0); }
#[derive(Debug)]
struct Zd;
impl Clone for Zd { fn clone(&self) -> Self { Zd::mk(0) } }
impl Drop for Zd { fn drop(&mut self) { ZST.with(|z| *z.borrow_mut() -= 1) } }
impl El for Zd { fn mk(_: u32) -> Self { ZST.with(|z| *z.borrow_mut() += 1); Zd } fn id(&self) -> u32 { 0 } const DISTINCT: u32 = 1; const NAME: &'static str = "a type without a size that counts its instances"; }

// elements of N bytes, which count their instances or need no drop
#[derive(Debug)]
struct Sd<const N: usize>([u8; N]);
#[derive(Debug, Clone, Copy)]
struct Sp<const N: usize>([u8; N]);
fn bytes<const N: usize>(n: u32) -> [u8; N] { let mut b = [0xC3; N]; for i in 0..N.min(4) { b[i] = n.to_le_bytes()[i]; } b }
fn unbytes<const N: usize>(b: &[u8; N]) -> u32 { let mut n = [0; 4]; for i in 0..N.min(4) { n[i] = b[i]; } assert!(b[N.min(4)..].iter().all(|x| *x == 0xC3), "an element with bytes nobody wrote"); u32::from_le_bytes(n) }
const fn distinct(n: usize) -> u32 { if n >= 4 { u32::MAX } else { 1 << (8 * n as u32) } }
// elements that must lie at multiples of a large number
macro_rules! aligned { ($($t:ident $n:literal),*) => { $(
    #[derive(Debug)] #[repr(align($n))] struct $t(u32);
    impl $t { fn ok(&self) -> &Self { assert!(self as *const Self as usize % $n == 0, "an element at an address that its type does not allow"); self } }
    impl Clone for $t { fn clone(&self) -> Self { Self::mk(self.ok().0) } }
    impl Drop for $t { fn drop(&mut self) { self.ok(); ZST.with(|z| *z.borrow_mut() -= 1) } }
    impl El for $t { fn mk(n: u32) -> Self { ZST.with(|z| *z.borrow_mut() += 1); $t(n) } fn id(&self) -> u32 { self.ok().0 } const DISTINCT: u32 = u32::MAX; const NAME: &'static str = "aligned, with drop"; }
    impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { self.id() == o.id() } }
    impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.id().partial_cmp(&o.id()) } }
)* } }
aligned!(A16 16, A64 64, A256 256, A4096 4096);
impl<const N: usize> Clone for Sd<N> { fn clone(&self) -> Self { ZST.with(|z| *z.borrow_mut() += 1); Sd(self.0) } }
impl<const N: usize> Drop for Sd<N> { fn drop(&mut self) { ZST.with(|z| *z.borrow_mut() -= 1) } }
impl<const N: usize> El for Sd<N> { fn mk(n: u32) -> Self { ZST.with(|z| *z.borrow_mut() += 1); Sd(bytes(n)) } fn id(&self) -> u32 { unbytes(&self.0) } const DISTINCT: u32 = distinct(N); const NAME: &'static str = "sized, with drop"; }
impl<const N: usize> El for Sp<N> { fn mk(n: u32) -> Self { Sp(bytes(n)) } fn id(&self) -> u32 { unbytes(&self.0) } const DISTINCT: u32 = distinct(N); const NAME: &'static str = "sized, without drop"; }

fn norm<T: El>(n: u32) -> u32 { if T::DISTINCT == u32::MAX { n } else { n % T::DISTINCT } }
fn normed<T: El>(m: &Q) -> Vec<u32> { m.iter().map(|x| norm::<T>(*x)).collect() }
fn ids<'a, T: El + 'a>(i: impl Iterator<Item = &'a T>) -> Vec<u32> { i.map(|x| x.id()).collect() }
type Q = VecDeque<u32>;

// ---- the model
#[derive(Clone, Debug)]
struct M { cap: usize, q: Q }
impl M {
    fn pb(&mut self, v: u32) { if self.cap == 0 { return; } if self.q.len() == self.cap { self.q.pop_front(); } self.q.push_back(v) }
    fn pf(&mut self, v: u32) { if self.cap == 0 { return; } if self.q.len() == self.cap { self.q.pop_back(); } self.q.push_front(v) }
    fn resize(&mut self, n: usize) { while self.q.len() > n { self.q.pop_front(); } self.cap = n }
}

fn same<T: El>(what: &str, cb: &Cb<T>, m: &M) -> R {
    eq(&format!("length {}", what), m.q.len(), cb.len())?;
    eq(&format!("capacity {}", what), m.cap, cb.capacity())?;
    eq(&format!("is_empty {}", what), m.q.is_empty(), cb.is_empty())?;
    eq(&format!("is_full {}", what), m.q.len() == m.cap, cb.is_full())?;
    eq(&format!("contents {}", what), normed::<T>(&m.q), ids(cb.iter()))
}
/// empties the buffer from the front, so that also what the cursors hide is looked at
fn drained<T: El>(what: &str, mut cb: Cb<T>, m: &M) -> R {
    let mut g = vec![];
    while let Some(x) = cb.pop_front() { g.push(x.id()); if g.len() > m.q.len() + 2 { break; } }
    eq(&format!("elements popped {}", what), normed::<T>(&m.q), g)?;
    eq(&format!("capacity once popped {}", what), m.cap, cb.capacity())
}

// ---- states: a capacity, the slot of the front element, a length, and how the buffer got there
#[derive(Clone, Copy, Debug)]
struct St { cap: usize, rot: usize, len: usize, how: usize }
const HOWS: usize = 4;
fn build<T: El>(s: St, base: u32) -> (Cb<T>, M) {
    let mut m = M { cap: s.cap, q: Q::new() };
    let mut cb: Cb<T>;
    match s.how {
        0 => { cb = Cb::with_capacity(s.cap); if s.cap > 0 { for i in 0..s.rot { cb.push_back(T::mk(900 + i as u32)); cb.pop_front(); } } }
        1 => { cb = Cb::new(s.cap); if s.cap > 0 { for i in 0..(s.cap + 1 - s.rot % (s.cap + 1)) { cb.push_front(T::mk(900 + i as u32)); cb.pop_back(); } } }
        2 => { cb = Cb::with_capacity(s.cap); for i in 0..s.cap + s.rot { cb.push_back(T::mk(900 + i as u32)); } cb.clear(); if s.cap > 0 { while cb.pop_front().is_some() {} } }
        _ => { cb = Cb::from((0..s.cap).map(|i| T::mk(700 + i as u32)).collect::<Vec<T>>()); for i in 0..s.rot { cb.push_back(T::mk(900 + i as u32)); } while cb.pop_front().is_some() {} }
    }
    for i in 0..s.len { if s.how == 1 && i % 2 == 1 { cb.push_front(T::mk(base + i as u32)); m.pf(base + i as u32) } else { cb.push_back(T::mk(base + i as u32)); m.pb(base + i as u32) } }
    (cb, m)
}
fn states(maxcap: usize, hows: usize) -> Vec<St> {
    let mut v = vec![];
    for cap in 0..=maxcap { for rot in 0..=cap { for len in 0..=cap { for how in 0..hows { v.push(St { cap, rot, len, how }) } } } }
    v
}
fn far_states(rng: &mut Rng, n: usize) -> Vec<St> {
    let h = hints();
    let extra = h.len() * 6;
    (0..n + extra).map(|i| {
        let cap = if i < extra { let x = h[i / 6]; if x > 3000 && i % 6 > 1 { 12 } else { x + [0, 0, 0, 1, 7, 100][i % 6] } } else { 0 };
        let i = i.saturating_sub(extra);
        let cap = if cap > 0 { cap } else { match i % 6 { _ if i % 30 == 17 => [1023, 1024, 1025, 2047, 2048, 2049][i / 30 % 6], _ if i % 97 == 40 => [4095, 4096, 4097, 10_000][i / 97 % 4], _ if i == 25 => 65_537, _ if i == 55 => 65_536, 0 => 255, 1 => 256, 2 => 257, 3 => 16 + rng.below(48) as usize, 4 => 511 + rng.below(4) as usize, _ => 8 + rng.below(9) as usize } };
        let len = match rng.below(4) { 0 => cap, 1 => cap - 1, 2 => cap / 2, _ => rng.below(cap as u64 + 1) as usize };
        let len = if !h.is_empty() && rng.below(3) == 0 { h[rng.below(h.len() as u64) as usize].min(cap) } else { len };
        let rot = match rng.below(4) { 0 => cap, 1 => 0, 2 => cap + 1 - len, _ => rng.below(cap as u64 + 1) as usize };
        St { cap, rot: rot % (cap + 1), len, how: rng.below(HOWS as u64) as usize }
    }).collect()
}

// ---- histories
#[derive(Clone, Debug)]
enum Op { Pb, Pf, Ob, Of, Clear, Resize(usize), Ext(usize), ExtRef(usize), Drain(usize), DrainForget(usize), Append(usize, usize), Linearize, Reverse, Swap(usize, usize), Set(usize), Dup, First, Last, IterMut, Slices, Collect, CollectRef, IntoIter(usize), Cmp, AppendTo(usize), CloneFrom(usize, usize), CloneOnto(usize, usize), WalkInto(usize, usize), WalkDrain(usize, usize) }
use self::Op::*;

struct Run<T> { cb: Cb<T>, m: M, next: u32 }
impl<T: El> Run<T> {
    fn n(&mut self) -> u32 { self.next += 1; self.next }
    fn popped(&self, what: &str, want: Option<u32>, got: Option<T>) -> R { eq(what, want.map(norm::<T>), got.map(|x| x.id())) }
    fn step(&mut self, o: &Op) -> R {
        match o {
            Pb => { let v = self.n(); self.cb.push_back(T::mk(v)); self.m.pb(v) }
            Pf => { let v = self.n(); self.cb.push_front(T::mk(v)); self.m.pf(v) }
            Ob => { let w = self.m.q.pop_back(); let g = self.cb.pop_back(); self.popped("pop_back()", w, g)? }
            Of => { let w = self.m.q.pop_front(); let g = self.cb.pop_front(); self.popped("pop_front()", w, g)? }
            Clear => { self.cb.clear(); self.m.q.clear() }
            Resize(n) => { self.cb.resize(*n); self.m.resize(*n) }
            Ext(k) => { let b = self.next; self.next += *k as u32; self.cb.extend((0..*k as u32).map(|i| T::mk(b + i))); for i in 0..*k as u32 { self.m.pb(b + i) } }
            ExtRef(k) => { let b = self.next; self.next += *k as u32; let v: Vec<T> = (0..*k as u32).map(|i| T::mk(b + i)).collect(); self.cb.extend(v.iter()); for i in 0..*k as u32 { self.m.pb(b + i) } }
            Drain(k) | DrainForget(k) => {
                let mut g = vec![];
                { let mut d = self.cb.drain(); for _ in 0..*k { match d.next() { Some(x) => g.push(x.id()), None => break } } if let DrainForget(_) = o { std::mem::forget(d) } }
                let mut w = vec![];
                for _ in 0..*k { match self.m.q.pop_front() { Some(x) => w.push(norm::<T>(x)), None => break } }
                eq("drained elements", w, g)?
            }
            Append(c, k) => {
                let b = self.next; self.next += *k as u32;
                let mut src: Cb<T> = Cb::with_capacity(*c);
                let mut sm = M { cap: *c, q: Q::new() };
                for i in 0..*k as u32 { src.push_back(T::mk(b + i)); sm.pb(b + i) }
                self.cb.append(&mut src);
                for x in sm.q.drain(..) { self.m.pb(x) }
                same("of the source after append", &src, &sm)?
            }
            AppendTo(c) => {
                let mut dst: Cb<T> = Cb::with_capacity(*c);
                let mut dm = M { cap: *c, q: Q::new() };
                dst.append(&mut self.cb);
                for x in self.m.q.drain(..) { dm.pb(x) }
                same("of the target after append", &dst, &dm)?;
                self.cb.append(&mut dst);
                for x in dm.q.drain(..) { self.m.pb(x) }
                same("of the other buffer after append", &dst, &dm)?
            }
            Linearize => { let w = normed::<T>(&self.m.q); let g = ids(self.cb.linearize().iter()); eq("linearize()", w, g)? }
            Reverse => { self.cb.reverse(); let q: Q = self.m.q.iter().rev().copied().collect(); self.m.q = q }
            Swap(a, b) => { let l = self.m.q.len(); if l > 0 { self.cb.swap(a % l, b % l); self.m.q.swap(a % l, b % l) } }
            Set(i) => { let l = self.m.q.len(); if l > 0 { let v = self.n(); self.cb[i % l] = T::mk(v); self.m.q[i % l] = v } }
            Dup => { let c = self.cb.clone(); same("of the clone", &c, &self.m)?; let old = std::mem::replace(&mut self.cb, c); drained("from the original", old, &self.m)? }
            First => { let v = self.n(); match self.cb.first_mut() { Some(x) => *x = T::mk(v), None => {} } if let Some(x) = self.m.q.front_mut() { *x = v } }
            Last => { let v = self.n(); match self.cb.last_mut() { Some(x) => *x = T::mk(v), None => {} } if let Some(x) = self.m.q.back_mut() { *x = v } }
            IterMut => { let b = self.next; for (i, x) in self.cb.iter_mut().enumerate() { *x = T::mk(b + i as u32) } for (i, x) in self.m.q.iter_mut().enumerate() { *x = b + i as u32 } self.next += self.m.q.len() as u32 }
            Slices => { let (a, b) = self.cb.slices(); let g: Vec<u32> = ids(a.iter().chain(b.iter())); eq("slices()", normed::<T>(&self.m.q), g)? }
            Collect => { let c = std::mem::replace(&mut self.cb, Cb::with_capacity(0)); self.cb = c.into_iter().collect(); self.m.cap = self.m.q.len() }
            CollectRef => { let c = Cb::from_iter(self.cb.iter()); self.cb = c; self.m.cap = self.m.q.len() }
            IntoIter(k) => {
                let c = std::mem::replace(&mut self.cb, Cb::with_capacity(self.m.cap));
                let mut it = c.into_iter();
                let mut g = vec![];
                for _ in 0..*k { match it.next() { Some(x) => g.push(x.id()), None => break } }
                eq("into_iter()", normed::<T>(&self.m.q).into_iter().take(*k).collect::<Vec<_>>(), g)?;
                self.m.q.clear();
            }
            Cmp => {}
            CloneFrom(c, k) => {
                let b = self.next; self.next += *k as u32;
                let mut src: Cb<T> = Cb::with_capacity(*c);
                let mut sm = M { cap: *c, q: Q::new() };
                for i in 0..*k as u32 { src.push_back(T::mk(b + i)); sm.pb(b + i) }
                self.cb.clone_from(&src);
                drained("from the source of clone_from", src, &sm)?;
                self.m = sm
            }
            CloneOnto(c, k) => {
                let mut dst: Cb<T> = Cb::with_capacity(*c);
                for i in 0..*k as u32 { if i % 2 == 0 { dst.push_front(T::mk(900 + i)) } else { dst.push_back(T::mk(900 + i)) } }
                dst.clone_from(&self.cb);
                let old = std::mem::replace(&mut self.cb, dst);
                drained("from the source of clone_from", old, &self.m)?
            }
            WalkInto(form, k) => {
                let c = std::mem::replace(&mut self.cb, Cb::with_capacity(self.m.cap));
                let w = walk(*form, *k, normed::<T>(&self.m.q).into_iter(), &|x| *x);
                self.m.q.clear();
                eq(&format!("into_iter(), way {} of using it with {}", form, k), w, walk(*form, *k, c.into_iter(), &|x| x.id()))?
            }
            WalkDrain(form, k) => drain_walk(&mut self.cb, &mut self.m, *form, *k)?,
        }
        same("after an operation", &self.cb, &self.m)
    }
}
fn history<T: El>(s: St, ops: &[Op]) -> R {
    let (cb, m) = build::<T>(s, 10);
    let mut r = Run { cb, m, next: 10 + s.len as u32 };
    same("before the operations", &r.cb, &r.m)?;
    for o in ops { r.step(o)?; }
    drained("at the end", r.cb, &r.m)
}
/// the same with a type that counts its instances
fn counted(s: St, ops: &[Op]) -> R {
    reg_reset();
    let (cb, m) = build::<Tr>(s, 10);
    let mut r = Run { cb, m, next: 10 + s.len as u32 };
    eq("elements alive before the operations", r.m.q.len(), reg_live())?;
    for (i, o) in ops.iter().enumerate() {
        if let Cmp = o { let c = r.cb.clone(); let _ = (r.cb == c, r.cb.partial_cmp(&c), r.cb == r.cb.clone().linearize()[..], format!("{:?}", c)); }
        else { r.step(o)?; }
        reg_bad()?;
        eq(&format!("elements alive after operation {}", i), r.m.q.len(), reg_live())?;
    }
    drop(r);
    reg_bad()?;
    eq("elements alive after the buffer was dropped", 0, reg_live())
}
fn counted_zst(s: St, ops: &[Op]) -> R { counted_by_number::<Zd>(s, ops) }
fn counted_by_number<T: El>(s: St, ops: &[Op]) -> R {
    ZST.with(|z| *z.borrow_mut() = 0);
    let live = || ZST.with(|z| *z.borrow());
    let (cb, m) = build::<T>(s, 10);
    let mut r = Run { cb, m, next: 10 + s.len as u32 };
    for (i, o) in ops.iter().enumerate() { r.step(o)?; eq(&format!("elements alive after operation {}", i), r.m.q.len() as i64, live())?; }
    drop(r);
    eq("elements alive after the buffer was dropped", 0, live())
}
/// user code (clone, comparison or an iterator) that panics half way must not make any element be used or dropped when it is not there
fn panicking(s: St, form: usize, k: usize) -> R {
    reg_reset();
    {
        let (mut cb, _) = build::<Tr>(s, 10);
        let extra: Vec<Tr> = (0..s.cap as u32 + 3).map(|i| Tr::new(60 + i)).collect();
        FUSE.with(|f| *f.borrow_mut() = Some(k));
        let r = catch(|| match form {
            0 => drop(cb.clone()),
            1 => cb.extend(extra.iter()),
            2 => drop(Cb::<Tr>::from_iter(extra.iter())),
            3 => cb.extend((0..9).map(|i| { tick(); Tr::new(i) })),
            4 => drop(Cb::<Tr>::from_iter((0..9).map(|i| { tick(); Tr::new(i) }))),
            5 => { let o = cb.clone(); let _ = o == cb; }
            6 => { let mut o = Cb::with_capacity(1); o.push_back(Tr::new(3)); o.clone_from(&cb) }
            7 => { for x in cb.drain() { if x.n % 3 == 1 { tick() } } }
            _ => { let o = std::mem::replace(&mut cb, Cb::new(1)); for x in o { if x.n % 3 != 1 { tick() } } }
        });
        FUSE.with(|f| *f.borrow_mut() = None);
        let _ = r;
        reg_bad()?;
        eq("length and number of elements seen after the panic", cb.len(), ids(cb.iter()).len())?;
        eq("capacity", if form == 8 { 1 } else { s.cap }, cb.capacity())?;
        cb.push_back(Tr::new(1)); cb.push_front(Tr::new(2));
        while cb.pop_front().is_some() {}
        reg_bad()?;
    }
    reg_bad()
}
fn random_op(rng: &mut Rng, cap: usize, all: bool) -> Op {
    let h = hints();
    let sm = |r: &mut Rng| if !h.is_empty() && r.below(9) == 0 { h[r.below(h.len() as u64) as usize].min(3 * cap + 5) } else { r.below(cap as u64 + 3) as usize };
    match rng.below(if all { 35 } else { 9 }) {
        0 | 1 => Pb, 2 | 3 => Pf, 4 | 5 => Of, 6 | 7 => Ob, 8 => if rng.below(6) == 0 { Clear } else { Pb },
        9 | 10 => Resize(sm(rng)), 11 => Ext(sm(rng)), 12 => ExtRef(sm(rng)), 13 => Drain(sm(rng)), 14 => { let a = sm(rng); let b = sm(rng); Append(a, b) }
        15 => Linearize, 16 => Reverse, 17 => Swap(sm(rng), sm(rng)), 18 => Set(sm(rng)), 19 => Dup, 20 => First, 21 => Last, 22 => IterMut, 23 => Slices,
        24 => if rng.below(3) == 0 { Collect } else { Pb }, 25 => if rng.below(3) == 0 { CollectRef } else { Pf }, 26 => IntoIter(sm(rng)), 27 => Cmp, 28 => AppendTo(sm(rng)),
        29 => { let a = if rng.below(2) == 0 { cap } else { sm(rng) }; CloneFrom(a, sm(rng)) } 30 => { let a = if rng.below(2) == 0 { cap } else { sm(rng) }; CloneOnto(a, sm(rng)) }
        31 => WalkInto(rng.below(WALKS as u64) as usize, sm(rng)), 32 => WalkDrain(rng.below(WALKS as u64) as usize, sm(rng)), 33 => DrainForget(sm(rng)), _ => Pb,
    }
}

macro_rules! for_types { ($cx:ident, $input:expr, $($t:ty),* ; $go:ident $args:tt) => { $( $cx.case(true, &|| format!("{} of {}", $input, <$t as El>::NAME), &mut || $go::<$t> $args); )* } }

fn c01(cx: &mut Cx) {
    cx.rule = "a history of pushes, pops and clears on a buffer of a given capacity, with all elements distinct where the type allows".into();
    let base = [Pb, Pf, Ob, Of, Clear];
    let depth = if cx.thorough { 8 } else { 6 };
    for cap in 0..=3usize {
        let total = 5usize.pow(depth);
        for code in 0..total {
            if cx.done() { return; }
            let mut c = code;
            let ops: Vec<Op> = (0..depth).map(|_| { let o = base[c % 5].clone(); c /= 5; o }).collect();
            let s = St { cap, rot: 0, len: 0, how: 0 };
            cx.case(true, &|| format!("capacity {}: {:?}, u32", cap, ops), &mut || history::<u32>(s, &ops));
        }
    }
    cx.exhaustive.push(format!("all histories of {} operations on capacities 0 to 3", depth));
    for s in states(if cx.thorough { 9 } else { 6 }, HOWS) {
        for ops in [vec![Pb; s.cap + 2], vec![Pf; s.cap + 2], vec![Of; s.cap + 2], vec![Ob; s.cap + 2], vec![Pb, Pf, Pb, Pf, Ob, Of, Clear, Pf, Pb], vec![Clear, Clear, Pf, Of, Pb, Ob]] {
            let d = format!("{:?} then {:?}", s, ops);
            for_types!(cx, d, u32, String, u8, Wide ; history(s, &ops));
        }
    }
    cx.exhaustive.push("every start slot and length for the small capacities".into());
    let n = if cx.thorough { 3000 } else { 300 };
    let mut rng = Rng::new(cx.seed);
    for s in far_states(&mut rng, n) {
        if cx.done() { return; }
        let k = 20 + rng.below(3 * s.cap as u64 + 10) as usize;
        let bias = rng.below(3);
        let ops: Vec<Op> = (0..k).map(|_| match bias { 0 if rng.bool() => Pb, 1 if rng.bool() => Pf, _ => random_op(&mut rng, s.cap, false) }).collect();
        let d = format!("{:?} then {:?}", s, &ops[..]);
        for_types!(cx, d, u32, Box<u64>, (), bool, [u64; 5] ; history(s, &ops));
    }
    // long lives of one buffer
    for (cap, k, bias) in [(1usize, 70_000usize, 0), (2, 70_000, 1), (5, 140_000, 2), (7, 70_000, 3), (100, 140_000, 4), (1000, 70_000, 0), (3, 70_000, 4)] {
        let seed = cx.seed * 31 + k as u64 + bias as u64;
        cx.case(true, &|| format!("capacity {}: {} operations, bias {}, seed {}", cap, k, bias, seed), &mut || {
            let mut g = Rng::new(seed);
            let mut cb: Cb<u32> = Cb::with_capacity(cap);
            let mut m = M { cap, q: Q::new() };
            for i in 0..k as u32 {
                let o = match bias { 0 => 0, 1 => 1, 2 => g.below(2), 3 => [0, 3, 0, 3, 0, 2][i as usize % 6], _ => g.below(4) };
                match o {
                    0 => { cb.push_back(i); m.pb(i) } 1 => { cb.push_front(i); m.pf(i) }
                    2 => { let (w, h) = (m.q.pop_back(), cb.pop_back()); eq("pop_back()", w, h)?; }
                    _ => { let (w, h) = (m.q.pop_front(), cb.pop_front()); eq("pop_front()", w, h)?; }
                }
                if cb.len() != m.q.len() || cb.first() != m.q.front() || cb.last() != m.q.back() { return Err((format!("ends after operation {}", i), format!("{:?} {:?} {:?}", m.q.len(), m.q.front(), m.q.back()), format!("{:?} {:?} {:?}", cb.len(), cb.first(), cb.last()))); }
                if i % 9973 == 0 { same(&format!("after operation {}", i), &cb, &m)?; }
            }
            same("at the end", &cb, &m)
        });
    }
    let big = if cx.thorough { vec![65535, 65536, 65537, 200000] } else { vec![65536, 66000] };
    for cap in big {
        cx.case(true, &|| format!("capacity {}: filled from both ends, overfilled and emptied", cap), &mut || {
            let mut cb: Cb<u32> = Cb::new(cap);
            let mut m = M { cap, q: Q::new() };
            for i in 0..cap as u32 + 9 { if i % 3 == 0 { cb.push_front(i); m.pf(i) } else { cb.push_back(i); m.pb(i) } if i % 4001 == 0 { eq("length", m.q.len(), cb.len())?; } }
            same("when full", &cb, &m)?;
            for i in 0..20 { if i % 2 == 0 { cb.pop_front(); m.q.pop_front(); } else { cb.pop_back(); m.q.pop_back(); } }
            same("after pops", &cb, &m)?;
            drained("at the end", cb, &m)
        });
    }
}

fn indices(len: usize, cap: usize) -> Vec<usize> {
    if cap <= 12 { let mut v: Vec<usize> = (0..len + cap + 3).collect(); v.extend([usize::MAX, usize::MAX - 1, usize::MAX - cap, isize::MAX as usize, 1 << 32]); v }
    else { let mut v = vec![0, 1, len / 2, len.wrapping_sub(1), len, len + 1, cap, cap + 1, 2 * cap, usize::MAX, usize::MAX - cap]; for k in 0..len { if k % 37 == 5 { v.push(k) } } v }
}
fn positional<T: El>(s: St) -> R {
    let (mut cb, mut m) = build::<T>(s, 10);
    eq("first()", m.q.front().map(|x| norm::<T>(*x)), cb.first().map(|x| x.id()))?;
    eq("last()", m.q.back().map(|x| norm::<T>(*x)), cb.last().map(|x| x.id()))?;
    for i in indices(s.len, s.cap) {
        if i < m.q.len() {
            eq(&format!("cb[{}]", i), norm::<T>(m.q[i]), cb[i].id())?;
            eq(&format!("mutable cb[{}]", i), norm::<T>(m.q[i]), { let x = &mut cb[i]; x.id() })?;
            cb[i] = T::mk(4000 + i as u32);
            m.q[i] = 4000 + i as u32;
            same(&format!("after cb[{}] = x", i), &cb, &m)?;
        } else {
            eq(&format!("cb[{}] panics", i), true, panics(|| { let _ = cb[i].id(); }))?;
            eq(&format!("mutable cb[{}] panics", i), true, panics(|| { cb[i] = T::mk(5); }))?;
            same(&format!("after the panic of cb[{}]", i), &cb, &m)?;
        }
    }
    match (cb.first_mut(), m.q.front_mut()) { (Some(a), Some(b)) => { eq("first_mut()", norm::<T>(*b), a.id())?; *a = T::mk(5001); *b = 5001 } (a, b) => eq("first_mut() is None", b.is_none(), a.is_none())? }
    same("after a write to first_mut()", &cb, &m)?;
    match (cb.last_mut(), m.q.back_mut()) { (Some(a), Some(b)) => { eq("last_mut()", norm::<T>(*b), a.id())?; *a = T::mk(5002); *b = 5002 } (a, b) => eq("last_mut() is None", b.is_none(), a.is_none())? }
    same("after a write to last_mut()", &cb, &m)?;
    drained("at the end", cb, &m)
}
fn c02(cx: &mut Cx) {
    cx.rule = "a buffer state (capacity, slot of the front element, length, way it was reached), read and written at every position and beyond the end".into();
    for s in states(if cx.thorough { 12 } else { 7 }, HOWS) {
        if cx.done() { return; }
        let d = format!("{:?}", s);
        for_types!(cx, d, u32, String, Box<u64>, (), Wide ; positional(s));
    }
    cx.exhaustive.push("every start slot, length and index for the small capacities".into());
    let mut rng = Rng::new(cx.seed);
    for s in far_states(&mut rng, if cx.thorough { 1200 } else { 120 }) { let d = format!("{:?}", s); for_types!(cx, d, u32, [u64; 5] ; positional(s)); }
    // the state after other operations
    for s in states(5, 1) {
        for pre in [Linearize, Reverse, Resize(3), Resize(7), Dup, CollectRef, Drain(1), Ext(3), Append(2, 3)] {
            if cx.done() { return; }
            cx.case(true, &|| format!("{:?} after {:?}, u32", s, pre), &mut || {
                let (cb, m) = build::<u32>(s, 10);
                let mut r = Run { cb, m, next: 60 };
                r.step(&pre)?;
                for i in 0..r.m.q.len() { eq(&format!("cb[{}]", i), r.m.q[i], r.cb[i])?; }
                for i in r.m.q.len()..r.m.q.len() + r.m.cap + 3 { let c = &r.cb; eq(&format!("cb[{}] panics", i), true, panics(|| { let _ = c[i]; }))?; }
                for k in 0..r.m.q.len() { r.cb[k] += 100; r.m.q[k] += 100; }
                eq("first()", r.m.q.front().copied(), r.cb.first().copied())?;
                eq("last()", r.m.q.back().copied(), r.cb.last().copied())?;
                same("after writes", &r.cb, &r.m)
            });
        }
    }
}

fn views<T: El>(s: St) -> R {
    let (mut cb, mut m) = build::<T>(s, 10);
    let w = normed::<T>(&m.q);
    { let (a, b) = cb.slices(); let g = ids(a.iter().chain(b.iter())); eq("slices()", w.clone(), g)?; eq("length of the slices", w.len(), a.len() + b.len())?; }
    eq("iter()", w.clone(), ids(cb.iter()))?;
    eq("iter() backwards", w.iter().rev().copied().collect::<Vec<_>>(), ids(cb.iter().rev()))?;
    eq("iter().count()", w.len(), cb.iter().count())?;
    eq("iter().last()", w.last().copied(), cb.iter().last().map(|x| x.id()))?;
    for k in 0..w.len().min(6) + 1 { eq(&format!("iter().nth({})", k), w.get(k).copied(), cb.iter().nth(k).map(|x| x.id()))?; }
    eq("&cb into_iter()", w.clone(), ids((&cb).into_iter()))?;
    if s.how == 0 { for form in 0..WALKS { for k in 0..(w.len() + 2).min(6) {
        let t = walk(form, k, w.clone().into_iter(), &|x| *x);
        eq(&format!("iter(), way {} of using it with {}", form, k), &t, &walk(form, k, cb.iter(), &|x| x.id()))?;
        eq(&format!("iter_mut(), way {} of using it with {}", form, k), &t, &walk(form, k, cb.iter_mut(), &|x| x.id()))?;
        eq(&format!("&cb into_iter(), way {} of using it with {}", form, k), &t, &walk(form, k, (&cb).into_iter(), &|x| x.id()))?;
    } } }
    { let g: Vec<u32> = cb.iter_mut().map(|x| x.id()).collect(); eq("iter_mut()", w.clone(), g)?; }
    { let g: Vec<u32> = (&mut cb).into_iter().map(|x| x.id()).collect(); eq("&mut cb into_iter()", w.clone(), g)?; }
    let n = w.len() as u32;
    for (i, x) in cb.iter_mut().enumerate() { *x = T::mk(1000 + i as u32) }
    for (i, x) in m.q.iter_mut().enumerate() { *x = 1000 + i as u32 }
    same("after writes through iter_mut()", &cb, &m)?;
    for (i, x) in (&mut cb).into_iter().enumerate() { *x = T::mk(1200 + i as u32) }
    for (i, x) in m.q.iter_mut().enumerate() { *x = 1200 + i as u32 }
    same("after writes through &mut cb into_iter()", &cb, &m)?;
    { let (a, b) = cb.slices_mut(); let g: Vec<u32> = ids(a.iter().chain(b.iter())); eq("slices_mut()", normed::<T>(&m.q), g)?; for (i, x) in a.iter_mut().chain(b.iter_mut()).enumerate() { *x = T::mk(1400 + i as u32) } }
    for (i, x) in m.q.iter_mut().enumerate() { *x = 1400 + i as u32 }
    same("after writes through slices_mut()", &cb, &m)?;
    { let l = cb.linearize(); eq("linearize()", normed::<T>(&m.q), ids(l.iter()))?; for (i, x) in l.iter_mut().enumerate() { *x = T::mk(1600 + i as u32) } }
    for (i, x) in m.q.iter_mut().enumerate() { *x = 1600 + i as u32 }
    same("after writes through linearize()", &cb, &m)?;
    { let (a, b) = cb.slices(); eq("slices() after linearize()", normed::<T>(&m.q), ids(a.iter().chain(b.iter())))?; }
    { let l = cb.linearize(); eq("linearize() again", normed::<T>(&m.q), ids(l.iter()))?; }
    for k in 0..m.cap as u32 + 2 { if k % 2 == 0 { cb.push_back(T::mk(2000 + k)); m.pb(2000 + k) } else { cb.push_front(T::mk(2000 + k)); m.pf(2000 + k) } if k < 12 { same("after pushes after linearize()", &cb, &m)?; } }
    let _ = n;
    drained("at the end", cb, &m)
}
fn c03(cx: &mut Cx) {
    cx.rule = "a buffer state (capacity, slot of the front element, length, way it was reached), seen and changed through every view".into();
    for s in states(if cx.thorough { 14 } else { 9 }, HOWS) {
        if cx.done() { return; }
        let d = format!("{:?}", s);
        for_types!(cx, d, u32, String, [u64; 5], (), Wide, std::sync::Arc<str> ; views(s));
    }
    cx.exhaustive.push("every start slot and length for the small capacities".into());
    let mut rng = Rng::new(cx.seed);
    for s in far_states(&mut rng, if cx.thorough { 1200 } else { 150 }) { let d = format!("{:?}", s); for_types!(cx, d, u32, Box<u64>, std::num::NonZeroU16 ; views(s)); }
    for i in 0..if cx.thorough { 4000 } else { 400 } {
        if cx.done() { return; }
        let cap = rng.below(10) as usize;
        let s = St { cap, rot: rng.below(cap as u64 + 1) as usize, len: rng.below(cap as u64 + 1) as usize, how: i % HOWS };
        let ops: Vec<Op> = (0..25).map(|_| match rng.below(4) { 0 => Linearize, 1 => Slices, 2 => IterMut, _ => random_op(&mut rng, cap, true) }).collect();
        let d = format!("{:?} then {:?}", s, ops);
        for_types!(cx, d, u32, String ; history(s, &ops));
    }
}

fn swaps<T: El>(s: St) -> R {
    let (mut cb, mut m) = build::<T>(s, 10);
    let lim = if s.cap <= 9 { s.len + s.cap + 2 } else { 0 };
    for a in 0..lim { for b in 0..lim {
        if a < m.q.len() && b < m.q.len() { cb.swap(a, b); m.q.swap(a, b); }
        else { eq(&format!("swap({}, {}) panics", a, b), true, panics(|| cb.swap(a, b)))?; }
        same(&format!("after swap({}, {})", a, b), &cb, &m)?;
    } }
    let n = m.q.len();
    if lim == 0 && n > 0 { for (a, b) in [(0, n - 1), (n / 2, n / 3), (n - 1, n - 1), (n - 1, 0), (1 % n, n / 2)] { cb.swap(a, b); m.q.swap(a, b); same(&format!("after swap({}, {})", a, b), &cb, &m)?; } }
    for (a, b) in [(0, n), (n, 0), (n, n), (usize::MAX, 0), (0, usize::MAX), (usize::MAX - s.cap, 0), (n + s.cap + 1, 0), (0, n + s.cap + 1)] { eq(&format!("swap({}, {}) panics", a, b), true, panics(|| cb.swap(a, b)))?; same(&format!("after swap({}, {})", a, b), &cb, &m)?; }
    cb.reverse();
    m.q = m.q.iter().rev().copied().collect();
    same("after reverse()", &cb, &m)?;
    cb.reverse();
    m.q = m.q.iter().rev().copied().collect();
    same("after reverse() twice", &cb, &m)?;
    cb.reverse();
    m.q = m.q.iter().rev().copied().collect();
    cb.push_back(T::mk(77)); m.pb(77);
    cb.push_front(T::mk(78)); m.pf(78);
    same("after pushes", &cb, &m)?;
    drained("at the end", cb, &m)
}
fn c04(cx: &mut Cx) {
    cx.rule = "a buffer state with swaps of every pair of positions, also beyond the end, and reversals".into();
    for s in states(if cx.thorough { 10 } else { 7 }, HOWS) { if cx.done() { return; } let d = format!("{:?}", s); for_types!(cx, d, u32, String ; swaps(s)); }
    cx.exhaustive.push("every start slot, length and pair of positions for the small capacities".into());
    let mut rng = Rng::new(cx.seed);
    for s in far_states(&mut rng, if cx.thorough { 1500 } else { 200 }) { let d = format!("{:?}", s); for_types!(cx, d, u32, [u64; 5], bool, Wide, Box<u64> ; swaps(s)); }
}

fn resizes<T: El>(s: St, ns: &[usize]) -> R {
    let (mut cb, mut m) = build::<T>(s, 10);
    for (i, n) in ns.iter().enumerate() {
        cb.resize(*n); m.resize(*n);
        same(&format!("after resize({})", n), &cb, &m)?;
        let f = 3000 + 50 * i as u32;
        if i % 2 == 0 { cb.push_back(T::mk(f)); m.pb(f); cb.pop_front(); m.q.pop_front(); } else { cb.push_front(T::mk(f)); m.pf(f); }
        same("after a push", &cb, &m)?;
    }
    for k in 0..(m.cap as u32 + 2).min(40) { cb.push_back(T::mk(6000 + k)); m.pb(6000 + k); }
    same("after it was filled", &cb, &m)?;
    drained("at the end", cb, &m)
}
fn c05(cx: &mut Cx) {
    cx.rule = "a buffer state and a sequence of new capacities".into();
    for s in states(if cx.thorough { 9 } else { 6 }, HOWS) {
        for n in 0..s.cap + 5 {
            if cx.done() { return; }
            let d = format!("{:?} resized to {}", s, n);
            for_types!(cx, d, u32, String, (), Wide, bool ; resizes(s, &[n]));
            for n2 in [0, s.len, s.cap, n + 1] { let ns = [n, n2, s.cap + 1]; let d = format!("{:?} resized to {:?}", s, ns); for_types!(cx, d, u32 ; resizes(s, &ns)); }
        }
    }
    cx.exhaustive.push("every start slot, length and new capacity for the small capacities".into());
    let mut rng = Rng::new(cx.seed);
    for s in far_states(&mut rng, if cx.thorough { 2000 } else { 250 }) {
        let ns: Vec<usize> = (0..3).map(|_| match rng.below(5) { 0 => s.len, 1 => s.len.saturating_sub(1), 2 => 255 + rng.below(3) as usize, 3 => s.cap, _ => rng.below(2 * s.cap as u64 + 2) as usize }).collect();
        let d = format!("{:?} resized to {:?}", s, ns);
        for_types!(cx, d, u32, Box<u64>, std::num::NonZeroU16 ; resizes(s, &ns));
    }
}

fn c06(cx: &mut Cx) {
    cx.rule = "a history of all operations on elements that count their instances; what is alive is compared with the model after each one".into();
    let one = |s: St| vec![Pb, Pf, Ob, Of, Clear, Resize(0), Resize(s.len), Resize(s.len.saturating_sub(1)), Resize(s.cap + 2), Ext(s.cap + 1), ExtRef(s.cap + 1), Drain(0), Drain(1), Drain(s.cap), DrainForget(0), DrainForget(1), DrainForget(s.cap), Append(2, 2), Append(0, 1), Append(s.cap + 1, s.cap + 1), Linearize, Reverse, Swap(0, 1), Set(1), Dup, First, Last, IterMut, Slices, Collect, CollectRef, IntoIter(0), IntoIter(1), IntoIter(s.cap + 1), Cmp, AppendTo(1), AppendTo(0), CloneFrom(s.cap, 1), CloneFrom(s.cap, s.cap), CloneFrom(s.cap + 1, 2), CloneFrom(s.cap.saturating_sub(1), 0), CloneOnto(s.cap, s.cap + 1), CloneOnto(s.cap + 1, 1)];
    for s in states(if cx.thorough { 5 } else { 4 }, HOWS) {
        for a in one(s) {
            if cx.done() { return; }
            let ops = vec![a.clone()];
            cx.case(true, &|| format!("{:?} then {:?}, counted instances", s, ops), &mut || counted(s, &ops));
            cx.case(true, &|| format!("{:?} then {:?}, counted instances without a size", s, ops), &mut || counted_zst(s, &ops.iter().filter(|o| !matches!(o, Cmp)).cloned().collect::<Vec<_>>()));
            if s.how == 0 { for b in one(s) { let ops = vec![a.clone(), b]; cx.case(true, &|| format!("{:?} then {:?}, counted instances", s, ops), &mut || counted(s, &ops)); } }
        }
    }
    for s in states(4, HOWS) { for form in 0..WALKS { for k in [0, 1, 2, s.len, s.len + 1] {
        if cx.done() { return; }
        for o in [WalkInto(form, k), WalkDrain(form, k)] {
            cx.case(true, &|| format!("{:?} then {:?}, counted instances", s, o), &mut || counted(s, &[o.clone(), Pb, Pf, Of]));
            cx.case(true, &|| format!("{:?} then {:?}, counted instances without a size", s, o), &mut || counted_zst(s, &[o.clone(), Pb]));
        }
    } } }
    for s in states(4, HOWS) { for form in 0..9 { for k in 0..s.cap + 4 {
        if cx.done() { return; }
        cx.case(true, &|| format!("{:?}, form {}: the element type or the iterator panics at use number {}", s, form, k), &mut || panicking(s, form, k));
    } } }
    cx.exhaustive.push("every start slot and length for capacities 0 to 4, with every operation and every pair of operations".into());
    let mut rng = Rng::new(cx.seed);
    for i in 0..if cx.thorough { 20000 } else { 2000 } {
        if cx.done() { return; }
        let cap = if i % 40 == 20 && !hints().is_empty() { hints()[i / 40 % hints().len()].min(5000) } else if i % 40 == 0 { 254 + rng.below(5) as usize } else { rng.below(9) as usize };
        let s = St { cap, rot: rng.below(cap as u64 + 1) as usize, len: rng.below(cap as u64 + 1) as usize, how: i % HOWS };
        let k = 1 + rng.below(40) as usize;
        let ops: Vec<Op> = (0..k).map(|_| random_op(&mut rng, if cap > 9 { 9 } else { cap }, true)).collect();
        cx.case(true, &|| format!("{:?} then {:?}, counted instances", s, ops), &mut || counted(s, &ops));
        if i % 4 == 0 {
            cx.case(true, &|| format!("{:?} then {:?}, counted instances without a size", s, ops), &mut || counted_zst(s, &ops.iter().filter(|o| !matches!(o, Cmp)).cloned().collect::<Vec<_>>()));
            let d = format!("{:?} then {:?}", s, ops);
            for_types!(cx, d, String, bool, std::num::NonZeroU16, Option<Vec<u32>> ; history(s, &ops));
        }
    }
}

fn bulk_in<T: El>(s: St, k: usize) -> R {
    let items = |b: u32| (0..k as u32).map(move |i| T::mk(b + i));
    for form in 0..4 + 2 * LOOSE {
        let (mut cb, mut m) = build::<T>(s, 10);
        let v: Vec<T> = items(500).collect();
        match form { 0 => cb.extend(v), 1 => cb.extend(v.iter()), 2 => cb.extend(&Cb::from(v)), 3 => cb.extend(v.chunks(2).flat_map(|x| x)), f if f < 4 + LOOSE => cb.extend(Loose(v.into_iter(), f)), f => cb.extend(Loose(v.iter(), f)) }
        for i in 0..k as u32 { m.pb(500 + i) }
        same("after extend", &cb, &m)?;
        drained("after extend", cb, &m)?;
    }
    for form in 0..4 + 2 * LOOSE {
        let v: Vec<T> = items(10).collect();
        let cb: Cb<T> = match form { 0 => Cb::from(v), 1 => Cb::from_iter(v), 2 => Cb::from_iter(v.iter()), 3 => { let mut w = Vec::with_capacity(k + 7); w.extend(v); Cb::from(w) } f if f < 4 + LOOSE => Cb::from_iter(Loose(v.into_iter(), f)), f => Cb::from_iter(Loose(v.iter(), f)) };
        let m = M { cap: k, q: (10..10 + k as u32).collect() };
        same("after construction", &cb, &m)?;
        let mut cb = cb;
        let mut m2 = m.clone();
        cb.push_back(T::mk(90)); m2.pb(90);
        same("after a push onto the constructed buffer", &cb, &m2)?;
        drained("after construction", cb, &m2)?;
    }
    Ok(())
}
struct Steps<'a>(&'a mut VecDeque<u32>);
impl<'a> Iterator for Steps<'a> { type Item = u32; fn next(&mut self) -> Option<u32> { self.0.pop_front() } }
/// the same use of a drain and of a queue of the same elements; then what is left
fn drain_walk<T: El>(c: &mut Cb<T>, m: &mut M, form: usize, k: usize) -> R {
    let mut left: VecDeque<u32> = normed::<T>(&m.q).into_iter().collect();
    let wt = if form < 6 || (10..15).contains(&form) { let mut d = Steps(&mut left); walk(form, k, &mut d, &|x| *x) } else { let t = walk(form, k, left.iter().cloned(), &|x| *x); left.clear(); t };
    eq(&format!("drain(), way {} of using it with {}", form, k), wt, walk(form, k, c.drain(), &|x| x.id()))?;
    let gone = m.q.len() - left.len();
    m.q.drain(..gone);
    Ok(())
}
fn bulk_out<T: El>(s: St, k: usize) -> R {
    let (mut cb, mut m) = build::<T>(s, 10);
    { let mut d = cb.drain(); for i in 0..k { let g = d.next().map(|x| x.id()); eq(&format!("drain().next() number {}", i), m.q.pop_front().map(norm::<T>), g)?; } }
    same("after a drain stopped early", &cb, &m)?;
    { let mut d = cb.drain(); for i in 0..k { let g = d.next().map(|x| x.id()); eq(&format!("drain().next() number {}", i), m.q.pop_front().map(norm::<T>), g)?; } std::mem::forget(d); }
    same("after a drain stopped early and forgotten", &cb, &m)?;
    let (mut c2, mut m2) = build::<T>(s, 10);
    { let w: Vec<u32> = m2.q.drain(..k.min(s.len)).map(norm::<T>).collect(); let g: Vec<u32> = c2.drain().take(k).map(|x| x.id()).collect(); eq("drain().take(k)", w, g)?; }
    same("after drain().take(k)", &c2, &m2)?;
    c2.push_front(T::mk(55)); m2.pf(55);
    same("after a push", &c2, &m2)?;
    let (mut c3, mut m3) = build::<T>(s, 10);
    { let w = m3.q.get(k).map(|x| norm::<T>(*x)); let g = c3.drain().nth(k).map(|x| x.id()); eq("drain().nth(k)", w, g)?; m3.q.drain(..(k + 1).min(s.len)); }
    same("after drain().nth(k)", &c3, &m3)?;
    let (mut c4, mut m4) = build::<T>(s, 10);
    { let mut d = c4.drain(); let w: Vec<u32> = m4.q.drain(..).map(norm::<T>).collect(); let mut g = vec![]; for x in d.by_ref() { g.push(x.id()) } eq("drain()", w, g)?; eq("drain() after its end", true, d.next().is_none())?; }
    same("after a complete drain", &c4, &m4)?;
    let (c5, m5) = build::<T>(s, 10);
    let mut it = c5.into_iter();
    for i in 0..k { eq(&format!("into_iter().next() number {}", i), m5.q.get(i).map(|x| norm::<T>(*x)), it.next().map(|x| x.id()))?; }
    let rest: Vec<u32> = it.map(|x| x.id()).collect();
    eq("rest of into_iter()", normed::<T>(&m5.q).into_iter().skip(k).collect::<Vec<_>>(), rest)?;
    for form in 0..WALKS {
        let want = |q: &Q| walk(form, k, normed::<T>(q).into_iter(), &|x| *x);
        let (c, m) = build::<T>(s, 10);
        eq(&format!("into_iter(), way {} of using it with {}", form, k), want(&m.q), walk(form, k, c.into_iter(), &|x| x.id()))?;
        let (mut c, mut m) = build::<T>(s, 10);
        drain_walk(&mut c, &mut m, form, k)?;
        same(&format!("after drain(), way {} of using it with {}", form, k), &c, &m)?;
    }
    let (c6, m6) = build::<T>(s, 10);
    let (lo, hi) = c6.into_iter().size_hint();
    eq("size_hint of into_iter()", true, lo <= m6.q.len() && hi.map_or(true, |h| h >= m6.q.len()))
}
fn appending<T: El>(a: St, b: St) -> R {
    let (mut x, mut mx) = build::<T>(a, 10);
    let (mut y, mut my) = build::<T>(b, 300);
    x.append(&mut y);
    for v in my.q.drain(..) { mx.pb(v) }
    same("of the target", &x, &mx)?;
    same("of the source", &y, &my)?;
    y.push_back(T::mk(7)); my.pb(7);
    y.append(&mut x);
    for v in mx.q.drain(..) { my.pb(v) }
    same("of the first source as target", &y, &my)?;
    same("of the first target as source", &x, &mx)?;
    drained("from the target", y, &my)
}
fn c07(cx: &mut Cx) {
    cx.rule = "a buffer state with a number of items put in or taken out in bulk, or two buffer states with append".into();
    let th = cx.thorough;
    for s in states(if th { 8 } else { 5 }, HOWS) {
        for k in 0..2 * s.cap + 4 {
            if cx.done() { return; }
            let d = format!("{:?}, {} items in", s, k);
            for_types!(cx, d, u32, String, () ; bulk_in(s, k)); if s.how == 0 { for_types!(cx, d, Wide, std::sync::Arc<str> ; bulk_in(s, k)); }
            if k <= s.len + 2 { let d = format!("{:?}, {} items out", s, k); for_types!(cx, d, u32, String, bool ; bulk_out(s, k)); }
        }
    }
    let small = states(if th { 5 } else { 4 }, 1);
    for a in &small { for b in &small { if cx.done() { return; } let d = format!("{:?} append {:?}", a, b); for_types!(cx, d, u32 ; appending(*a, *b)); if (a.cap + b.len) % 3 == 0 { for_types!(cx, d, String ; appending(*a, *b)); } } }
    cx.exhaustive.push("every start slot, length and item count for the small capacities; append between all pairs of states of capacities up to 4".into());
    let mut rng = Rng::new(cx.seed);
    let fs = far_states(&mut rng, if th { 1000 } else { 120 });
    for w in fs.windows(2) {
        let k = match rng.below(4) { 0 => 256, 1 => w[0].cap, 2 => w[0].cap + 1, _ => rng.below(3 * w[0].cap as u64) as usize };
        let d = format!("{:?}, {} items in", w[0], k);
        for_types!(cx, d, u32, Box<u64> ; bulk_in(w[0], k));
        let d = format!("{:?}, {} items out", w[0], k.min(w[0].len));
        for_types!(cx, d, u32, std::num::NonZeroU16 ; bulk_out(w[0], k.min(w[0].len)));
        let d = format!("{:?} append {:?}", w[0], w[1]);
        for_types!(cx, d, u32, [u64; 5] ; appending(w[0], w[1]));
    }
}

/// fills a state with given contents
fn with<T: Clone>(cap: usize, rot: usize, xs: &[T], fill: T) -> Cb<T> {
    let mut cb = Cb::with_capacity(cap);
    if cap > 0 { for _ in 0..rot { cb.push_back(fill.clone()); cb.pop_front(); } }
    for x in xs { cb.push_back(x.clone()) }
    cb
}
fn compare<T: PartialOrd + Clone + Debug>(ca: usize, ra: usize, a: &[T], cb_: usize, rb: usize, b: &[T], fill: T) -> R {
    let x = with(ca, ra, a, fill.clone());
    let y = with(cb_, rb, b, fill);
    related("", &x, a, &y, b)?;
    // one object on both sides
    related("the same object: ", &x, a, &x, a)?;
    let (p, q) = y.slices();
    if q.is_empty() { eq("== its own slice", b == b, y == p)?; }
    Ok(())
}
fn related<T: PartialOrd + Clone + Debug>(h: &str, x: &Cb<T>, a: &[T], y: &Cb<T>, b: &[T]) -> R {
    let eq = |w: &str, m: bool, c: bool| eq(&format!("{}{}", h, w), m, c);
    eq("==", a == b, *x == *y)?;
    eq("!=", a != b, *x != *y)?;
    eq("== [T]", a == b, *x == *b)?;
    eq("!= [T]", a != b, *x != *b)?;
    eq("== &[T]", a == b, *x == b)?;
    eq("!= &[T]", a != b, *x != b)?;
    if a.partial_cmp(b) != x.partial_cmp(y) { eq(&format!("partial_cmp {:?} (should be {:?})", x.partial_cmp(y), a.partial_cmp(b)), true, false)?; }
    eq("<", a < b, *x < *y)?;
    eq("<=", a <= b, *x <= *y)?;
    eq(">", a > b, *x > *y)?;
    eq(">=", a >= b, *x >= *y)
}
fn compare_ord<T: Ord + Clone + Debug>(ca: usize, ra: usize, a: &[T], cb_: usize, rb: usize, b: &[T], fill: T) -> R {
    let x = with(ca, ra, a, fill.clone());
    let y = with(cb_, rb, b, fill.clone());
    eq("cmp", a.cmp(b), x.cmp(&y))?;
    eq("cmp with itself", Ordering::Equal, x.cmp(&x))?;
    // the provided methods of Ord
    let v = |cb: Cb<T>| cb.iter().cloned().collect::<Vec<T>>();
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    if v(x.clone().max(y.clone())) != hi { eq("max is the greater one", true, false)?; }
    if v(x.clone().min(y.clone())) != lo { eq("min is the smaller one", true, false)?; }
    let (l, h) = if a <= b { (&x, &y) } else { (&y, &x) };
    if v(x.clone().clamp(l.clone(), h.clone())) != a { eq("clamp of one of the limits", true, false)?; }
    if v(l.clone().clamp(h.clone(), h.clone())) != hi { eq("clamp from below", true, false)?; }
    if v(h.clone().clamp(l.clone(), l.clone())) != lo { eq("clamp from above", true, false)?; }
    drop((x, y));
    compare(ca, ra, a, cb_, rb, b, fill)
}
fn clones<T: El>(s: St) -> R {
    let (mut cb, mut m) = build::<T>(s, 10);
    let mut c = cb.clone();
    let mut mc = m.clone();
    same("of the clone", &c, &mc)?;
    same("of the original after clone()", &cb, &m)?;
    c.push_back(T::mk(70)); mc.pb(70);
    c.push_front(T::mk(71)); mc.pf(71);
    same("of the original after the clone was changed", &cb, &m)?;
    same("of the clone after it was changed", &c, &mc)?;
    for k in 0..s.cap.min(20) as u32 { cb.push_front(T::mk(80 + k)); m.pf(80 + k) }
    cb.pop_back(); m.q.pop_back();
    same("of the clone after the original was changed", &c, &mc)?;
    same("of the original after it was changed", &cb, &m)?;
    for x in c.iter_mut() { *x = T::mk(3) }
    same("of the original after writes to the clone", &cb, &m)?;
    let mut d = Cb::with_capacity(2);
    d.push_back(T::mk(1));
    d.clone_from(&cb);
    same("of clone_from", &d, &m)?;
    let near = [0, 1, s.len, s.cap, s.cap + 1, s.cap + 3];
    for (i, cap) in near.iter().enumerate() { for len in [0, 1, *cap / 2, cap.saturating_sub(1), *cap] { if len <= *cap {
        let (mut d, _) = build::<T>(St { cap: *cap, rot: (len + i) % (cap + 1), len, how: i % HOWS }, 400);
        d.clone_from(&cb);
        let mut md = m.clone();
        same(&format!("of clone_from onto {} of {} elements", len, cap), &d, &md)?;
        d.push_back(T::mk(90)); md.pb(90); d.push_back(T::mk(91)); md.pb(91); d.push_front(T::mk(92)); md.pf(92);
        same("of the original after changes to what clone_from made", &cb, &m)?;
        drained("from what clone_from made", d, &md)?;
    } } }
    drop(cb);
    drained("from clone_from after the original was dropped", d, &m)
}
fn c08(cx: &mut Cx) {
    cx.rule = "two buffer states (capacities, start slots, contents) compared, or one state cloned".into();
    let th = cx.thorough;
    for s in states(if th { 9 } else { 6 }, HOWS) { if cx.done() { return; } let d = format!("{:?} cloned", s); for_types!(cx, d, u32, String, Option<Vec<u32>>, (), Wide, std::sync::Arc<str> ; clones(s)); }
    // all contents over two letters up to a length, at all capacities and start slots up to a bound
    let mx = if th { 4 } else { 3 };
    let mut seqs: Vec<Vec<u32>> = vec![vec![]];
    let mut i = 0;
    while i < seqs.len() { if seqs[i].len() < mx { for v in [1u32, 2] { let mut t = seqs[i].clone(); t.push(v); seqs.push(t) } } i += 1; }
    let mut n = 0;
    for a in &seqs { for b in &seqs { for ca in a.len()..=mx + 1 { for cb_ in b.len()..=mx + 1 {
        for ra in 0..=ca { for rb in 0..=cb_ {
            n += 1;
            if cx.done() { return; }
            cx.case(true, &|| format!("{:?} (capacity {}, start {}) with {:?} (capacity {}, start {}), u32", a, ca, ra, b, cb_, rb), &mut || compare_ord(ca, ra, a, cb_, rb, b, 2u32));
            if n % 5 == 0 {
                let (sa, sb): (Vec<String>, Vec<String>) = (a.iter().map(|x| x.to_string()).collect(), b.iter().map(|x| x.to_string()).collect());
                cx.case(true, &|| format!("{:?} (capacity {}, start {}) with {:?} (capacity {}, start {}), String", a, ca, ra, b, cb_, rb), &mut || compare_ord(ca, ra, &sa, cb_, rb, &sb, "f".to_string()));
            }
            if n % 3 == 0 {
                let f = |v: &Vec<u32>| v.iter().map(|x| if *x == 1 { 0.5 } else { f64::NAN }).collect::<Vec<f64>>();
                let (fa, fb) = (f(a), f(b));
                cx.case(true, &|| format!("{:?} (capacity {}, start {}) with {:?} (capacity {}, start {}), f64", fa, ca, ra, fb, cb_, rb), &mut || compare(ca, ra, &fa, cb_, rb, &fb, f64::NAN));
            }
            if n % 7 == 0 { let (za, zb) = (vec![(); a.len()], vec![(); b.len()]); cx.case(true, &|| format!("{} and {} elements without a size (capacities {} and {})", a.len(), b.len(), ca, cb_), &mut || compare_ord(ca, ra, &za, cb_, rb, &zb, ())); }
        } }
    } } } }
    cx.exhaustive.push(format!("all contents over two values up to {} elements at all capacities up to {} and all start slots", mx, mx + 1));
    let mut rng = Rng::new(cx.seed);
    for i in 0..if th { 20000 } else { 2000 } {
        if cx.done() { return; }
        let big = i % 20 == 0;
        let la = rng.below(if big { 300 } else { 9 }) as usize;
        let a: Vec<i32> = (0..la).map(|_| rng.below(3) as i32 - 1).collect();
        let mut b = a.clone();
        match rng.below(5) { 0 => { b.pop(); } 1 => b.push(0), 2 => if la > 0 { let k = rng.below(la as u64) as usize; b[k] += 1 }, 3 => { b = (0..rng.below(9)).map(|_| rng.below(3) as i32 - 1).collect() } _ => {} }
        let (ca, cb_) = (a.len() + rng.below(4) as usize, b.len() + rng.below(4) as usize);
        let (ra, rb) = (rng.below(ca as u64 + 1) as usize, rng.below(cb_ as u64 + 1) as usize);
        cx.case(true, &|| format!("{:?} (capacity {}, start {}) with {:?} (capacity {}, start {}), i32", a, ca, ra, b, cb_, rb), &mut || compare_ord(ca, ra, &a, cb_, rb, &b, 5));
        let (pa, pb): (Vec<Rc<(i32, i32)>>, Vec<Rc<(i32, i32)>>) = (a.iter().map(|x| Rc::new((*x, 1))).collect(), b.iter().map(|x| Rc::new((*x, 1))).collect());
        if i % 10 == 0 { cx.case(true, &|| format!("{:?} (capacity {}, start {}) with {:?} (capacity {}, start {}), Rc", a, ca, ra, b, cb_, rb), &mut || compare_ord(ca, ra, &pa, cb_, rb, &pb, Rc::new((0, 0)))); }
    }
    for s in far_states(&mut rng, if th { 500 } else { 60 }) { let d = format!("{:?} cloned", s); for_types!(cx, d, u32, Box<u64>, std::num::NonZeroU16 ; clones(s)); }
}

/// the same for elements of other sizes
fn sizes(p: &str, cx: &mut Cx) {
    let mut rng = Rng::new(cx.seed ^ 0x517e);
    for i in 0..if cx.thorough { 400 } else { 60 } {
        if cx.done() { return; }
        let cap = match i % 5 { 0 => 8 + rng.below(30) as usize, k => 1 + rng.below(3 * k as u64) as usize };
        let s = St { cap, rot: rng.below(cap as u64 + 1) as usize, len: if rng.bool() { cap } else { rng.below(cap as u64 + 1) as usize }, how: i % HOWS };
        let ops: Vec<Op> = (0..25).map(|_| match (p, rng.below(3)) {
            ("C01", _) => random_op(&mut rng, cap, false), ("C03", 0) => [Linearize, Slices, IterMut][rng.below(3) as usize].clone(), ("C04", 0) => if rng.bool() { Reverse } else { Swap(rng.below(40) as usize, rng.below(40) as usize) },
            ("C05", 0) => Resize(rng.below(2 * cap as u64 + 3) as usize), ("C08", 0) => Dup, ("C02", 0) => Set(rng.below(50) as usize), _ => random_op(&mut rng, cap, true) }).filter(|o| !matches!(o, Cmp)).collect();
        macro_rules! go { ($($n:literal)*) => { $(
            cx.case(true, &|| format!("{:?} then {:?}, elements of {} bytes without drop", s, ops, $n), &mut || history::<Sp<$n>>(s, &ops));
            #[cfg(feature = "C06")]
            if p == "C06" { cx.case(true, &|| format!("{:?} then {:?}, counted elements of {} bytes", s, ops, $n), &mut || counted_by_number::<Sd<$n>>(s, &ops)); }
        )* } }
        macro_rules! al { ($($t:ident)*) => { $( cx.case(true, &|| format!("{:?} then {:?}, counted elements, {}", s, ops, stringify!($t)), &mut || counted_by_number::<$t>(s, &ops)); )* } }
        al!(A16 A64 A256 A4096);
        go!(1 2 3 4 5 6 7 8 9 12 15 16 17 20 24 28 32 40 48 56 64 65 72 80 96 100 128 129 192 256 257 512 1000 1024 1025 2048 4096 5000);
    }
}
pub fn run(p: &str, cx: &mut Cx) -> bool {
    match p { #[cfg(feature = "C01")] "C01" => c01(cx), #[cfg(feature = "C02")] "C02" => c02(cx), #[cfg(feature = "C03")] "C03" => c03(cx), #[cfg(feature = "C04")] "C04" => c04(cx), #[cfg(feature = "C05")] "C05" => c05(cx), #[cfg(feature = "C06")] "C06" => c06(cx), #[cfg(feature = "C07")] "C07" => c07(cx), #[cfg(feature = "C08")] "C08" => c08(cx), _ => return false }
    sizes(p, cx);
    true
}
