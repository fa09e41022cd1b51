# Contracts of the module `circular_buffer` (a ring of capacity+1 slots).
@root
pub use std::mem::MaybeUninit;
pub use std::cmp::Ordering;
pub use std::iter::FromIterator;
pub use vstd::raw_ptr::MemContents;
pub use vstd::std_specs::maybe_uninit::*;
pub use vstd::std_specs::iter::IteratorSpec;
pub use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};
use crate::circular_buffer::circular::CircularBuffer;
broadcast use {vstd::std_specs::iter::group_iter_axioms, arith::mod_small};

// cursor arithmetic may be written with % instead of a test
pub mod arith {
use vstd::prelude::*;
pub broadcast proof fn mod_small(x: int, y: int)
    requires 0 <= x < 2 * y,
    ensures #[trigger] (x % y) == (if x < y { x } else { x - y }),
{
    assert(x % y == (if x < y { x } else { x - y })) by (nonlinear_arith) requires 0 <= x < 2 * y;
}
}

// which of the two readings of a panicking contract is proved: with mode_a a panic is excluded by a precondition,
// without it a panic is allowed but returning normally implies the condition
pub uninterp spec fn mode_a() -> bool;
#[verifier::external_body]
pub fn vpanic() -> !
    requires !mode_a(),
    ensures false,
{ panic!() }
pub fn vassert(c: bool)
    requires mode_a() ==> c,
    ensures c,
{ if !c { vpanic() } }
// whether debug assertions are compiled in: either way must be right
#[verifier::external_body]
pub fn in_debug() -> bool { cfg!(debug_assertions) }

// ---- the standard library, as far as vstd does not describe it
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::into_boxed_slice ](v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
pub assume_specification<T, A: std::alloc::Allocator>[ Vec::<T, A>::shrink_to_fit ](v: &mut Vec<T, A>)
    ensures final(v)@ == old(v)@;
pub assume_specification<T>[ <[T]>::rotate_left ](s: &mut [T], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == old(s)@.skip(k as int) + old(s)@.take(k as int);
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len() && b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T>[ std::mem::drop ](v: T);

// what a slot holds
pub open spec fn holds<T>(m: MaybeUninit<T>) -> bool { m.mem_contents().is_init() }
pub open spec fn held<T>(m: MaybeUninit<T>) -> T { m.mem_contents().value() }

// transmute between a slice of filled slots and the slice of their contents
pub trait VxTransmute<U>: Sized {
    #[verifier::prophetic]
    spec fn vx_pre(self) -> bool;
    #[verifier::prophetic]
    spec fn vx_post(self, r: U) -> bool;
    unsafe fn vx_go(self) -> (r: U)
        requires self.vx_pre(),
        ensures self.vx_post(r);
}
impl<'a, T> VxTransmute<&'a [T]> for &'a [MaybeUninit<T>] {
    #[verifier::prophetic]
    open spec fn vx_pre(self) -> bool { forall|i: int| 0 <= i < self@.len() ==> holds(#[trigger] self@[i]) }
    #[verifier::prophetic]
    open spec fn vx_post(self, r: &'a [T]) -> bool { r@.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == held(self@[i]) }
    #[verifier::external_body]
    unsafe fn vx_go(self) -> (r: &'a [T]) { std::mem::transmute(self) }
}
impl<'a, T> VxTransmute<&'a mut [T]> for &'a mut [MaybeUninit<T>] {
    #[verifier::prophetic]
    open spec fn vx_pre(self) -> bool { forall|i: int| 0 <= i < self@.len() ==> holds(#[trigger] self@[i]) }
    #[verifier::prophetic]
    open spec fn vx_post(self, r: &'a mut [T]) -> bool {
        &&& r@.len() == self@.len() && final(r)@.len() == self@.len() && final(self)@.len() == self@.len()
        &&& forall|i: int| 0 <= i < self@.len() ==> #[trigger] r@[i] == held(self@[i])
        &&& forall|i: int| 0 <= i < self@.len() ==> holds(#[trigger] final(self)@[i]) && held(final(self)@[i]) == final(r)@[i]
    }
    #[verifier::external_body]
    unsafe fn vx_go(self) -> (r: &'a mut [T]) { std::mem::transmute(self) }
}
pub unsafe fn transmute<A: VxTransmute<B>, B>(a: A) -> (r: B)
    requires a.vx_pre(),
    ensures a.vx_post(r),
{ a.vx_go() }

// Iterator::chain of two slice iterators
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct ExChain<A, B>(std::iter::Chain<A, B>);
pub assume_specification<A: Iterator, B: Iterator<Item = A::Item>>[ <std::iter::Chain<A, B> as Iterator>::next ](it: &mut std::iter::Chain<A, B>) -> (r: Option<A::Item>);
pub trait VxChain: Iterator + Sized {
    fn vx_chain(self, b: Self) -> (r: std::iter::Chain<Self, Self>)
        ensures r.obeys_prophetic_iter_laws() && r.decrease() is Some && r.remaining() == self.remaining() + b.remaining();
}
impl<'a, T> VxChain for std::slice::Iter<'a, T> {
    #[verifier::external_body]
    fn vx_chain(self, b: Self) -> (r: std::iter::Chain<Self, Self>) { self.chain(b) }
}
impl<'a, T> VxChain for std::slice::IterMut<'a, T> {
    #[verifier::external_body]
    fn vx_chain(self, b: Self) -> (r: std::iter::Chain<Self, Self>) { self.chain(b) }
}
pub fn chain<A: VxChain>(a: A, b: A) -> (r: std::iter::Chain<A, A>)
    ensures r.obeys_prophetic_iter_laws() && r.decrease() is Some && r.remaining() == a.remaining() + b.remaining(),
{ a.vx_chain(b) }


// what a bounded queue of capacity cap holding s becomes when v is pushed
pub open spec fn back<T>(s: Seq<T>, cap: int, v: T) -> Seq<T> { if cap <= 0 { s } else if s.len() == cap { s.drop_first().push(v) } else { s.push(v) } }
pub open spec fn front<T>(s: Seq<T>, cap: int, v: T) -> Seq<T> { if cap <= 0 { s } else if s.len() == cap { seq![v] + s.drop_last() } else { seq![v] + s } }
pub open spec fn back_all<T>(s: Seq<T>, cap: int, t: Seq<T>) -> Seq<T>
    decreases t.len()
{
    if t.len() == 0 { s } else { back(back_all(s, cap, t.drop_last()), cap, t.last()) }
}
// the last n items
pub open spec fn newest<T>(s: Seq<T>, n: int) -> Seq<T> { if s.len() <= n { s } else { s.skip(s.len() - n) } }

// Vec::from_iter; checked: it is collect()
pub fn vec_from_iter<T, I: Iterator<Item = T>>(i: I) -> (r: Vec<T>)
    requires i.obeys_prophetic_iter_laws(),
    ensures r@ == i.remaining(), i.will_return_none(),
{ i.collect() }
pub assume_specification<T, A: std::alloc::Allocator, I: IntoIterator<Item = T>>[ <Vec<T, A> as Extend<T>>::extend ](v: &mut Vec<T, A>, i: I)
    requires ends::<I>(i),
    ensures exists|s: Seq<T>| #[trigger] yields(i, s) && final(v)@ == old(v)@ + s;

// iterating over i is well behaved and ends
#[verifier::prophetic]
pub open spec fn ends<I: IntoIterator>(i: I) -> bool {
    forall|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (i,), it) ==> it.obeys_prophetic_iter_laws() && it.decrease() is Some
}
// s are all the items that iterating over i yields
#[verifier::prophetic]
pub open spec fn yields<I: IntoIterator>(i: I, s: Seq<I::Item>) -> bool {
    exists|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (i,), it) && it.remaining() =~= s && it.will_return_none()
}
#[verifier::prophetic]
pub open spec fn at_most<I: IntoIterator>(i: I, n: int) -> bool {
    forall|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (i,), it) ==> it.remaining().len() <= n
}
pub open spec fn vx_clones<T: Clone>(s: Seq<&T>, c: Seq<T>) -> bool { c.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(T::clone, (s[i],), #[trigger] c[i]) }

pub trait VxFromIter<A>: Sized {
    #[verifier::prophetic]
    spec fn vx_post<I: IntoIterator<Item = A>>(i: I, r: Self) -> bool;
    fn vx_from_iter<I: IntoIterator<Item = A>>(i: I) -> (r: Self)
        requires ends::<I>(i) && at_most(i, isize::MAX - 1),
        ensures Self::vx_post(i, r);
}
pub fn from_iter<A, C: VxFromIter<A>, I: IntoIterator<Item = A>>(i: I) -> (r: C)
    requires ends::<I>(i) && at_most(i, isize::MAX - 1),
    ensures C::vx_post(i, r),
{ C::vx_from_iter(i) }

// Iterator::map and Iterator::skip: the wrappers are checked, they only restate vstd's contracts
pub open spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> bool { b.len() <= a.len() }
#[verifier::prophetic]
pub open spec fn mapped<B, I: Iterator, F: FnMut(I::Item) -> B>(i: I, f: F, r: std::iter::Map<I, F>) -> bool {
    &&& r.decrease() is Some == i.decrease() is Some
    &&& zipped(i.remaining(), r.remaining())
    &&& r.will_return_none() ==> i.will_return_none() && r.remaining().len() == i.remaining().len()
    &&& forall|k: int| #![trigger r.remaining()[k]] 0 <= k < r.remaining().len() ==> call_ensures(f, (i.remaining()[k],), r.remaining()[k])
}
pub fn iter_map<B, I: Iterator, F: FnMut(I::Item) -> B>(i: I, f: F) -> (r: std::iter::Map<I, F>)
    requires
        i.obeys_prophetic_iter_laws(),
        forall|k: int| 0 <= k < i.remaining().len() ==> call_requires(f, (#[trigger] i.remaining()[k],)),
    ensures
        r.obeys_prophetic_iter_laws(),
        mapped(i, f, r),
{
    let ghost i0 = i;
    let ghost f0 = f;
    let r = i.map(f);
    assert(vstd::std_specs::iter::map_post(i0, f0, r));
    r
}
pub fn iter_skip<I: Iterator>(i: I, n: usize) -> (r: std::iter::Skip<I>)
    requires i.obeys_prophetic_iter_laws(),
    ensures
        r.obeys_prophetic_iter_laws(),
        r.decrease() is Some == i.decrease() is Some,
        r.will_return_none() == i.will_return_none(),
        r.remaining() == (if i.remaining().len() <= n { Seq::empty() } else { i.remaining().skip(n as int) }),
{
    let ghost i0 = i;
    let r = i.skip(n);
    assert(vstd::std_specs::iter::skip_post(i0, n, r));
    r
}

// the contract of Iterator::next, as vstd states it, for an iterator that obeys the laws
#[verifier::prophetic]
pub open spec fn next_law<I: Iterator>(o: I, f: I, r: Option<I::Item>) -> bool {
    &&& o.obeys_prophetic_iter_laws() && f.obeys_prophetic_iter_laws()
    &&& f.will_return_none() == o.will_return_none()
    &&& f.decrease() is Some && o.decrease() is Some
    &&& o.remaining().len() > 0 ==> f.remaining() =~= o.remaining().drop_first() && r == Some(o.remaining()[0]) && f.decrease()->0 < o.decrease()->0
    &&& o.remaining().len() == 0 ==> f.remaining() =~= o.remaining() && r is None && f.will_return_none()
}

// comparison of iterators, item by item (std's contract)
pub open spec fn eq_items<T: PartialEq>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).eq_spec(&b[i]) }
pub open spec fn pcmp_items<T: PartialOrd>(a: Seq<T>, b: Seq<T>) -> Option<Ordering>
    decreases a.len()
{
    if a.len() == 0 { Some(if b.len() == 0 { Ordering::Equal } else { Ordering::Less }) }
    else if b.len() == 0 { Some(Ordering::Greater) }
    else { match a[0].partial_cmp_spec(&b[0]) { Some(Ordering::Equal) => pcmp_items(a.drop_first(), b.drop_first()), o => o } }
}
pub open spec fn cmp_items<T: Ord>(a: Seq<T>, b: Seq<T>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else { match a[0].cmp_spec(&b[0]) { Ordering::Equal => cmp_items(a.drop_first(), b.drop_first()), o => o } }
}
#[verifier::external_body]
pub fn iter_eq<'a, 'b, T: PartialEq + 'a + 'b, I: Iterator<Item = &'a T>, J: Iterator<Item = &'b T>>(a: I, b: J) -> (r: bool)
    requires a.obeys_prophetic_iter_laws() && a.decrease() is Some && b.obeys_prophetic_iter_laws() && b.decrease() is Some,
    ensures T::obeys_eq_spec() ==> r == eq_items(a.remaining().unref(), b.remaining().unref()),
{ a.eq(b) }
#[verifier::external_body]
pub fn iter_partial_cmp<'a, 'b, T: PartialOrd + 'a + 'b, I: Iterator<Item = &'a T>, J: Iterator<Item = &'b T>>(a: I, b: J) -> (r: Option<Ordering>)
    requires a.obeys_prophetic_iter_laws() && a.decrease() is Some && b.obeys_prophetic_iter_laws() && b.decrease() is Some,
    ensures T::obeys_partial_cmp_spec() ==> r == pcmp_items(a.remaining().unref(), b.remaining().unref()),
{ a.partial_cmp(b) }
#[verifier::external_body]
pub fn iter_cmp<'a, T: Ord + 'a, I: Iterator<Item = &'a T>, J: Iterator<Item = &'a T>>(a: I, b: J) -> (r: Ordering)
    requires a.obeys_prophetic_iter_laws() && a.decrease() is Some && b.obeys_prophetic_iter_laws() && b.decrease() is Some,
    ensures T::obeys_cmp_spec() ==> r == cmp_items(a.remaining().unref(), b.remaining().unref()),
{ a.cmp(b) }

@in circular_buffer::circular
broadcast use crate::vx::arith::mod_small;
impl<T> CircularBuffer<T> {
    pub open spec fn vx_len(&self) -> int { if self.start <= self.end { self.end - self.start } else { self.buffer@.len() + self.end - self.start } }
    pub open spec fn vx_cap(&self) -> int { self.buffer@.len() - 1 }
    // the slot of the i-th element
    pub open spec fn vx_at(&self, i: int) -> int { if self.start + i < self.buffer@.len() { self.start + i } else { self.start + i - self.buffer@.len() } }
    pub open spec fn vx_live(&self, p: int) -> bool { if self.start <= self.end { self.start <= p < self.end } else { p >= self.start || p < self.end } }
    pub open spec fn vx_shape(&self) -> bool { 1 <= self.buffer@.len() <= isize::MAX && self.start < self.buffer@.len() && self.end < self.buffer@.len() }
    // exactly the slots between the cursors are filled
    pub open spec fn vx_wf(&self) -> bool { self.vx_shape() && forall|p: int| 0 <= p < self.buffer@.len() ==> holds(#[trigger] self.buffer@[p]) == self.vx_live(p) }
    pub open spec fn vx_seq(&self) -> Seq<T> { Seq::new(self.vx_len() as nat, |i: int| held(self.buffer@[self.vx_at(i)])) }
    pub open spec fn vx_is(&self, s: Seq<T>, cap: int) -> bool { self.vx_wf() && self.vx_cap() == cap && self.vx_seq() =~= s }
    // f is o after some elements were taken from the front
    pub open spec fn vx_taken(o: &Self, f: &Self) -> bool { f.vx_len() <= o.vx_len() && f.vx_is(o.vx_seq().skip(o.vx_len() - f.vx_len()), o.vx_cap()) }
    pub open spec fn vx_cursors(&self, o: &Self) -> bool { self.start == o.start && self.end == o.end && self.buffer@.len() == o.buffer@.len() }
    // only slot i differs
    pub open spec fn vx_but(&self, o: &Self, i: int) -> bool { self.vx_cursors(o) && forall|p: int| 0 <= p < self.buffer@.len() && p != i ==> #[trigger] self.buffer@[p] == o.buffer@[p] }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for CircularBuffer<T> {
    open spec fn index_req(&self, index: &usize) -> bool { self.vx_wf() && (crate::vx::mode_a() ==> *index < self.vx_len()) }
}
// FromIterator<A>::from_iter of a CircularBuffer, dispatched to the contract of the impl for A (checked)
impl<T> crate::vx::VxFromIter<T> for CircularBuffer<T> {
    #[verifier::prophetic]
    open spec fn vx_post<I: IntoIterator<Item = T>>(i: I, r: Self) -> bool { exists|s: Seq<T>| #[trigger] yields(i, s) && r.vx_is(s, s.len() as int) }
    fn vx_from_iter<I: IntoIterator<Item = T>>(i: I) -> (r: Self) { Self::vx_FromIterator_T__from_iter(i) }
}
impl<'a, T: Clone> crate::vx::VxFromIter<&'a T> for CircularBuffer<T> {
    #[verifier::prophetic]
    open spec fn vx_post<I: IntoIterator<Item = &'a T>>(i: I, r: Self) -> bool { exists|s: Seq<&'a T>, c: Seq<T>| #[trigger] yields(i, s) && #[trigger] vx_clones(s, c) && r.vx_is(c, s.len() as int) }
    fn vx_from_iter<I: IntoIterator<Item = &'a T>>(i: I) -> (r: Self) { Self::vx_FromIterator__T__from_iter(i) }
}
// C07: pushing one by one keeps the newest items
pub proof fn lemma_back_all<T>(s: Seq<T>, cap: int, t: Seq<T>)
    requires s.len() <= cap,
    ensures back_all(s, cap, t) =~= newest(s + t, cap),
    decreases t.len()
{
    if t.len() != 0 {
        lemma_back_all(s, cap, t.drop_last());
        assert((s + t.drop_last()).push(t.last()) =~= s + t);
    } else { assert(s + t =~= s); }
}

@in circular_buffer::iter
impl<'a, T> vstd::std_specs::iter::IteratorSpecImpl for Drain<'a, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.buf.vx_wf() }
    // what is handed out before the borrow ends
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { self.buf.vx_seq().take(self.buf.vx_len() - final(self.buf).vx_len()) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { final(self.buf).vx_len() == 0 }
    open spec fn decrease(&self) -> Option<nat> { Some(self.buf.vx_len() as nat) }
    open spec fn peek(&self, index: int) -> Option<Self::Item> { None }
}
impl<'a, T> Drain<'a, T> {
    #[verifier::prophetic]
    pub open spec fn vx_ok(&self) -> bool { self.buf.vx_wf() && CircularBuffer::vx_taken(&*self.buf, &*final(self.buf)) }
}
// A Drain changes its buffer only by next(): the field is private to the module and next() (under contract) is its only user.
// So what the borrow leaves behind is what the buffer holds now without some elements of the front.
pub axiom fn drain_protocol<'a, T>(d: &Drain<'a, T>)
    requires d.buf.vx_wf(),
    ensures d.vx_ok();
impl<T> vstd::std_specs::iter::IteratorSpecImpl for IntoIter<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.buf.vx_wf() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Self::Item> { self.buf.vx_seq() }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(self.buf.vx_len() as nat) }
    open spec fn peek(&self, index: int) -> Option<Self::Item> { None }
}

@call transmute crate::vx::transmute
@call mem::transmute crate::vx::transmute
@call Vec::from_iter crate::vx::vec_from_iter
@call Self::from_iter crate::vx::from_iter
@call CircularBuffer::from_iter crate::vx::from_iter
@method chain crate::vx::chain val 1
@method map crate::vx::iter_map val 1
@method skip crate::vx::iter_skip val 1
@method eq crate::vx::iter_eq val 1
@method partial_cmp crate::vx::iter_partial_cmp val 1
@method cmp crate::vx::iter_cmp val 1
@type CircularBuffer #[verifier::reject_recursive_types(T)]
@type Drain #[verifier::reject_recursive_types(T)]
@type IntoIter #[verifier::reject_recursive_types(T)]
@drop <CircularBuffer as Debug> : formatting; no property

@fn CircularBuffer::new
@req : $0 < isize::MAX
@ens C01,C06: $r.vx_is(Seq::empty(), $0 as int)

@fn CircularBuffer::with_capacity
@req : $0 < isize::MAX
@ens C01,C06,C08: $r.vx_is(Seq::empty(), $0 as int)
@loop 0 vx_it
@inv : $0 < isize::MAX && %0@.len() == vx_it.index@ && vx_it.seq().len() == $0 + 1
@inv : forall|p: int| 0 <= p < %0@.len() ==> !holds(#[trigger] %0@[p])

@fn CircularBuffer::len
@req : self.vx_shape()
@ens C01: $r == self.vx_len()

@fn CircularBuffer::capacity
@req : self.vx_shape()
@ens C01: $r == self.vx_cap()

@fn CircularBuffer::resize
@req : old(self).vx_wf() && $0 < isize::MAX
@ens C05,C06: final(self).vx_is(newest(old(self).vx_seq(), $0 as int), $0 as int)
@closure 0 T -> (vx_cr: MaybeUninit<T>)
@req true
@ens holds(vx_cr) && held(vx_cr) == $c0
@loop 0 vx_it
@loopbefore let ghost vx_n = %0@;
@inv : %0@.len() == vx_n.len() + vx_it.index@ && vx_it.seq().len() == $0 - vx_n.len() + 1
@inv : forall|p: int| 0 <= p < %0@.len() ==> if p < vx_n.len() { #[trigger] %0@[p] == vx_n[p] } else { !holds(%0@[p]) }
@before into_boxed_slice#0
proof { assert(forall|p: int| 0 <= p < self.buffer@.len() ==> !holds(#[trigger] self.buffer@[p])); }

@fn CircularBuffer::is_empty
@req : self.vx_shape()
@ens C01: $r == (self.vx_len() == 0)

@fn CircularBuffer::is_full
@req : self.vx_shape()
@ens C01: $r == (self.vx_len() == self.vx_cap())

@fn CircularBuffer::push_back
@req : old(self).vx_wf()
@ens C01,C06,C07: final(self).vx_is(back(old(self).vx_seq(), old(self).vx_cap(), $0), old(self).vx_cap())

@fn CircularBuffer::push_front
@req : old(self).vx_wf()
@ens C01,C06: final(self).vx_is(front(old(self).vx_seq(), old(self).vx_cap(), $0), old(self).vx_cap())

@fn CircularBuffer::pop_back
@req : old(self).vx_wf()
@ens C01,C06: $r == (if old(self).vx_len() == 0 { None } else { Some(old(self).vx_seq().last()) })
@ens C01,C06: final(self).vx_is((if old(self).vx_len() == 0 { Seq::empty() } else { old(self).vx_seq().drop_last() }), old(self).vx_cap())

@fn CircularBuffer::pop_front
@req : old(self).vx_wf()
@ens C01,C06,C07: $r == (if old(self).vx_len() == 0 { None } else { Some(old(self).vx_seq()[0]) })
@ens C01,C06,C07: final(self).vx_is((if old(self).vx_len() == 0 { Seq::empty() } else { old(self).vx_seq().drop_first() }), old(self).vx_cap())

@fn CircularBuffer::clear
@req : old(self).vx_wf()
@ens C01,C06: final(self).vx_is(Seq::empty(), old(self).vx_cap())
@loop 0
@inv : self.vx_wf() && self.vx_cap() == old(self).vx_cap()
@ens : self.vx_len() == 0
@dec self.vx_len()

@fn CircularBuffer::iter
@req : self.vx_wf()
@ens C03,C08: $r.obeys_prophetic_iter_laws() && $r.decrease() is Some
@ens C03,C08: $r.remaining().unref() =~= self.vx_seq()

@fn CircularBuffer::iter_mut
@req : old(self).vx_wf()
@ens C03: $r.obeys_prophetic_iter_laws() && $r.decrease() is Some
@ens C03: $r.remaining().len() == old(self).vx_len() && forall|i: int| 0 <= i < old(self).vx_len() ==> *(#[trigger] $r.remaining()[i]) == old(self).vx_seq()[i]
@ens C03: final(self).vx_wf() && final(self).vx_cap() == old(self).vx_cap() && final(self).vx_len() == old(self).vx_len()
@ens C03: forall|i: int| 0 <= i < old(self).vx_len() ==> *final(#[trigger] $r.remaining()[i]) == final(self).vx_seq()[i]

@fn CircularBuffer::append
@req : old(self).vx_wf() && old($0).vx_wf()
@ens C07,C06: final(self).vx_is(back_all(old(self).vx_seq(), old(self).vx_cap(), old($0).vx_seq()), old(self).vx_cap())
@ens C07,C06: final($0).vx_is(Seq::empty(), old($0).vx_cap())
@entry proof { assert($0.vx_seq().take($0.vx_len()) =~= $0.vx_seq()); }

@fn CircularBuffer::drain
@req : old(self).vx_wf()
@ens C05,C06,C07: *$r.buf == *old(self) && *final($r.buf) == *final(self) && $r.vx_ok()

@fn CircularBuffer::first
@req : self.vx_wf()
@ens C02: match $r { Some(x) => self.vx_len() > 0 && *x == self.vx_seq()[0], None => self.vx_len() == 0 }

@fn CircularBuffer::first_mut
@req : old(self).vx_wf()
@ens C02: match $r { Some(x) => old(self).vx_len() > 0 && *x == old(self).vx_seq()[0] && final(self).vx_is(old(self).vx_seq().update(0, *final(x)), old(self).vx_cap()), None => old(self).vx_len() == 0 && *final(self) == *old(self) }

@fn CircularBuffer::last
@req : self.vx_wf()
@ens C02: match $r { Some(x) => self.vx_len() > 0 && *x == self.vx_seq().last(), None => self.vx_len() == 0 }

@fn CircularBuffer::last_mut
@req : old(self).vx_wf()
@ens C02: match $r { Some(x) => old(self).vx_len() > 0 && *x == old(self).vx_seq().last() && final(self).vx_is(old(self).vx_seq().update(old(self).vx_len() - 1, *final(x)), old(self).vx_cap()), None => old(self).vx_len() == 0 && *final(self) == *old(self) }

@fn CircularBuffer::slices
@req : self.vx_wf()
@ens C03,C08: $r.0@ + $r.1@ =~= self.vx_seq()

@fn CircularBuffer::slices_mut
@req : old(self).vx_wf()
@ens C03: $r.0@ + $r.1@ =~= old(self).vx_seq()
@ens C03: final($r.0)@.len() == $r.0@.len() && final($r.1)@.len() == $r.1@.len()
@ens C03: final(self).vx_is(final($r.0)@ + final($r.1)@, old(self).vx_cap())

@fn CircularBuffer::linearize
@req : old(self).vx_wf()
@ens C03: $r@ =~= old(self).vx_seq() && final($r)@.len() == $r@.len()
@entry proof {
    let b = self.buffer@;
    let t = b.skip(self.start as int) + b.take(self.start as int);
    assert forall|p: int| 0 <= p < b.len() implies #[trigger] t[p] == b[self.vx_at(p)] by {}
    assert forall|p: int| 0 <= p < b.len() implies holds(#[trigger] t[p]) == (p < self.vx_len()) by {}
}
@ens C03: final(self).vx_is(final($r)@, old(self).vx_cap())

@fn CircularBuffer::swap
@req : old(self).vx_wf()
@nopanic C04: $0 < old(self).vx_len() && $1 < old(self).vx_len()
@ens C04: final(self).vx_is(old(self).vx_seq().update($0 as int, old(self).vx_seq()[$1 as int]).update($1 as int, old(self).vx_seq()[$0 as int]), old(self).vx_cap())

@fn CircularBuffer::reverse
@req : old(self).vx_wf()
@ens C04: final(self).vx_is(old(self).vx_seq().reverse(), old(self).vx_cap())
@loop 0 vx_it
@inv : self.vx_wf() && self.vx_cap() == old(self).vx_cap() && self.vx_len() == old(self).vx_len()
@inv : vx_it.seq().len() == self.vx_len() / 2
@body let ghost vx_b = *self;
@bodyend proof {
    let a = %L0 as int;
    let b = self.vx_len() - 1 - a;
    assert(self.vx_seq() =~= vx_b.vx_seq().update(a, vx_b.vx_seq()[b]).update(b, vx_b.vx_seq()[a]));
}
@inv : forall|i: int| 0 <= i < self.vx_len() ==> (#[trigger] self.vx_seq()[i]) == (if i < vx_it.index@ || i >= self.vx_len() - vx_it.index@ { old(self).vx_seq()[self.vx_len() - 1 - i] } else { old(self).vx_seq()[i] })

@fn CircularBuffer::internal_index
@req : self.vx_shape()
@nopanic C02,C04: $0 < self.vx_len()
@ens C02,C04: $r == self.vx_at($0 as int)

@fn CircularBuffer::incr_end
@req : old(self).vx_shape() && old(self).vx_len() < old(self).vx_cap()
@ens C01,C06: final(self).buffer@ == old(self).buffer@ && final(self).start == old(self).start && final(self).end == (if old(self).end + 1 == old(self).buffer@.len() { 0 } else { old(self).end + 1 })

@fn CircularBuffer::decr_end
@req : old(self).vx_shape() && old(self).vx_len() > 0
@ens C01,C06: final(self).buffer@ == old(self).buffer@ && final(self).start == old(self).start && final(self).end == (if old(self).end == 0 { old(self).buffer@.len() - 1 } else { old(self).end - 1 })

@fn CircularBuffer::incr_start
@req : old(self).vx_shape() && old(self).vx_len() > 0
@ens C01,C06,C07: final(self).buffer@ == old(self).buffer@ && final(self).end == old(self).end && final(self).start == (if old(self).start + 1 == old(self).buffer@.len() { 0 } else { old(self).start + 1 })

@fn CircularBuffer::decr_start
@req : old(self).vx_shape() && old(self).vx_len() < old(self).vx_cap()
@ens C01,C06: final(self).buffer@ == old(self).buffer@ && final(self).end == old(self).end && final(self).start == (if old(self).start == 0 { old(self).buffer@.len() - 1 } else { old(self).start - 1 })

@fn CircularBuffer::pop_at
@req C06: old(self).vx_shape() && $0 < old(self).buffer@.len() && holds(old(self).buffer@[$0 as int])
@ens C01,C06: $r == held(old(self).buffer@[$0 as int]) && !holds(final(self).buffer@[$0 as int]) && final(self).vx_but(old(self), $0 as int)

@fn CircularBuffer::push_at
@req C06: old(self).vx_shape() && $1 < old(self).buffer@.len() && !holds(old(self).buffer@[$1 as int])
@ens C01,C06: holds(final(self).buffer@[$1 as int]) && held(final(self).buffer@[$1 as int]) == $0 && final(self).vx_but(old(self), $1 as int)

@fn <CircularBuffer as Clone>::clone
@rehome
@req : self.vx_wf()
@ens C08,C06: $r.vx_wf() && $r.vx_cap() == self.vx_cap() && $r.vx_len() == self.vx_len()
@ens C08: forall|i: int| 0 <= i < self.vx_len() ==> call_ensures(T::clone, (&self.vx_seq()[i],), #[trigger] $r.vx_seq()[i])
@entry proof {
    assert forall|c: Seq<T>| c.len() <= self.vx_cap() implies #[trigger] back_all(Seq::empty(), self.vx_cap(), c) =~= c by {
        lemma_back_all(Seq::empty(), self.vx_cap(), c);
        assert(Seq::empty() + c =~= c);
    }
}

@fn <CircularBuffer as Drop>::drop
@rehome
@req : old(self).vx_wf()
@ens C06: forall|p: int| 0 <= p < final(self).buffer@.len() ==> !holds(#[trigger] final(self).buffer@[p])

@fn <CircularBuffer as Index<usize>>::index
@nopanic C02: $0 < self.vx_len()
@ens C02: *$r == self.vx_seq()[$0 as int]

@fn <CircularBuffer as IndexMut<usize>>::index_mut
@nopanic C02: $0 < old(self).vx_len()
@ens C02: *$r == old(self).vx_seq()[$0 as int] && final(self).vx_is(old(self).vx_seq().update($0 as int, *final($r)), old(self).vx_cap())

@fn <CircularBuffer as FromIterator<T>>::from_iter
@rehome
@req : ends::<I>($0) && at_most($0, isize::MAX - 1)
@ens C07,C06: exists|s: Seq<T>| #[trigger] yields($0, s) && $r.vx_is(s, s.len() as int)
@entry let ghost vx_i = $0;
@post proof { assert(yields(vx_i, $r.vx_seq())); }
@closure 0 T -> (vx_cr: MaybeUninit<T>)
@req true
@ens holds(vx_cr) && held(vx_cr) == $c0

@fn <CircularBuffer as FromIterator<&T>>::from_iter
@rehome
@req : ends::<I>($0) && at_most($0, isize::MAX - 1)
@ens C07,C06: exists|s: Seq<&'a T>, c: Seq<T>| #[trigger] yields($0, s) && #[trigger] vx_clones(s, c) && $r.vx_is(c, s.len() as int)
@entry let ghost vx_i = $0;
@post proof { assert(forall|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (vx_i,), it) && it.will_return_none() ==> yields(vx_i, it.remaining())); assert(exists|s: Seq<&'a T>| #[trigger] yields(vx_i, s) && vx_clones(s, $r.vx_seq())); }
@closure 0 &'a T -> (vx_cr: MaybeUninit<T>)
@req true
@ens holds(vx_cr) && call_ensures(T::clone, ($c0,), held(vx_cr))

@fn <CircularBuffer as From<Vec>>::from
@rehome
@req : $0@.len() < isize::MAX
@ens C07,C06: $r.vx_is($0@, $0@.len() as int)

@fn <CircularBuffer as Extend<T>>::extend
@rehome
@attr #[verifier::loop_isolation(false)]
@req : ends::<I>($0) && old(self).vx_wf()
@ens C07,C06: exists|s: Seq<T>| #[trigger] yields($0, s) && final(self).vx_is(back_all(old(self).vx_seq(), old(self).vx_cap(), s), old(self).vx_cap())
@entry let ghost vx_o = *self; let ghost vx_i = $0;
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : vx_it.snapshot@.will_return_none() ==> yields(vx_i, vx_it.seq())
@inv : self.vx_is(back_all(vx_o.vx_seq(), vx_o.vx_cap(), vx_it.seq().take(vx_it.index@ as int)), vx_o.vx_cap())
@inv : vx_it.index@ == vx_it.seq().len() ==> vx_it.seq().take(vx_it.index@ as int) == vx_it.seq()
@body let ghost vx_b = *self;
@bodyend proof {
    assert(vx_it.seq().take(vx_it.index@ + 1).drop_last() =~= vx_it.seq().take(vx_it.index@ as int));
    assert(self.vx_seq() =~= back(vx_b.vx_seq(), vx_b.vx_cap(), vx_it.seq()[vx_it.index@ as int]));
    assert(vx_it.index@ + 1 == vx_it.seq().len() ==> vx_it.seq().take(vx_it.index@ + 1) =~= vx_it.seq());
}

@fn <CircularBuffer as Extend<&T>>::extend
@rehome
@attr #[verifier::loop_isolation(false)]
@req : ends::<I>($0) && old(self).vx_wf()
@ens C07,C06: exists|s: Seq<&'a T>, c: Seq<T>| #[trigger] yields($0, s) && #[trigger] vx_clones(s, c) && final(self).vx_is(back_all(old(self).vx_seq(), old(self).vx_cap(), c), old(self).vx_cap())
@entry let ghost vx_o = *self; let ghost vx_i = $0; let ghost mut vx_c = Seq::<T>::empty();
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : vx_it.snapshot@.will_return_none() ==> yields(vx_i, vx_it.seq())
@inv : vx_c.len() == vx_it.index@ && forall|i: int| 0 <= i < vx_c.len() ==> call_ensures(T::clone, (vx_it.seq()[i],), #[trigger] vx_c[i])
@inv : self.vx_is(back_all(vx_o.vx_seq(), vx_o.vx_cap(), vx_c), vx_o.vx_cap())
@inv : vx_it.index@ == vx_it.seq().len() ==> vx_clones(vx_it.seq(), vx_c)
@body let ghost vx_b = *self;
@bodyend proof {
    let vx_v = choose|v: T| #[trigger] call_ensures(T::clone, (%L0,), v) && self.vx_is(back(vx_b.vx_seq(), vx_b.vx_cap(), v), vx_b.vx_cap());
    let vx_c0 = vx_c;
    vx_c = vx_c.push(vx_v);
    assert(vx_c.drop_last() =~= vx_c0);
    assert(self.vx_seq() =~= back_all(vx_o.vx_seq(), vx_o.vx_cap(), vx_c));
}

@fn <CircularBuffer as IntoIterator>::into_iter
@ens C07,C06: self.vx_wf() ==> $r.buf == self

@fn <&CircularBuffer as IntoIterator>::into_iter
@rehome
@req : self.vx_wf()
@ens C03: $r.obeys_prophetic_iter_laws() && $r.decrease() is Some && $r.remaining().unref() =~= self.vx_seq()

@fn <&mut CircularBuffer as IntoIterator>::into_iter
@rehome
@req : old(self).vx_wf()
@ens C03: $r.obeys_prophetic_iter_laws() && $r.decrease() is Some
@ens C03: $r.remaining().len() == old(self).vx_len() && forall|i: int| 0 <= i < old(self).vx_len() ==> *(#[trigger] $r.remaining()[i]) == old(self).vx_seq()[i]
@ens C03: final(self).vx_wf() && final(self).vx_cap() == old(self).vx_cap() && final(self).vx_len() == old(self).vx_len()
@ens C03: forall|i: int| 0 <= i < old(self).vx_len() ==> *final(#[trigger] $r.remaining()[i]) == final(self).vx_seq()[i]

@fn <CircularBuffer as PartialEq>::eq
@req : self.vx_wf() && $0.vx_wf()
@ens C08: T::obeys_eq_spec() ==> $r == eq_items(self.vx_seq(), $0.vx_seq())

@fn <CircularBuffer as PartialEq<[T]>>::eq
@req : self.vx_wf()
@ens C08: T::obeys_eq_spec() ==> $r == eq_items(self.vx_seq(), $0@)

@fn <CircularBuffer as PartialEq<&[T]>>::eq
@req : self.vx_wf()
@ens C08: T::obeys_eq_spec() ==> $r == eq_items(self.vx_seq(), $0@)

@fn <CircularBuffer as PartialOrd>::partial_cmp
@req : self.vx_wf() && $0.vx_wf()
@ens C08: T::obeys_partial_cmp_spec() ==> $r == pcmp_items(self.vx_seq(), $0.vx_seq())

@fn <CircularBuffer as Ord>::cmp
@req : self.vx_wf() && $0.vx_wf()
@ens C08: T::obeys_cmp_spec() ==> $r == cmp_items(self.vx_seq(), $0.vx_seq())

@fn Drain::new
@req : old($0).vx_wf()
@ens C05,C06,C07: *$r.buf == *old($0) && *final($r.buf) == *final($0) && $r.vx_ok()
@post proof { drain_protocol(&$r); }

@fn <Drain as Iterator>::next
@rehome
@req : old(self).buf.vx_wf()
@ens C05,C06,C07: $r == (if old(self).buf.vx_len() == 0 { None } else { Some(old(self).buf.vx_seq()[0]) })
@ens C05,C06,C07: final(self).buf.vx_is((if old(self).buf.vx_len() == 0 { Seq::empty() } else { old(self).buf.vx_seq().drop_first() }), old(self).buf.vx_cap())
@ens C05,C07 "here": next_law(*old(self), *final(self), $r)
@entry proof { drain_protocol(self); }
@post proof { drain_protocol(self); assert(final(self.buf).vx_seq() =~= final(self.buf).vx_seq()); }

@fn IntoIter::new
@ens C06,C07: $r.buf == $0

@fn <IntoIter as Iterator>::next
@rehome
@req : old(self).buf.vx_wf()
@ens C06,C07: $r == (if old(self).buf.vx_len() == 0 { None } else { Some(old(self).buf.vx_seq()[0]) })
@ens C06,C07: final(self).buf.vx_is((if old(self).buf.vx_len() == 0 { Seq::empty() } else { old(self).buf.vx_seq().drop_first() }), old(self).buf.vx_cap())
@ens C07 "here": next_law(*old(self), *final(self), $r)
