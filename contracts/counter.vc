# Contracts of the module `counter` (a multiset kept as a map from elements to counts).
@root
pub use std::collections::HashMap;
pub use std::collections::hash_map::{Entry, IntoIter, IterMut, OccupiedEntry};
pub use std::hash::{BuildHasher, Hash};
use std::iter::FromIterator;
pub use std::alloc::Allocator;
pub use vstd::std_specs::hash::*;
pub use vstd::std_specs::iter::IteratorSpec;
use crate::counter::counter::Counter;
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::iter::group_iter_axioms};

// nothing here is allowed to panic
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{ panic!() }
pub fn vassert(c: bool)
    requires c,
    ensures c,
{ if !c { vpanic() } }
// whether debug assertions are compiled in: either way must be right
#[verifier::external_body]
pub fn in_debug() -> bool { cfg!(debug_assertions) }

// stands for the crate fnv, which only occurs in the type alias FastCounter
pub mod fnv { pub struct FnvBuildHasher {} }

// ---- the standard library, as far as vstd does not describe it

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(A)]
pub struct ExMapIntoIter<K, V, A: Allocator>(IntoIter<K, V, A>);
pub assume_specification<K, V, A: Allocator>[ <IntoIter<K, V, A> as Iterator>::next ](it: &mut IntoIter<K, V, A>) -> (r: Option<(K, V)>);

// s lists the entries of m, each once
pub open spec fn lists_map<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub assume_specification<K, V, S, A: Allocator>[ <HashMap<K, V, S, A> as IntoIterator>::into_iter ](m: HashMap<K, V, S, A>) -> (r: IntoIter<K, V, A>)
    ensures
        r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> lists_map(r.remaining(), m@);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct ExMapIterMut<'a, K: 'a, V: 'a>(IterMut<'a, K, V>);
pub uninterp spec fn rem_mut<'a, K, V>(i: IterMut<'a, K, V>) -> Seq<(&'a K, &'a mut V)>;
// s hands out the value of every entry once; what is left in them is what the map holds afterwards
#[verifier::prophetic]
pub open spec fn lends_map<'a, K, V>(s: Seq<(&'a K, &'a mut V)>, o: Map<K, V>, f: Map<K, V>) -> bool {
    &&& s.len() == o.len()
    &&& f.dom() == o.dom()
    &&& forall|i: int| 0 <= i < s.len() ==> o.contains_key(*(#[trigger] s[i]).0) && o[*s[i].0] == *s[i].1 && f[*s[i].0] == *final(s[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] o.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
}
pub assume_specification<'a, K, V, S, A: Allocator>[ HashMap::<K, V, S, A>::iter_mut ](m: &'a mut HashMap<K, V, S, A>) -> (r: IterMut<'a, K, V>)
    ensures obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> lends_map(rem_mut(r), old(m)@, final(m)@);

pub assume_specification<K: Eq + Hash, V: PartialEq, S: BuildHasher, A: Allocator>[ <HashMap<K, V, S, A> as PartialEq>::eq ](a: &HashMap<K, V, S, A>, b: &HashMap<K, V, S, A>) -> (r: bool)
    ensures keys_ok::<K, S>() && <V as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == (a@.dom() =~= b@.dom() && forall|k: K| #[trigger] a@.contains_key(k) ==> vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a@[k], &b@[k]));
pub assume_specification<K, V, S>[ HashMap::<K, V, S>::with_hasher ](h: S) -> (r: HashMap<K, V, S>)
    ensures r@ == Map::<K, V>::empty();
pub assume_specification<K, V, S>[ HashMap::<K, V, S>::with_capacity_and_hasher ](n: usize, h: S) -> (r: HashMap<K, V, S>)
    ensures r@ == Map::<K, V>::empty();

// some listing of a slice by non-decreasing key
pub assume_specification<T, K: Ord, F: FnMut(&T) -> K>[ <[T]>::sort_unstable_by_key ](s: &mut [T], f: F)
    requires forall|i: int| 0 <= i < old(s)@.len() ==> call_requires(f, (& #[trigger] old(s)@[i],)),
    ensures
        final(s)@.len() == old(s)@.len(),
        final(s)@.to_multiset() == old(s)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(s)@.len() ==> sorted_by(f, #[trigger] final(s)@[i], #[trigger] final(s)@[j]);
pub open spec fn sorted_by<T, K: Ord, F: FnMut(&T) -> K>(f: F, a: T, b: T) -> bool {
    exists|x: K, y: K| #[trigger] call_ensures(f, (&a,), x) && #[trigger] call_ensures(f, (&b,), y) && vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&x, &y) != Some(std::cmp::Ordering::Greater)
}

// a capacity hint; nothing is concluded from it
#[verifier::external_body]
pub fn size_hint<I: Iterator>(i: &I) -> (r: (usize, Option<usize>)) { i.size_hint() }

pub open spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> bool { b.len() <= a.len() }
#[verifier::prophetic]
pub open spec fn mapped<B, I: Iterator, F: FnMut(I::Item) -> B>(i: I, f: F, r: std::iter::Map<I, F>) -> bool {
    &&& r.decrease() is Some == i.decrease() is Some
    &&& zipped(i.remaining(), r.remaining())
    &&& r.will_return_none() ==> i.will_return_none() && r.remaining().len() == i.remaining().len()
    &&& forall|k: int| #![trigger r.remaining()[k]] 0 <= k < r.remaining().len() ==> call_ensures(f, (i.remaining()[k],), r.remaining()[k])
}
// Iterator::map: the wrapper is checked, it only restates vstd's contract
pub fn iter_map<B, I: Iterator, F: FnMut(I::Item) -> B>(i: I, f: F) -> (r: std::iter::Map<I, F>)
    requires
        i.obeys_prophetic_iter_laws(),
        forall|k: int| 0 <= k < i.remaining().len() ==> call_requires(f, (#[trigger] i.remaining()[k],)),
    ensures
        r.obeys_prophetic_iter_laws(),
        mapped(i, f, r),
{
    let ghost i0 = i;
    let ghost f0 = f;
    let r = i.map(f);
    assert(vstd::std_specs::iter::map_post(i0, f0, r));
    r
}

// ---- assumptions on the caller's types
pub open spec fn keys_ok<T: Eq + Hash, S: BuildHasher>() -> bool { obeys_key_model::<T>() && builds_valid_hashers::<S>() }
pub open spec fn clones<U: Clone>() -> bool { forall|a: U, b: U| #[trigger] call_ensures(U::clone, (&a,), b) ==> a == b }
// the assumed contract of the key type and the default hasher holds for primitive keys: it can be met, and for these it is not an assumption
pub mod witness {
use super::*;
broadcast use vstd::std_specs::hash::group_hash_axioms;
macro_rules! wit { ($($n:ident $t:ty),*) => { verus!{ $( proof fn $n() ensures keys_ok::<$t, std::collections::hash_map::RandomState>(), clones::<$t>() {} )* } } }
wit!(w_u8 u8, w_u16 u16, w_u32 u32, w_u64 u64, w_u128 u128, w_usize usize, w_i8 i8, w_i16 i16, w_i32 i32, w_i64 i64, w_i128 i128, w_isize isize, w_bool bool);
}

// the iterator given to us is well behaved and ends, and no count overflows
#[verifier::prophetic]
pub open spec fn iter_fits<I: IntoIterator>(i: I, o: Map<I::Item, usize>) -> bool {
    forall|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (i,), it) ==> it.obeys_prophetic_iter_laws() && it.decrease() is Some
        && forall|x: I::Item| cnt(o, x) + #[trigger] occ(it.remaining(), x) <= usize::MAX
}
#[verifier::prophetic]
pub open spec fn iter_fits_ref<'a, T: 'a, I: IntoIterator<Item = &'a T>>(i: I, o: Map<T, usize>) -> bool {
    forall|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (i,), it) ==> it.obeys_prophetic_iter_laws() && it.decrease() is Some
        && forall|x: T| cnt(o, x) + #[trigger] occ(it.remaining().unref(), x) <= usize::MAX
}
// s are the items that iterating over i yields
#[verifier::prophetic]
pub open spec fn yields<I: IntoIterator>(i: I, s: Seq<I::Item>) -> bool {
    exists|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (i,), it) && it.remaining() == s
}

// ---- counts
pub open spec fn cnt<T>(m: Map<T, usize>, x: T) -> int { if m.contains_key(x) { m[x] as int } else { 0 } }
// how often x occurs in s
pub open spec fn occ<T>(s: Seq<T>, x: T) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { occ(s.drop_last(), x) + (if s.last() == x { 1int } else { 0 }) }
}
// f is o with the items of s counted in
pub open spec fn counted<T>(o: Map<T, usize>, s: Seq<T>, f: Map<T, usize>) -> bool {
    &&& forall|x: T| #[trigger] cnt(f, x) == cnt(o, x) + occ(s, x)
    &&& forall|x: T| #[trigger] f.contains_key(x) == (o.contains_key(x) || s.contains(x))
}
pub proof fn lemma_occ_take<T>(s: Seq<T>, i: int, x: T)
    requires 0 <= i <= s.len(),
    ensures 0 <= occ(s.take(i), x) <= occ(s, x),
    decreases s.len()
{
    if i == s.len() {
        assert(s.take(i) =~= s);
        if s.len() > 0 { lemma_occ_take(s.drop_last(), s.len() - 1, x); assert(s.drop_last().take(s.len() - 1) =~= s.drop_last()); }
    } else {
        lemma_occ_take(s.drop_last(), i, x);
        assert(s.drop_last().take(i) =~= s.take(i));
    }
}
// K01: one more item
pub proof fn lemma_count_step<T>(o: Map<T, usize>, s: Seq<T>, i: int, b: Map<T, usize>, f: Map<T, usize>)
    requires
        0 <= i < s.len(), counted(o, s.take(i), b), cnt(b, s[i]) < usize::MAX,
        f == b.insert(s[i], (cnt(b, s[i]) + 1) as usize),
    ensures counted(o, s.take(i + 1), f),
{
    let t = s.take(i);
    let u = s.take(i + 1);
    assert(u =~= t.push(s[i]));
    assert(u.drop_last() =~= t);
    assert forall|x: T| #[trigger] cnt(f, x) == cnt(o, x) + occ(u, x) by { assert(cnt(b, x) == cnt(o, x) + occ(t, x)); }
    assert forall|x: T| #[trigger] f.contains_key(x) == (o.contains_key(x) || u.contains(x)) by {
        assert(b.contains_key(x) == (o.contains_key(x) || t.contains(x)));
        if t.contains(x) { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(u[k] == x); }
        if x == s[i] { assert(u[i] == x); }
        if u.contains(x) { let k = choose|k: int| 0 <= k < u.len() && #[trigger] u[k] == x; if k < i { assert(t[k] == x); } }
    }
}
// there is room for one more item
pub proof fn lemma_room<T>(o: Map<T, usize>, s: Seq<T>, i: int, b: Map<T, usize>)
    requires 0 <= i < s.len(), counted(o, s.take(i), b), forall|x: T| cnt(o, x) + #[trigger] occ(s, x) <= usize::MAX,
    ensures cnt(b, s[i]) < usize::MAX,
{
    lemma_occ_take(s, i + 1, s[i]);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(cnt(b, s[i]) == cnt(o, s[i]) + occ(s.take(i), s[i]));
    assert(occ(s.take(i + 1), s[i]) == occ(s.take(i), s[i]) + 1);
}

// ---- sums and differences
pub open spec fn sum_of<T>(o: Map<T, usize>, r: Map<T, usize>, f: Map<T, usize>) -> bool {
    &&& forall|x: T| #[trigger] f.contains_key(x) == (o.contains_key(x) || r.contains_key(x))
    &&& forall|x: T| #[trigger] cnt(f, x) == cnt(o, x) + cnt(r, x)
}
pub open spec fn sum_fits<T>(o: Map<T, usize>, r: Map<T, usize>) -> bool { forall|x: T| #[trigger] cnt(o, x) + cnt(r, x) <= usize::MAX }
pub open spec fn difference_of<T>(o: Map<T, usize>, r: Map<T, usize>, f: Map<T, usize>) -> bool {
    forall|x: T| #[trigger] f.contains_key(x) == (o.contains_key(x) && (r.contains_key(x) ==> o[x] > r[x])) && (f.contains_key(x) ==> f[x] == o[x] - cnt(r, x))
}
pub open spec fn keyed<T>(s: Seq<(T, usize)>, k: int, x: T) -> bool { exists|i: int| 0 <= i < k && (#[trigger] s[i]).0 == x }
pub open spec fn rest_same<T>(o: Map<T, usize>, s: Seq<(T, usize)>, k: int, f: Map<T, usize>) -> bool {
    forall|x: T| !keyed(s, k, x) ==> #[trigger] f.contains_key(x) == o.contains_key(x) && (f.contains_key(x) ==> f[x] == o[x])
}
pub open spec fn summed<T>(o: Map<T, usize>, s: Seq<(T, usize)>, k: int, f: Map<T, usize>) -> bool {
    &&& rest_same(o, s, k, f)
    &&& forall|i: int| 0 <= i < k ==> f.contains_key((#[trigger] s[i]).0) && f[s[i].0] == cnt(o, s[i].0) + s[i].1
}
pub open spec fn subtracted<T>(o: Map<T, usize>, s: Seq<(T, usize)>, k: int, f: Map<T, usize>) -> bool {
    &&& rest_same(o, s, k, f)
    &&& forall|i: int| 0 <= i < k ==> f.contains_key((#[trigger] s[i]).0) == (o.contains_key(s[i].0) && o[s[i].0] > s[i].1) && (f.contains_key(s[i].0) ==> f[s[i].0] == o[s[i].0] - s[i].1)
}
// f differs from b at most at x
pub open spec fn only<T>(b: Map<T, usize>, x: T, f: Map<T, usize>) -> bool {
    forall|y: T| y != x ==> #[trigger] f.contains_key(y) == b.contains_key(y) && (f.contains_key(y) ==> f[y] == b[y])
}
proof fn lemma_rest<T>(o: Map<T, usize>, s: Seq<(T, usize)>, k: int, b: Map<T, usize>, f: Map<T, usize>)
    requires 0 <= k < s.len(), rest_same(o, s, k, b), only(b, s[k].0, f),
    ensures rest_same(o, s, k + 1, f),
{
    assert forall|x: T| !keyed(s, k + 1, x) implies #[trigger] f.contains_key(x) == o.contains_key(x) && (f.contains_key(x) ==> f[x] == o[x]) by {
        assert(!keyed(s, k, x)) by { if keyed(s, k, x) { let i = choose|i: int| 0 <= i < k && (#[trigger] s[i]).0 == x; assert(s[i].0 == x); } }
        assert(s[k].0 != x);
        assert(b.contains_key(x) == o.contains_key(x));
    }
}
pub open spec fn distinct_keys<T>(s: Seq<(T, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
// the entry at s[k] has not been touched yet
proof fn lemma_untouched<T>(o: Map<T, usize>, s: Seq<(T, usize)>, k: int, b: Map<T, usize>)
    requires 0 <= k < s.len(), distinct_keys(s), rest_same(o, s, k, b),
    ensures b.contains_key(s[k].0) == o.contains_key(s[k].0), b.contains_key(s[k].0) ==> b[s[k].0] == o[s[k].0],
{
    assert(!keyed(s, k, s[k].0)) by { if keyed(s, k, s[k].0) { let i = choose|i: int| 0 <= i < k && (#[trigger] s[i]).0 == s[k].0; assert(s[i].0 != s[k].0); } }
    assert(b.contains_key(s[k].0) == o.contains_key(s[k].0));
}
// K02: one more entry added
pub proof fn lemma_sum_step<T>(o: Map<T, usize>, s: Seq<(T, usize)>, k: int, b: Map<T, usize>, f: Map<T, usize>)
    requires
        0 <= k < s.len(), distinct_keys(s), summed(o, s, k, b),
        only(b, s[k].0, f), f.contains_key(s[k].0), f[s[k].0] == cnt(b, s[k].0) + s[k].1,
    ensures summed(o, s, k + 1, f),
{
    lemma_rest(o, s, k, b, f);
    lemma_untouched(o, s, k, b);
    assert forall|i: int| 0 <= i < k + 1 implies f.contains_key((#[trigger] s[i]).0) && f[s[i].0] == cnt(o, s[i].0) + s[i].1 by {
        if i < k { assert(s[i].0 != s[k].0); assert(b.contains_key(s[i].0)); }
    }
}
pub proof fn lemma_sum_room<T>(o: Map<T, usize>, r: Map<T, usize>, s: Seq<(T, usize)>, k: int, b: Map<T, usize>)
    requires 0 <= k < s.len(), lists_map(s, r), summed(o, s, k, b), sum_fits(o, r),
    ensures cnt(b, s[k].0) + s[k].1 <= usize::MAX,
{
    lemma_untouched(o, s, k, b);
    assert(cnt(o, s[k].0) + cnt(r, s[k].0) <= usize::MAX);
    assert(r.contains_key(s[k].0));
}
// K02: all entries added
pub proof fn lemma_sum_done<T>(o: Map<T, usize>, r: Map<T, usize>, s: Seq<(T, usize)>, f: Map<T, usize>)
    requires lists_map(s, r), summed(o, s, s.len() as int, f),
    ensures sum_of(o, r, f),
{
    assert forall|x: T| #[trigger] f.contains_key(x) == (o.contains_key(x) || r.contains_key(x)) && cnt(f, x) == cnt(o, x) + cnt(r, x) by { lemma_keyed(s, r, x); }
    assert forall|x: T| #[trigger] cnt(f, x) == cnt(o, x) + cnt(r, x) by { assert(f.contains_key(x) == (o.contains_key(x) || r.contains_key(x))); }
}
proof fn lemma_keyed<T>(s: Seq<(T, usize)>, r: Map<T, usize>, x: T)
    requires lists_map(s, r),
    ensures keyed(s, s.len() as int, x) == r.contains_key(x), r.contains_key(x) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (x, r[x]),
{
    if r.contains_key(x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x; assert(s[i] == (x, r[x])); assert(keyed(s, s.len() as int, x)); }
    if keyed(s, s.len() as int, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x; assert(r.contains_key(s[i].0)); }
}
// K03: one more entry subtracted
pub proof fn lemma_sub_step<T>(o: Map<T, usize>, s: Seq<(T, usize)>, k: int, b: Map<T, usize>, f: Map<T, usize>)
    requires
        0 <= k < s.len(), distinct_keys(s), subtracted(o, s, k, b), only(b, s[k].0, f),
        f.contains_key(s[k].0) == (b.contains_key(s[k].0) && b[s[k].0] > s[k].1),
        f.contains_key(s[k].0) ==> f[s[k].0] == b[s[k].0] - s[k].1,
    ensures subtracted(o, s, k + 1, f),
{
    lemma_rest(o, s, k, b, f);
    lemma_untouched(o, s, k, b);
    assert forall|i: int| 0 <= i < k + 1 implies f.contains_key((#[trigger] s[i]).0) == (o.contains_key(s[i].0) && o[s[i].0] > s[i].1) && (f.contains_key(s[i].0) ==> f[s[i].0] == o[s[i].0] - s[i].1) by {
        if i < k { assert(s[i].0 != s[k].0); assert(f.contains_key(s[i].0) == b.contains_key(s[i].0)); }
    }
}
// K03: all entries subtracted
pub proof fn lemma_sub_done<T>(o: Map<T, usize>, r: Map<T, usize>, s: Seq<(T, usize)>, f: Map<T, usize>)
    requires lists_map(s, r), subtracted(o, s, s.len() as int, f),
    ensures difference_of(o, r, f),
{
    assert forall|x: T| #[trigger] f.contains_key(x) == (o.contains_key(x) && (r.contains_key(x) ==> o[x] > r[x])) && (f.contains_key(x) ==> f[x] == o[x] - cnt(r, x)) by { lemma_keyed(s, r, x); }
}

// ---- when the operators may be used (what they compute is stated in their contracts)
impl<T, S1, S2> vstd::std_specs::ops::AddSpecImpl<Counter<T, S1>> for Counter<T, S2> where T: Hash + Eq, S1: BuildHasher, S2: BuildHasher {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Counter<T, S1>) -> bool { keys_ok::<T, S1>() && keys_ok::<T, S2>() && sum_fits(self.counter@, rhs.counter@) }
    open spec fn add_spec(self, rhs: Counter<T, S1>) -> Counter<T, S2> { arbitrary() }
}
impl<'a, T, S1, S2> vstd::std_specs::ops::AddSpecImpl<&'a Counter<T, S1>> for Counter<T, S2> where T: Hash + Eq + Clone, S1: BuildHasher, S2: BuildHasher {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: &'a Counter<T, S1>) -> bool { keys_ok::<T, S1>() && keys_ok::<T, S2>() && clones::<T>() && sum_fits(self.counter@, rhs.counter@) }
    open spec fn add_spec(self, rhs: &'a Counter<T, S1>) -> Counter<T, S2> { arbitrary() }
}
impl<T, S1, S2> vstd::std_specs::ops::AddAssignSpecImpl<Counter<T, S1>> for Counter<T, S2> where T: Hash + Eq, S1: BuildHasher, S2: BuildHasher {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Counter<T, S1>) -> bool { keys_ok::<T, S1>() && keys_ok::<T, S2>() && sum_fits(self.counter@, rhs.counter@) }
    open spec fn add_assign_spec(&self, rhs: Counter<T, S1>) -> &Counter<T, S2> { arbitrary() }
}
impl<'a, T, S1, S2> vstd::std_specs::ops::AddAssignSpecImpl<&'a Counter<T, S1>> for Counter<T, S2> where T: Hash + Eq + Clone, S1: BuildHasher, S2: BuildHasher {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: &'a Counter<T, S1>) -> bool { keys_ok::<T, S1>() && keys_ok::<T, S2>() && clones::<T>() && sum_fits(self.counter@, rhs.counter@) }
    open spec fn add_assign_spec(&self, rhs: &'a Counter<T, S1>) -> &Counter<T, S2> { arbitrary() }
}
impl<T, S1, S2> vstd::std_specs::ops::SubSpecImpl<Counter<T, S1>> for Counter<T, S2> where T: Hash + Eq, S1: BuildHasher, S2: BuildHasher {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Counter<T, S1>) -> bool { keys_ok::<T, S1>() && keys_ok::<T, S2>() }
    open spec fn sub_spec(self, rhs: Counter<T, S1>) -> Counter<T, S2> { arbitrary() }
}
impl<'a, T, S1, S2> vstd::std_specs::ops::SubSpecImpl<&'a Counter<T, S1>> for Counter<T, S2> where T: Hash + Eq + Clone, S1: BuildHasher, S2: BuildHasher {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: &'a Counter<T, S1>) -> bool { keys_ok::<T, S1>() && keys_ok::<T, S2>() && clones::<T>() }
    open spec fn sub_spec(self, rhs: &'a Counter<T, S1>) -> Counter<T, S2> { arbitrary() }
}
impl<T, S1, S2> vstd::std_specs::ops::SubAssignSpecImpl<Counter<T, S1>> for Counter<T, S2> where T: Hash + Eq, S1: BuildHasher, S2: BuildHasher {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: Counter<T, S1>) -> bool { keys_ok::<T, S1>() && keys_ok::<T, S2>() }
    open spec fn sub_assign_spec(&self, rhs: Counter<T, S1>) -> &Counter<T, S2> { arbitrary() }
}
impl<'a, T, S1, S2> vstd::std_specs::ops::SubAssignSpecImpl<&'a Counter<T, S1>> for Counter<T, S2> where T: Hash + Eq + Clone, S1: BuildHasher, S2: BuildHasher {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: &'a Counter<T, S1>) -> bool { keys_ok::<T, S1>() && keys_ok::<T, S2>() && clones::<T>() }
    open spec fn sub_assign_spec(&self, rhs: &'a Counter<T, S1>) -> &Counter<T, S2> { arbitrary() }
}
impl<T, S1, S2> vstd::std_specs::convert::FromSpecImpl<HashMap<T, usize, S1>> for Counter<T, S2> where T: Hash + Eq, S1: BuildHasher, S2: BuildHasher + Default {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: HashMap<T, usize, S1>) -> Counter<T, S2> { arbitrary() }
}
impl<'a, T, S1, S2> vstd::std_specs::convert::FromSpecImpl<&'a HashMap<T, usize, S1>> for Counter<T, S2> where T: Hash + Eq + Clone, S1: BuildHasher, S2: BuildHasher + Default {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: &'a HashMap<T, usize, S1>) -> Counter<T, S2> { arbitrary() }
}

// ---- listings
// the entries a borrowing iterator yields, as values
pub open spec fn pairs<'a, K, V>(s: Seq<(&'a K, &'a V)>) -> Seq<(K, V)> { Seq::new(s.len(), |i: int| (*s[i].0, *s[i].1)) }
// what vstd says of HashMap::iter
pub open spec fn iter_facts<'a, K, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| #![trigger m.contains_key(*s[i].0)] #![trigger m[*s[i].0]] 0 <= i < s.len() ==> m.contains_key(*s[i].0) && m[*s[i].0] == *s[i].1
    &&& s.no_duplicates()
    &&& forall|x: K| #[trigger] m.contains_key(x) ==> s.contains((&x, &m[x]))
}
pub broadcast proof fn lemma_lists_iter<'a, K, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>)
    requires iter_facts(s, m),
    ensures #[trigger] lists_map(pairs(s), m),
{
    let p = pairs(s);
    assert forall|i: int| 0 <= i < p.len() implies m.contains_key((#[trigger] p[i]).0) && m[p[i].0] == p[i].1 by { assert(m.contains_key(*s[i].0)); }
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 by {
        if p[i].0 == p[j].0 { assert(m[*s[i].0] == m[*s[j].0]); assert(*s[i].1 == *s[j].1); assert(s[i] == s[j]); }
    }
    assert forall|x: K| #[trigger] m.contains_key(x) implies exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == x by {
        assert(s.contains((&x, &m[x])));
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (&x, &m[x]);
        assert(p[i].0 == x);
    }
}
// m is what inserting the pairs of s one after the other builds
pub open spec fn from_pairs<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && m[k] == s[i].1 && forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != k
}
// K05: rebuilding a map from its listing gives the same map
pub broadcast proof fn lemma_from_pairs<K, V>(s: Seq<(K, V)>, m: Map<K, V>, f: Map<K, V>)
    requires #[trigger] lists_map(s, m), #[trigger] from_pairs(s, f),
    ensures f == m,
{
    assert(f =~= m) by {
        assert forall|k: K| f.contains_key(k) == m.contains_key(k) && (m.contains_key(k) ==> f[k] == m[k]) by {
            if f.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && f[k] == s[i].1; assert(m.contains_key(s[i].0)); }
            if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(f.contains_key(s[i].0)); }
        }
    }
}
// copying out what a borrowing iterator yields gives a listing
pub broadcast proof fn lemma_copied<'a, K, V, S>(x: HashMap<K, V, S>, i: Seq<(&'a K, &'a V)>, s: Seq<(K, V)>)
    requires
        #[trigger] zipped(i, s), s.len() == i.len(), iter_facts(i, #[trigger] x@),
        forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == (*i[k].0, *i[k].1),
    ensures lists_map(s, x@),
{
    lemma_lists_iter(i, x@);
    assert(s =~= pairs(i));
}
pub open spec fn by_count<T>(s: Seq<(T, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 >= (#[trigger] s[j]).1 }
// K04: a rearranged listing is a listing
pub proof fn lemma_rearranged<K, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, m: Map<K, V>)
    requires lists_map(s, m), t.len() == s.len(), t.to_multiset() == s.to_multiset(),
    ensures lists_map(t, m),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.no_duplicates());
    s.lemma_multiset_has_no_duplicates();
    t.lemma_multiset_has_no_duplicates_conv();
    assert forall|x: (K, V)| #[trigger] t.contains(x) == s.contains(x) by {
        assert(t.contains(x) <==> t.to_multiset().count(x) > 0);
        assert(s.contains(x) <==> s.to_multiset().count(x) > 0);
    }
    assert forall|i: int| 0 <= i < t.len() implies m.contains_key((#[trigger] t[i]).0) && m[t[i].0] == t[i].1 by {
        assert(t.contains(t[i]));
        let k = choose|k: int| 0 <= k < s.len() && s[k] == t[i];
        assert(m.contains_key(s[k].0));
    }
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        assert(s.contains(s[i]));
        assert(t.contains(s[i]));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == s[i];
        assert(t[j].0 == k);
    }
}

// ---- collecting: the items an iterator yields, and what collections are built from them
pub trait VxFrom<A>: FromIterator<A> {
    spec fn built(s: Seq<A>, r: Self) -> bool;
    fn vx_collect<I: Iterator<Item = A>>(i: I) -> (r: Self)
        requires i.obeys_prophetic_iter_laws(), i.decrease() is Some,
        ensures i.will_return_none(), Self::built(i.remaining(), r);
}
impl<A> VxFrom<A> for Vec<A> {
    open spec fn built(s: Seq<A>, r: Self) -> bool { r@ == s }
    fn vx_collect<I: Iterator<Item = A>>(i: I) -> (r: Self) { i.collect() }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> VxFrom<(K, V)> for HashMap<K, V, S> {
    open spec fn built(s: Seq<(K, V)>, r: Self) -> bool { obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> from_pairs(s, r@) }
    #[verifier::external_body]
    fn vx_collect<I: Iterator<Item = (K, V)>>(i: I) -> (r: Self) { i.collect() }
}
pub fn collect<I: Iterator, C: VxFrom<I::Item>>(i: I) -> (r: C)
    requires i.obeys_prophetic_iter_laws(), i.decrease() is Some,
    ensures i.will_return_none(), C::built(i.remaining(), r),
{ C::vx_collect(i) }
pub fn vec_from_iter<A, I: Iterator<Item = A>>(i: I) -> (r: Vec<A>)
    requires i.obeys_prophetic_iter_laws(), i.decrease() is Some,
    ensures i.will_return_none(), r@ == i.remaining(),
{ i.collect() }
pub fn map_from_iter<K: Eq + Hash, V, S: BuildHasher + Default, I: Iterator<Item = (K, V)>>(i: I) -> (r: HashMap<K, V, S>)
    requires i.obeys_prophetic_iter_laws(), i.decrease() is Some,
    ensures i.will_return_none(), <HashMap<K, V, S> as VxFrom<(K, V)>>::built(i.remaining(), r),
{ <HashMap<K, V, S> as VxFrom<(K, V)>>::vx_collect(i) }

@method size_hint crate::vx::size_hint ref 0
@method map crate::vx::iter_map val 1
@method collect crate::vx::collect val 0
@call Vec::from_iter crate::vx::vec_from_iter
@call HashMap::from_iter crate::vx::map_from_iter
@type Counter #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(S)]

@fn Counter::new
@req : keys_ok::<T, S>()
@ens K01,K05: $r.counter@ == Map::<T, usize>::empty()

@fn <Counter as Default>::default
@ens K01,K05: keys_ok::<T, S>() ==> $r.counter@ == Map::<T, usize>::empty()

@fn Counter::with_capacity
@req : keys_ok::<T, S>()
@ens K01,K05: $r.counter@ == Map::<T, usize>::empty()

@fn Counter::with_hasher
@req : keys_ok::<T, S>()
@ens K01,K05: $r.counter@ == Map::<T, usize>::empty()

@fn Counter::with_capacity_and_hasher
@req : keys_ok::<T, S>()
@ens K01,K05: $r.counter@ == Map::<T, usize>::empty()

@fn Counter::from_hashmap
@ens K05: $r.counter == $0

@fn Counter::push
@req : keys_ok::<T, S>() && cnt(old(self).counter@, $0) < usize::MAX
@ens K01: final(self).counter@ == old(self).counter@.insert($0, (cnt(old(self).counter@, $0) + 1) as usize)

@fn Counter::into_most_common
@req : keys_ok::<T, S>()
@ens K04: lists_map($r@, self.counter@)
@ens K04: by_count($r@)
@before sort_unstable_by_key#0
let ghost vx_s = %0@;
@after sort_unstable_by_key#0
proof { lemma_rearranged(vx_s, %0@, self.counter@); }
@closure 0 &(T, usize) -> (vx_cr: usize)
@req true
@ens vx_cr == usize::MAX - $c0.1

@fn Counter::most_common
@req : keys_ok::<T, S>() && clones::<T>()
@ens K04: lists_map($r@, self.counter@)
@ens K04: by_count($r@)
@entry broadcast use lemma_copied;
@before sort_unstable_by_key#0
let ghost vx_s = %0@;
@after sort_unstable_by_key#0
proof { lemma_rearranged(vx_s, %0@, self.counter@); }
@closure 0 (&T, &usize) -> (vx_cr: (T, usize))
@req true
@ens call_ensures(T::clone, ($c0.0,), vx_cr.0) && vx_cr.1 == *$c0.1
@closure 1 &(T, usize) -> (vx_cr: usize)
@req true
@ens vx_cr == usize::MAX - $c0.1

@fn <Counter as Deref>::deref
@ens K05: $r@ == self.counter@

@fn <Counter as DerefMut>::deref_mut
@ens K05: $r@ == old(self).counter@ && final(self).counter@ == final($r)@

@fn <Counter as IntoIterator>::into_iter
@ens K05,K02,K03: $r.obeys_prophetic_iter_laws() && $r.decrease() is Some
@ens K05,K02,K03: keys_ok::<T, S>() ==> lists_map($r.remaining(), self.counter@)

@fn <&Counter as IntoIterator>::into_iter
@ens K05,K02,K03: keys_ok::<T, S>() ==> iter_facts($r.remaining(), self.counter@) && $r.decrease() is Some

@fn <&mut Counter as IntoIterator>::into_iter
@ens K05: keys_ok::<T, S>() ==> lends_map(rem_mut($r), old(self).counter@, final(self).counter@)

@fn <Counter as From<HashMap>>::from
@ens K05: keys_ok::<T, S1>() && keys_ok::<T, S2>() ==> $r.counter@ == $0@
@entry broadcast use lemma_from_pairs;

@fn <Counter as From<&HashMap>>::from
@rehome
@req : keys_ok::<T, S1>() && keys_ok::<T, S2>() && clones::<T>()
@ens K05: $r.counter@ == $0@
@entry broadcast use lemma_from_pairs, lemma_copied;
@closure 0 (&T, &usize) -> (vx_cr: (T, usize))
@req true
@ens call_ensures(T::clone, ($c0.0,), vx_cr.0) && vx_cr.1 == *$c0.1

@fn <Counter as FromIterator<T>>::from_iter
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S>() && iter_fits($0, Map::<T, usize>::empty())
@ens K01: exists|s: Seq<T>| #[trigger] yields($0, s) && counted(Map::<T, usize>::empty(), s, $r.counter@)
@entry let ghost vx_i = $0;
@after into_iter#0
let ghost vx_s = %0.remaining();
proof { assert(yields(vx_i, vx_s)); }
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : vx_it.seq() == vx_s
@inv : counted(Map::empty(), vx_s.take(vx_it.index@ as int), %1.counter@)
@body let ghost vx_b = %1.counter@; proof { assert(%L0 == vx_s[vx_it.index@ as int]); lemma_room(Map::empty(), vx_s, vx_it.index@ as int, vx_b); }
@loopafter proof { assert(vx_s.take(vx_s.len() as int) =~= vx_s); }
@bodyend proof { lemma_count_step(Map::empty(), vx_s, vx_it.index@ as int, vx_b, %1.counter@); }

@fn <Counter as FromIterator<&T>>::from_iter
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S>() && iter_fits_ref($0, Map::<T, usize>::empty()) && clones::<T>()
@ens K01: exists|s: Seq<&'a T>| #[trigger] yields($0, s) && counted(Map::<T, usize>::empty(), s.unref(), $r.counter@)
@entry let ghost vx_i = $0;
@after into_iter#0
let ghost vx_s = %0.remaining();
proof { assert(yields(vx_i, vx_s)); }
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : vx_it.seq().len() <= vx_s.len() && (forall|k: int| 0 <= k < vx_it.seq().len() ==> #[trigger] vx_it.seq()[k] == *vx_s[k])
@inv : vx_it.snapshot@.will_return_none() ==> vx_it.seq().len() == vx_s.len()
@inv : counted(Map::empty(), vx_s.unref().take(vx_it.index@ as int), %1.counter@)
@body let ghost vx_b = %1.counter@; proof { assert(%L0 == vx_s.unref()[vx_it.index@ as int]); lemma_room(Map::empty(), vx_s.unref(), vx_it.index@ as int, vx_b); }
@loopafter proof { assert(vx_s.unref().take(vx_s.len() as int) =~= vx_s.unref()); }
@bodyend proof { lemma_count_step(Map::empty(), vx_s.unref(), vx_it.index@ as int, vx_b, %1.counter@); }
@closure 0 &'a T -> (vx_cr: T)
@req true
@ens call_ensures(T::clone, ($c0,), vx_cr)

@fn <Counter as Extend<T>>::extend
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S>() && iter_fits($0, old(self).counter@)
@ens K01: exists|s: Seq<T>| #[trigger] yields($0, s) && counted(old(self).counter@, s, final(self).counter@)
@entry let ghost vx_i = $0; let ghost vx_o = self.counter@;
@after into_iter#0
let ghost vx_s = %0.remaining();
proof { assert(yields(vx_i, vx_s)); }
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : vx_it.seq() == vx_s
@inv : counted(vx_o, vx_s.take(vx_it.index@ as int), self.counter@)
@body let ghost vx_b = self.counter@; proof { assert(%L0 == vx_s[vx_it.index@ as int]); lemma_room(vx_o, vx_s, vx_it.index@ as int, vx_b); }
@loopafter proof { assert(vx_s.take(vx_s.len() as int) =~= vx_s); }
@bodyend proof { lemma_count_step(vx_o, vx_s, vx_it.index@ as int, vx_b, self.counter@); }

@fn <Counter as Extend<&T>>::extend
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S>() && iter_fits_ref($0, old(self).counter@)
@ens K01: exists|s: Seq<&'a T>| #[trigger] yields($0, s) && counted(old(self).counter@, s.unref(), final(self).counter@)
@entry let ghost vx_i = $0; let ghost vx_o = self.counter@;
@after into_iter#0
let ghost vx_s = %0.remaining();
proof { assert(yields(vx_i, vx_s)); }
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : vx_it.seq().len() <= vx_s.len() && (forall|k: int| 0 <= k < vx_it.seq().len() ==> #[trigger] vx_it.seq()[k] == *vx_s[k])
@inv : vx_it.snapshot@.will_return_none() ==> vx_it.seq().len() == vx_s.len()
@inv : counted(vx_o, vx_s.unref().take(vx_it.index@ as int), self.counter@)
@body let ghost vx_b = self.counter@; proof { assert(%L0 == vx_s.unref()[vx_it.index@ as int]); lemma_room(vx_o, vx_s.unref(), vx_it.index@ as int, vx_b); }
@loopafter proof { assert(vx_s.unref().take(vx_s.len() as int) =~= vx_s.unref()); }
@bodyend proof { lemma_count_step(vx_o, vx_s.unref(), vx_it.index@ as int, vx_b, self.counter@); }
@closure 0 &'a T -> (vx_cr: T)
@req true
@ens vx_cr == *$c0

@fn <Counter as AddAssign<Counter>>::add_assign
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S2>() && keys_ok::<T, S1>() && sum_fits(old(self).counter@, $0.counter@)
@ens K02: sum_of(old(self).counter@, $0.counter@, final(self).counter@)
@entry let ghost vx_o = self.counter@; let ghost vx_r = $0.counter@;
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : lists_map(vx_it.seq(), vx_r)
@inv : summed(vx_o, vx_it.seq(), vx_it.index@ as int, self.counter@)
@body let ghost vx_b = self.counter@; let ghost vx_s = vx_it.seq(); let ghost vx_k = vx_it.index@ as int; proof { lemma_sum_room(vx_o, vx_r, vx_s, vx_k, vx_b); }
@bodyend proof { lemma_sum_step(vx_o, vx_s, vx_k, vx_b, self.counter@); }
@loopafter proof { assert forall|s: Seq<(T, usize)>| lists_map(s, vx_r) && #[trigger] summed(vx_o, s, s.len() as int, self.counter@) implies sum_of(vx_o, vx_r, self.counter@) by { lemma_sum_done(vx_o, vx_r, s, self.counter@); } }

@fn <Counter as AddAssign<&Counter>>::add_assign
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S2>() && keys_ok::<T, S1>() && clones::<T>() && sum_fits(old(self).counter@, $0.counter@)
@ens K02: sum_of(old(self).counter@, $0.counter@, final(self).counter@)
@entry let ghost vx_o = self.counter@; let ghost vx_r = $0.counter@; broadcast use lemma_lists_iter;
@loop 0 vx_it
@inv : lists_map(pairs(vx_it.seq()), vx_r)
@inv : summed(vx_o, pairs(vx_it.seq()), vx_it.index@ as int, self.counter@)
@body let ghost vx_b = self.counter@; let ghost vx_s = pairs(vx_it.seq()); let ghost vx_k = vx_it.index@ as int; proof { lemma_sum_room(vx_o, vx_r, vx_s, vx_k, vx_b); }
@bodyend proof { lemma_sum_step(vx_o, vx_s, vx_k, vx_b, self.counter@); }
@loopafter proof { assert forall|s: Seq<(T, usize)>| lists_map(s, vx_r) && #[trigger] summed(vx_o, s, s.len() as int, self.counter@) implies sum_of(vx_o, vx_r, self.counter@) by { lemma_sum_done(vx_o, vx_r, s, self.counter@); } }

@fn <Counter as Add<Counter>>::add
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S2>() && keys_ok::<T, S1>() && sum_fits(self.counter@, $0.counter@)
@ens K02: sum_of(self.counter@, $0.counter@, $r.counter@)

@fn <Counter as Add<&Counter>>::add
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S2>() && keys_ok::<T, S1>() && clones::<T>() && sum_fits(self.counter@, $0.counter@)
@ens K02: sum_of(self.counter@, $0.counter@, $r.counter@)
@entry let ghost vx_o = self.counter@; let ghost vx_r = $0.counter@; broadcast use lemma_lists_iter;
@loop 0 vx_it
@inv : lists_map(pairs(vx_it.seq()), vx_r)
@inv : summed(vx_o, pairs(vx_it.seq()), vx_it.index@ as int, vx_self.counter@)
@body let ghost vx_b = vx_self.counter@; let ghost vx_s = pairs(vx_it.seq()); let ghost vx_k = vx_it.index@ as int; proof { lemma_sum_room(vx_o, vx_r, vx_s, vx_k, vx_b); }
@bodyend proof { lemma_sum_step(vx_o, vx_s, vx_k, vx_b, vx_self.counter@); }
@loopafter proof { assert forall|s: Seq<(T, usize)>| lists_map(s, vx_r) && #[trigger] summed(vx_o, s, s.len() as int, vx_self.counter@) implies sum_of(vx_o, vx_r, vx_self.counter@) by { lemma_sum_done(vx_o, vx_r, s, vx_self.counter@); } }

@fn <Counter as SubAssign<Counter>>::sub_assign
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S2>() && keys_ok::<T, S1>()
@ens K03: difference_of(old(self).counter@, $0.counter@, final(self).counter@)
@entry let ghost vx_o = self.counter@; let ghost vx_r = $0.counter@;
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : lists_map(vx_it.seq(), vx_r)
@inv : subtracted(vx_o, vx_it.seq(), vx_it.index@ as int, self.counter@)
@body let ghost vx_b = self.counter@; let ghost vx_s = vx_it.seq(); let ghost vx_k = vx_it.index@ as int; proof {  }
@bodyend proof { lemma_sub_step(vx_o, vx_s, vx_k, vx_b, self.counter@); }
@loopafter proof { assert forall|s: Seq<(T, usize)>| lists_map(s, vx_r) && #[trigger] subtracted(vx_o, s, s.len() as int, self.counter@) implies difference_of(vx_o, vx_r, self.counter@) by { lemma_sub_done(vx_o, vx_r, s, self.counter@); } }

@fn <Counter as SubAssign<&Counter>>::sub_assign
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S2>() && keys_ok::<T, S1>() && clones::<T>()
@ens K03: difference_of(old(self).counter@, $0.counter@, final(self).counter@)
@entry let ghost vx_o = self.counter@; let ghost vx_r = $0.counter@; broadcast use lemma_lists_iter;
@loop 0 vx_it
@inv : lists_map(pairs(vx_it.seq()), vx_r)
@inv : subtracted(vx_o, pairs(vx_it.seq()), vx_it.index@ as int, self.counter@)
@body let ghost vx_b = self.counter@; let ghost vx_s = pairs(vx_it.seq()); let ghost vx_k = vx_it.index@ as int; proof { }
@bodyend proof { lemma_sub_step(vx_o, vx_s, vx_k, vx_b, self.counter@); }
@loopafter proof { assert forall|s: Seq<(T, usize)>| lists_map(s, vx_r) && #[trigger] subtracted(vx_o, s, s.len() as int, self.counter@) implies difference_of(vx_o, vx_r, self.counter@) by { lemma_sub_done(vx_o, vx_r, s, self.counter@); } }

@fn <Counter as Sub<Counter>>::sub
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S2>() && keys_ok::<T, S1>()
@ens K03: difference_of(self.counter@, $0.counter@, $r.counter@)

@fn <Counter as Sub<&Counter>>::sub
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S2>() && keys_ok::<T, S1>() && clones::<T>()
@ens K03: difference_of(self.counter@, $0.counter@, $r.counter@)
@entry let ghost vx_o = self.counter@; let ghost vx_r = $0.counter@; broadcast use lemma_lists_iter;
@loop 0 vx_it
@inv : lists_map(pairs(vx_it.seq()), vx_r)
@inv : subtracted(vx_o, pairs(vx_it.seq()), vx_it.index@ as int, vx_self.counter@)
@body let ghost vx_b = vx_self.counter@; let ghost vx_s = pairs(vx_it.seq()); let ghost vx_k = vx_it.index@ as int; proof { }
@bodyend proof { lemma_sub_step(vx_o, vx_s, vx_k, vx_b, vx_self.counter@); }
@loopafter proof { assert forall|s: Seq<(T, usize)>| lists_map(s, vx_r) && #[trigger] subtracted(vx_o, s, s.len() as int, vx_self.counter@) implies difference_of(vx_o, vx_r, vx_self.counter@) by { lemma_sub_done(vx_o, vx_r, s, vx_self.counter@); } }


@fn <Counter as Clone>::clone
@ens K01,K05: keys_ok::<T, S>() && clones::<T>() ==> $r.counter@ == self.counter@

@fn <Counter as PartialEq>::eq
@ens K05: keys_ok::<T, S>() ==> $r == (self.counter@ =~= $0.counter@)
