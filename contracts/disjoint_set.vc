# Contracts of the module `disjoint_set` (union-find with path compression and union by rank).
@root
pub use std::collections::HashMap;
pub use std::collections::hash_map::{Entry, IntoIter};
pub use std::hash::{BuildHasher, Hash};
pub use std::alloc::Allocator;
pub use vstd::std_specs::hash::*;
pub use vstd::std_specs::iter::IteratorSpec;
pub use vstd::arithmetic::power2::*;
use crate::disjoint_set::disjoint_set::{Data, DisjointSet, SetIter};
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::iter::group_iter_axioms};

// nothing here is allowed to panic
#[verifier::external_body]
pub fn vpanic() -> !
    requires false,
{ panic!() }
pub fn vassert(c: bool)
    requires c,
    ensures c,
{ if !c { vpanic() } }
// whether debug assertions are compiled in: either way must be right
#[verifier::external_body]
pub fn in_debug() -> bool { cfg!(debug_assertions) }

// stands for the crate fnv, which only occurs in the type alias FastDisjointSet
pub mod fnv { pub struct FnvBuildHasher {} }

// ---- the standard library, as far as vstd does not describe it

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(A)]
pub struct ExMapIntoIter<K, V, A: Allocator>(IntoIter<K, V, A>);
// the entries an owning map iterator has not yet yielded
pub uninterp spec fn rem<K, V, A: Allocator>(i: IntoIter<K, V, A>) -> Seq<(K, V)>;

pub assume_specification<K, V, A: Allocator>[ <IntoIter<K, V, A> as Iterator>::next ](it: &mut IntoIter<K, V, A>) -> (r: Option<(K, V)>)
    ensures
        rem(*old(it)).len() == 0 ==> r is None && rem(*final(it)).len() == 0,
        rem(*old(it)).len() > 0 ==> r == Some(rem(*old(it))[0]) && rem(*final(it)) == rem(*old(it)).drop_first();

pub open spec fn lists_map<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}

pub assume_specification<K, V, S, A: Allocator>[ <HashMap<K, V, S, A> as IntoIterator>::into_iter ](m: HashMap<K, V, S, A>) -> (r: IntoIter<K, V, A>)
    ensures obeys_key_model::<K>() && builds_valid_hashers::<S>() ==> lists_map(rem(r), m@);

pub assume_specification<K, V, S>[ HashMap::<K, V, S>::with_hasher ](h: S) -> (r: HashMap<K, V, S>)
    ensures r@ == Map::<K, V>::empty();
pub assume_specification<K, V, S>[ HashMap::<K, V, S>::with_capacity_and_hasher ](n: usize, h: S) -> (r: HashMap<K, V, S>)
    ensures r@ == Map::<K, V>::empty();

pub assume_specification<'a, K, V, A: Allocator, F: FnOnce() -> V>[ Entry::<'a, K, V, A>::or_insert_with::<F> ](entry: Entry<'a, K, V, A>, default: F) -> (value: &'a mut V)
    requires entry.value() is None ==> call_requires(default, ()),
    ensures
        match entry.value() { Some(v) => *value == v, None => call_ensures(default, (), *value) },
        entry.final_value() == Some(*final(value));

// a capacity hint; nothing is concluded from it
#[verifier::external_body]
pub fn size_hint<I: Iterator>(i: &I) -> (r: (usize, Option<usize>)) { i.size_hint() }

// Iterator::map: the wrapper is checked, it only restates vstd's contract
pub fn iter_map<B, I: Iterator, F: FnMut(I::Item) -> B>(i: I, f: F) -> (r: std::iter::Map<I, F>)
    requires
        i.obeys_prophetic_iter_laws(),
        forall|k: int| 0 <= k < i.remaining().len() ==> call_requires(f, (#[trigger] i.remaining()[k],)),
    ensures
        r.obeys_prophetic_iter_laws(),
        r.decrease() is Some == i.decrease() is Some,
        r.remaining().len() <= i.remaining().len(),
        r.will_return_none() ==> i.will_return_none() && r.remaining().len() == i.remaining().len(),
        forall|k: int| #![trigger r.remaining()[k]] 0 <= k < r.remaining().len() ==> call_ensures(f, (i.remaining()[k],), r.remaining()[k]),
{
    let ghost i0 = i;
    let ghost f0 = f;
    let r = i.map(f);
    assert(vstd::std_specs::iter::map_post(i0, f0, r));
    r
}

pub proof fn lemma_take_push<A>(s: Seq<A>, i: int)
    requires 0 <= i < s.len(),
    ensures s.take(i + 1) == s.take(i).push(s[i]), forall|x: A| #[trigger] s.take(i + 1).contains(x) == (s.take(i).contains(x) || x == s[i]),
{
    let t = s.take(i);
    assert(s.take(i + 1) =~= t.push(s[i]));
    assert forall|x: A| #[trigger] s.take(i + 1).contains(x) == (t.contains(x) || x == s[i]) by {
        if t.contains(x) { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(s.take(i + 1)[k] == x); }
        if x == s[i] { assert(s.take(i + 1)[i] == x); }
        if s.take(i + 1).contains(x) { let k = choose|k: int| 0 <= k < s.take(i + 1).len() && #[trigger] s.take(i + 1)[k] == x; if k < i { assert(t[k] == x); } }
    }
}

// ---- assumptions on the caller's types
pub open spec fn keys_ok<T: Eq + Hash, S: BuildHasher>() -> bool { obeys_key_model::<T>() && builds_valid_hashers::<S>() }
pub open spec fn clones<U: Clone>() -> bool { forall|a: U, b: U| #[trigger] call_ensures(U::clone, (&a,), b) ==> a == b }
// the assumed contract of the key type and the default hasher holds for primitive keys: it can be met, and for these it is not an assumption
pub mod witness {
use super::*;
broadcast use vstd::std_specs::hash::group_hash_axioms;
macro_rules! wit { ($($n:ident $t:ty),*) => { verus!{ $( proof fn $n() ensures keys_ok::<$t, std::collections::hash_map::RandomState>(), clones::<$t>() {} )* } } }
wit!(w_u8 u8, w_u16 u16, w_u32 u32, w_u64 u64, w_u128 u128, w_usize usize, w_i8 i8, w_i16 i16, w_i32 i32, w_i64 i64, w_i128 i128, w_isize isize, w_bool bool);
}
// the iterator given to us is well behaved and ends
#[verifier::prophetic]
pub open spec fn iter_ok<I: IntoIterator>() -> bool {
    forall|i: I, it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (i,), it) ==> it.obeys_prophetic_iter_laws() && it.decrease() is Some
}
// s are the items that iterating over i yields
#[verifier::prophetic]
pub open spec fn yields<I: IntoIterator>(i: I, s: Seq<I::Item>) -> bool {
    exists|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (i,), it) && it.remaining() == s
}

// ---- forests

pub open spec fn forest(d: Seq<Data>) -> bool {
    forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i].parent < d.len() && (d[i].parent != i ==> d[i].rank < d[d[i].parent as int].rank)
}
pub open spec fn vx_root(d: Seq<Data>, i: int) -> int
    decreases u32::MAX - d[i].rank
    when forest(d) && 0 <= i < d.len()
{
    if d[i].parent == i { i } else { vx_root(d, d[i].parent as int) }
}
// the number of links followed from i to its root
pub open spec fn vx_depth(d: Seq<Data>, i: int) -> nat
    decreases u32::MAX - d[i].rank
    when forest(d) && 0 <= i < d.len()
{
    if d[i].parent == i { 0 } else { vx_depth(d, d[i].parent as int) + 1 }
}
pub open spec fn vx_tree(d: Seq<Data>, r: int) -> Set<int> {
    vstd::set_lib::set_int_range(0, d.len() as int).filter(|i: int| vx_root(d, i) == r)
}
pub open spec fn sized(d: Seq<Data>) -> bool {
    forall|r: int| 0 <= r < d.len() && #[trigger] d[r].parent == r ==> vx_tree(d, r).len() >= pow2(d[r].rank as nat)
}

pub proof fn lemma_root(d: Seq<Data>, i: int)
    requires forest(d), 0 <= i < d.len(),
    ensures
        0 <= vx_root(d, i) < d.len(),
        d[vx_root(d, i)].parent == vx_root(d, i),
        vx_root(d, vx_root(d, i)) == vx_root(d, i),
        d[i].rank <= d[vx_root(d, i)].rank,
        d[i].parent != i ==> d[i].rank < d[vx_root(d, i)].rank && vx_root(d, i) != i && vx_root(d, i) == vx_root(d, d[i].parent as int),
        d[i].parent == i ==> vx_root(d, i) == i,
    decreases u32::MAX - d[i].rank
{
    if d[i].parent != i { lemma_root(d, d[i].parent as int); }
}
pub proof fn lemma_roots(d: Seq<Data>)
    requires forest(d),
    ensures forall|i: int| #![trigger vx_root(d, i)] 0 <= i < d.len() ==> {
        &&& 0 <= vx_root(d, i) < d.len()
        &&& d[vx_root(d, i)].parent == vx_root(d, i)
        &&& vx_root(d, vx_root(d, i)) == vx_root(d, i)
        &&& d[i].rank <= d[vx_root(d, i)].rank
        &&& (d[i].parent == i <==> vx_root(d, i) == i)
    },
{
    assert forall|i: int| #![trigger vx_root(d, i)] 0 <= i < d.len() implies {
        &&& 0 <= vx_root(d, i) < d.len()
        &&& d[vx_root(d, i)].parent == vx_root(d, i)
        &&& vx_root(d, vx_root(d, i)) == vx_root(d, i)
        &&& d[i].rank <= d[vx_root(d, i)].rank
        &&& (d[i].parent == i <==> vx_root(d, i) == i)
    } by { lemma_root(d, i); }
}

// two forests of equal size whose nodes have the same roots, with the same ranks, have the same trees
pub open spec fn same_roots(d: Seq<Data>, e: Seq<Data>) -> bool {
    &&& d.len() == e.len()
    &&& forest(d) && forest(e)
    &&& forall|i: int| 0 <= i < d.len() ==> #[trigger] vx_root(d, i) == vx_root(e, i)
    &&& forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i].rank == e[i].rank
}
pub proof fn lemma_same_roots_sized(d: Seq<Data>, e: Seq<Data>)
    requires same_roots(d, e), sized(d),
    ensures sized(e),
{
    assert forall|r: int| 0 <= r < e.len() && #[trigger] e[r].parent == r implies vx_tree(e, r).len() >= pow2(e[r].rank as nat) by {
        lemma_root(e, r);
        lemma_root(d, r);
        assert(vx_root(d, r) == vx_root(e, r));
        assert(d[r].parent == r);
        assert(vx_tree(d, r) =~= vx_tree(e, r)) by {
            assert forall|i: int| 0 <= i < d.len() implies vx_root(d, i) == vx_root(e, i) by {}
        }
    }
}

// D01,D04: path compression: linking a node directly to its root changes no root
pub proof fn lemma_compress(d: Seq<Data>, i: int, e: Seq<Data>)
    requires
        forest(d), 0 <= i < d.len(), d[i].parent != i,
        e == d.update(i, Data { parent: vx_root(d, i) as usize, rank: d[i].rank }),
    ensures same_roots(d, e),
{
    lemma_root(d, i);
    let r = vx_root(d, i);
    assert(e[r] == d[r]);
    assert forall|j: int| 0 <= j < e.len() implies #[trigger] e[j].parent < e.len() && (e[j].parent != j ==> e[j].rank < e[e[j].parent as int].rank) by {
        assert(d[j].parent < d.len());
        if j != i { let p = d[j].parent as int; assert(e[p].rank == d[p].rank); }
    }
    assert forall|j: int| 0 <= j < d.len() implies #[trigger] vx_root(d, j) == vx_root(e, j) by { lemma_compress_root(d, i, e, j); }
}
proof fn lemma_compress_root(d: Seq<Data>, i: int, e: Seq<Data>, j: int)
    requires
        forest(d), forest(e), 0 <= i < d.len(), d[i].parent != i, 0 <= j < d.len(),
        e == d.update(i, Data { parent: vx_root(d, i) as usize, rank: d[i].rank }),
    ensures vx_root(e, j) == vx_root(d, j),
    decreases u32::MAX - d[j].rank
{
    lemma_root(d, i);
    lemma_root(d, j);
    if j == i {
        let r = vx_root(d, i);
        assert(e[i].parent == r);
        assert(e[r] == d[r]);
        assert(vx_root(e, r) == r);
        assert(vx_root(e, i) == vx_root(e, e[i].parent as int));
    } else {
        assert(e[j] == d[j]);
        if d[j].parent != j { lemma_compress_root(d, i, e, d[j].parent as int); }
    }
}

// D01,D02,D04: a new node is a tree of its own
pub proof fn lemma_push(d: Seq<Data>, e: Seq<Data>)
    requires forest(d), sized(d), d.len() <= usize::MAX, e == d.push(Data { parent: d.len() as usize, rank: 0 }),
    ensures
        forest(e), sized(e),
        forall|i: int| 0 <= i < d.len() ==> vx_root(d, i) == #[trigger] vx_root(e, i),
        vx_root(e, d.len() as int) == d.len(),
{
    let n = d.len() as int;
    assert forall|j: int| 0 <= j < e.len() implies #[trigger] e[j].parent < e.len() && (e[j].parent != j ==> e[j].rank < e[e[j].parent as int].rank) by {
        if j < n { assert(e[j] == d[j]); assert(d[j].parent < d.len()); let p = d[j].parent as int; assert(e[p] == d[p]); }
    }
    assert forall|i: int| 0 <= i < d.len() implies vx_root(d, i) == #[trigger] vx_root(e, i) by { lemma_push_root(d, e, i); }
    assert forall|r: int| 0 <= r < e.len() && #[trigger] e[r].parent == r implies vx_tree(e, r).len() >= pow2(e[r].rank as nat) by {
        if r == n {
            assert(vx_tree(e, n).contains(n));
            vstd::set_lib::lemma_set_empty_equivalency_len(vx_tree(e, n));
            lemma2_to64();
        } else {
            assert(d[r] == e[r]);
            assert(vx_tree(d, r).subset_of(vx_tree(e, r))) by {
                assert forall|i: int| vx_tree(d, r).contains(i) implies vx_tree(e, r).contains(i) by { assert(vx_root(d, i) == vx_root(e, i)); }
            }
            vstd::set_lib::lemma_len_subset(vx_tree(d, r), vx_tree(e, r));
        }
    }
}
proof fn lemma_push_root(d: Seq<Data>, e: Seq<Data>, i: int)
    requires forest(d), forest(e), d.len() <= usize::MAX, 0 <= i < d.len(), e == d.push(Data { parent: d.len() as usize, rank: 0 }),
    ensures vx_root(d, i) == vx_root(e, i),
    decreases u32::MAX - d[i].rank
{
    assert(e[i] == d[i]);
    if d[i].parent != i { lemma_push_root(d, e, d[i].parent as int); }
}

// D04: in a sized forest ranks, and with them all depths, are at most log2 of the size
pub proof fn lemma_rank_bound(d: Seq<Data>, r: int)
    requires forest(d), sized(d), 0 <= r < d.len(),
    ensures pow2(d[r].rank as nat) <= d.len(), d.len() <= usize::MAX ==> d[r].rank < 64,
{
    lemma_root(d, r);
    let s = vx_root(d, r);
    vstd::set_lib::lemma_int_range(0, d.len() as int);
    assert(vx_tree(d, s).subset_of(vstd::set_lib::set_int_range(0, d.len() as int)));
    vstd::set_lib::lemma_len_subset(vx_tree(d, s), vstd::set_lib::set_int_range(0, d.len() as int));
    if d[r].rank < d[s].rank { lemma_pow2_strictly_increases(d[r].rank as nat, d[s].rank as nat); }
    if d.len() <= usize::MAX && d[r].rank >= 64 {
        lemma2_to64();
        lemma2_to64_rest();
        if d[r].rank > 64 { lemma_pow2_strictly_increases(64, d[r].rank as nat); }
        assert(false);
    }
}
proof fn lemma_depth_le_rank(d: Seq<Data>, i: int)
    requires forest(d), 0 <= i < d.len(),
    ensures vx_depth(d, i) <= d[vx_root(d, i)].rank - d[i].rank,
    decreases u32::MAX - d[i].rank
{
    lemma_root(d, i);
    if d[i].parent != i { lemma_depth_le_rank(d, d[i].parent as int); }
}
// D04: depth is at most log2(n)
pub proof fn lemma_depth_log(d: Seq<Data>, i: int)
    requires forest(d), sized(d), 0 <= i < d.len(),
    ensures pow2(vx_depth(d, i)) <= d.len(),
{
    lemma_root(d, i);
    lemma_depth_le_rank(d, i);
    let r = vx_root(d, i);
    lemma_rank_bound(d, r);
    if vx_depth(d, i) < d[r].rank { lemma_pow2_strictly_increases(vx_depth(d, i), d[r].rank as nat); }
}

// D01,D04: union by rank: linking root b under root a
pub open spec fn vx_linked(d: Seq<Data>, a: int, b: int) -> Seq<Data> {
    d.update(b, Data { parent: a as usize, rank: d[b].rank }).update(a, Data { parent: d[a].parent, rank: if d[a].rank == d[b].rank { (d[a].rank + 1) as u32 } else { d[a].rank } })
}
// D01,D04: linking two roots
pub proof fn lemma_link(d: Seq<Data>, a: int, b: int, e: Seq<Data>)
    requires
        forest(d), sized(d), 0 <= a < d.len() <= usize::MAX, 0 <= b < d.len(), a != b, d[a].parent == a, d[b].parent == b, d[a].rank >= d[b].rank,
        e == vx_linked(d, a, b),
    ensures
        forest(e), sized(e),
        forall|i: int| 0 <= i < d.len() ==> #[trigger] vx_root(e, i) == (if vx_root(d, i) == b { a } else { vx_root(d, i) }),
{
    lemma_rank_bound(d, a);
    assert forall|j: int| 0 <= j < e.len() implies #[trigger] e[j].parent < e.len() && (e[j].parent != j ==> e[j].rank < e[e[j].parent as int].rank) by {
        assert(d[j].parent < d.len());
        let p = d[j].parent as int;
        assert(d[p].rank <= e[p].rank);
    }
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] vx_root(e, i) == (if vx_root(d, i) == b { a } else { vx_root(d, i) }) by { lemma_link_root(d, a, b, e, i); }
    assert forall|r: int| 0 <= r < e.len() && #[trigger] e[r].parent == r implies vx_tree(e, r).len() >= pow2(e[r].rank as nat) by {
        assert(r != b);
        lemma_roots(d);
        if r == a {
            let ta = vx_tree(d, a);
            let tb = vx_tree(d, b);
            assert(ta.disjoint(tb));
            assert(vx_tree(e, a) =~= ta.union(tb));
            vstd::set_lib::lemma_set_disjoint_lens(ta, tb);
            assert(d[a].parent == a && d[b].parent == b);
            if d[a].rank == d[b].rank { lemma_pow2_unfold((d[a].rank + 1) as nat); }
        } else {
            assert(d[r].parent == r);
            assert(vx_tree(e, r) =~= vx_tree(d, r));
        }
    }
}
proof fn lemma_link_root(d: Seq<Data>, a: int, b: int, e: Seq<Data>, i: int)
    requires
        forest(d), forest(e), 0 <= a < d.len() <= usize::MAX, 0 <= b < d.len(), a != b, d[a].parent == a, d[b].parent == b, 0 <= i < d.len(),
        e == vx_linked(d, a, b),
    ensures vx_root(e, i) == (if vx_root(d, i) == b { a } else { vx_root(d, i) }),
    decreases u32::MAX - d[i].rank
{
    lemma_root(d, i);
    assert(vx_root(e, a) == a);
    if i == b { assert(vx_root(e, b) == vx_root(e, e[b].parent as int)); }
    else if i != a && d[i].parent != i { lemma_link_root(d, a, b, e, d[i].parent as int); assert(e[i] == d[i]); }
}

// ---- the abstract value of a collection: its elements and which of them are together

impl<T: Eq + Hash, S: BuildHasher> DisjointSet<T, S> {
    pub open spec fn inv(&self) -> bool {
        &&& self.ids@.len() == self.data_by_id@.len()
        &&& self.data_by_id@.len() <= usize::MAX
        &&& forall|x: T| self.ids@.contains_key(x) ==> (#[trigger] self.ids@[x]) < self.data_by_id@.len()
        &&& forest(self.data_by_id@)
        &&& sized(self.data_by_id@)
    }
    pub open spec fn has(&self, x: T) -> bool { self.ids@.contains_key(x) }
    pub open spec fn rep(&self, x: T) -> int { vx_root(self.data_by_id@, self.ids@[x] as int) }
    pub open spec fn same(&self, x: T, y: T) -> bool { self.has(x) && self.has(y) && self.rep(x) == self.rep(y) }
    pub open spec fn count(&self) -> nat { self.ids@.dom().len() }
    pub open spec fn is_new(&self) -> bool { self.inv() && self.ids@ == Map::<T, usize>::empty() && self.data_by_id@.len() == 0 }
    // same elements, same grouping
    pub open spec fn unchanged(&self, o: &Self) -> bool {
        &&& forall|x: T| #[trigger] self.has(x) == o.has(x)
        &&& forall|x: T, y: T| #[trigger] self.same(x, y) == o.same(x, y)
        &&& self.count() == o.count()
    }
    // o, with x added as a subset of its own if it was missing
    pub open spec fn made(&self, o: &Self, v: T) -> bool {
        &&& forall|x: T| #[trigger] self.has(x) == (o.has(x) || x == v)
        &&& forall|x: T, y: T| #[trigger] self.same(x, y) == (o.same(x, y) || x == v && y == v)
        &&& self.count() == o.count() + (if o.has(v) { 0int } else { 1 })
    }
    pub open spec fn made_all(&self, o: &Self, s: Seq<T>) -> bool {
        &&& forall|x: T| #[trigger] self.has(x) == (o.has(x) || s.contains(x))
        &&& forall|x: T, y: T| #[trigger] self.same(x, y) == (o.same(x, y) || x == y && s.contains(x))
    }
    // the same, seen from a collection that was empty
    pub open spec fn made_of(&self, s: Seq<T>) -> bool {
        &&& forall|x: T| #[trigger] self.has(x) == s.contains(x)
        &&& forall|x: T, y: T| #[trigger] self.same(x, y) == (x == y && s.contains(x))
    }
}
// m lists every subset of o exactly once, under the id of its root, and in it every element exactly once
pub open spec fn partition<'a, T: Eq + Hash, S: BuildHasher>(m: Map<usize, Vec<&'a T>>, o: &DisjointSet<T, S>) -> bool {
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> m[k]@.len() > 0
    &&& forall|k: usize, i: int| m.contains_key(k) && 0 <= i < m[k]@.len() ==> o.has(*(#[trigger] m[k]@[i])) && o.rep(*m[k]@[i]) == k
    &&& forall|k: usize, i: int, j: int| m.contains_key(k) && 0 <= i < j < m[k]@.len() ==> *(#[trigger] m[k]@[i]) != *(#[trigger] m[k]@[j])
    &&& forall|x: T| #[trigger] o.has(x) ==> m.contains_key(o.rep(x) as usize) && m[o.rep(x) as usize]@.contains(&x)
}
// the entries seen so far are in the map, and nothing else is
pub open spec fn collected<'a, T: Eq + Hash>(m: Map<usize, Vec<&'a T>>, d: Seq<Data>, s: Seq<(&'a T, &'a usize)>, n: int) -> bool {
    &&& forall|k: usize| #[trigger] m.contains_key(k) ==> m[k]@.len() > 0
    &&& forall|k: usize, i: int| m.contains_key(k) && 0 <= i < m[k]@.len() ==> exists|q: int| 0 <= q < n && (#[trigger] s[q]).0 == (#[trigger] m[k]@[i]) && vx_root(d, *s[q].1 as int) == k
    &&& forall|k: usize, i: int, j: int| m.contains_key(k) && 0 <= i < j < m[k]@.len() ==> (#[trigger] m[k]@[i]) != (#[trigger] m[k]@[j])
    &&& forall|q: int| 0 <= q < n ==> { let k = vx_root(d, *(#[trigger] s[q]).1 as int) as usize; m.contains_key(k) && m[k]@.contains(s[q].0) }
}
pub open spec fn lists_iter<'a, T>(s: Seq<(&'a T, &'a usize)>, m: Map<T, usize>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|x: T| #[trigger] m.contains_key(x) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == x
}
// what vstd says of HashMap::iter
pub open spec fn iter_facts<'a, T>(s: Seq<(&'a T, &'a usize)>, m: Map<T, usize>) -> bool {
    &&& forall|i: int| #![trigger m.contains_key(*s[i].0)] #![trigger m[*s[i].0]] 0 <= i < s.len() ==> m.contains_key(*s[i].0) && m[*s[i].0] == *s[i].1
    &&& s.no_duplicates()
    &&& forall|x: T| #[trigger] m.contains_key(x) ==> s.contains((&x, &m[x]))
}
pub broadcast proof fn lemma_lists_iter<'a, T>(s: Seq<(&'a T, &'a usize)>, m: Map<T, usize>)
    requires iter_facts(s, m),
    ensures #[trigger] lists_iter(s, m),
{
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1 by { assert(m.contains_key(*s[i].0)); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by {
        if s[i].0 == s[j].0 { assert(m[*s[i].0] == m[*s[j].0]); assert(*s[i].1 == *s[j].1); assert(s[i] == s[j]); }
    }
    assert forall|x: T| #[trigger] m.contains_key(x) implies exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == x by {
        assert(s.contains((&x, &m[x])));
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (&x, &m[x]);
        assert(*s[i].0 == x);
    }
}
// D03: one more entry collected
pub proof fn lemma_collect<'a, T: Eq + Hash>(m: Map<usize, Vec<&'a T>>, f: Map<usize, Vec<&'a T>>, d: Seq<Data>, s: Seq<(&'a T, &'a usize)>, n: int, r: usize, v: Vec<&'a T>)
    requires
        forest(d), 0 <= n < s.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]).1 < d.len(), d.len() <= usize::MAX,
        collected(m, d, s, n), r == vx_root(d, *s[n].1 as int),
        v@ == (if m.contains_key(r) { m[r]@ } else { Seq::empty() }).push(s[n].0), f == m.insert(r, v),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0,
    ensures collected(f, d, s, n + 1),
{
    assert forall|k: usize, i: int| f.contains_key(k) && 0 <= i < f[k]@.len() implies exists|q: int| 0 <= q < n + 1 && (#[trigger] s[q]).0 == (#[trigger] f[k]@[i]) && vx_root(d, *s[q].1 as int) == k by {
        if k == r && i == v@.len() - 1 { assert(s[n].0 == f[k]@[i]); }
        else {
            assert(m.contains_key(k) && m[k]@[i] == f[k]@[i]);
            let q = choose|q: int| 0 <= q < n && (#[trigger] s[q]).0 == m[k]@[i] && vx_root(d, *s[q].1 as int) == k;
            assert(s[q].0 == f[k]@[i]);
        }
    }
    assert forall|k: usize, i: int, j: int| f.contains_key(k) && 0 <= i < j < f[k]@.len() implies (#[trigger] f[k]@[i]) != (#[trigger] f[k]@[j]) by {
        if k == r && j == v@.len() - 1 {
            assert(m.contains_key(k) && m[k]@[i] == f[k]@[i]);
            let q = choose|q: int| 0 <= q < n && (#[trigger] s[q]).0 == m[k]@[i] && vx_root(d, *s[q].1 as int) == k;
            assert(s[q].0 != s[n].0);
        } else { assert(m.contains_key(k) && m[k]@[i] == f[k]@[i] && m[k]@[j] == f[k]@[j]); }
    }
    assert forall|q: int| 0 <= q < n + 1 implies { let k = vx_root(d, *(#[trigger] s[q]).1 as int) as usize; f.contains_key(k) && f[k]@.contains(s[q].0) } by {
        lemma_root(d, *s[q].1 as int);
        let k = vx_root(d, *s[q].1 as int) as usize;
        if q == n { assert(v@[v@.len() - 1] == s[n].0); }
        else if k == r { let i = choose|i: int| 0 <= i < m[k]@.len() && m[k]@[i] == s[q].0; assert(v@[i] == s[q].0); }
    }
}
// D03: the collected map is the partition
pub proof fn lemma_partition<'a, T: Eq + Hash, S: BuildHasher>(m: Map<usize, Vec<&'a T>>, o: &DisjointSet<T, S>, s: Seq<(&'a T, &'a usize)>)
    requires o.inv(), lists_iter(s, o.ids@), collected(m, o.data_by_id@, s, s.len() as int),
    ensures partition(m, o),
{
    let d = o.data_by_id@;
    assert forall|k: usize, i: int| m.contains_key(k) && 0 <= i < m[k]@.len() implies o.has(*(#[trigger] m[k]@[i])) && o.rep(*m[k]@[i]) == k by {
        let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).0 == m[k]@[i] && vx_root(d, *s[q].1 as int) == k;
        assert(o.ids@.contains_key(*s[q].0));
    }
    assert forall|x: T| #[trigger] o.has(x) implies m.contains_key(o.rep(x) as usize) && m[o.rep(x) as usize]@.contains(&x) by {
        let q = choose|q: int| 0 <= q < s.len() && *(#[trigger] s[q]).0 == x;
        assert(o.ids@[*s[q].0] == *s[q].1);
    }
}
pub open spec fn after_union<T>(same: spec_fn(T, T) -> bool, a: T, b: T, x: T, y: T) -> bool {
    let s = |u: T, v: T| same(u, v) || u == v && (u == a || u == b);
    s(x, y) || s(x, a) && s(b, y) || s(x, b) && s(a, y)
}

// D01,D02: the two insertions of a union
pub open spec fn two_made<T: Eq + Hash, S: BuildHasher>(o: &DisjointSet<T, S>, m: &DisjointSet<T, S>, a: T, b: T) -> bool {
    &&& m.inv() && m.has(a) && m.has(b)
    &&& forall|x: T| #[trigger] m.has(x) == (o.has(x) || x == a || x == b)
    &&& forall|x: T, y: T| #[trigger] m.same(x, y) == (o.same(x, y) || x == y && (x == a || x == b))
    &&& m.count() == o.count() + (if o.has(a) { 0int } else { 1 }) + (if o.has(b) || a == b { 0int } else { 1 })
}
// D01,D02: two insertions
pub proof fn lemma_two_made<T: Eq + Hash, S: BuildHasher>(o: &DisjointSet<T, S>, m1: &DisjointSet<T, S>, m: &DisjointSet<T, S>, a: T, b: T)
    requires m1.made(o, a), m.made(m1, b), m.inv(),
    ensures two_made(o, m, a, b),
{
    assert(m1.has(a) && m.has(a) && m.has(b) && m1.has(b) == (o.has(b) || a == b));
    assert forall|x: T| #[trigger] m.has(x) == (o.has(x) || x == a || x == b) by { assert(m1.has(x) == (o.has(x) || x == a)); }
    assert forall|x: T, y: T| #[trigger] m.same(x, y) == (o.same(x, y) || x == y && (x == a || x == b)) by { assert(m1.same(x, y) == (o.same(x, y) || x == a && y == a)); }
}
// the two were together already
pub proof fn lemma_union_same<T: Eq + Hash, S: BuildHasher>(o: &DisjointSet<T, S>, m: &DisjointSet<T, S>, f: &DisjointSet<T, S>, a: T, b: T)
    requires two_made(o, m, a, b), m.rep(a) == m.rep(b), f.ids@ == m.ids@, same_roots(m.data_by_id@, f.data_by_id@),
    ensures
        f.inv(), f.count() == m.count(),
        forall|x: T| #[trigger] f.has(x) == (o.has(x) || x == a || x == b),
        forall|x: T, y: T| #[trigger] f.same(x, y) == after_union(|u: T, v: T| o.same(u, v), a, b, x, y),
{
    lemma_same_roots_sized(m.data_by_id@, f.data_by_id@);
    assert forall|x: T| #[trigger] f.has(x) == (o.has(x) || x == a || x == b) by { assert(m.has(x) == (o.has(x) || x == a || x == b)); }
    assert forall|x: T, y: T| #[trigger] f.same(x, y) == after_union(|u: T, v: T| o.same(u, v), a, b, x, y) by {
        lemma_same_transfer(m, f, x, y);
        lemma_mid(o, m, a, b, x, y);
    }
}
proof fn lemma_same_transfer<T: Eq + Hash, S: BuildHasher>(m: &DisjointSet<T, S>, f: &DisjointSet<T, S>, x: T, y: T)
    requires m.inv(), f.ids@ == m.ids@, same_roots(m.data_by_id@, f.data_by_id@),
    ensures f.has(x) == m.has(x), f.same(x, y) == m.same(x, y), f.has(x) ==> f.rep(x) == m.rep(x),
{
    let (d, e) = (m.data_by_id@, f.data_by_id@);
    if m.has(x) { let i = m.ids@[x] as int; assert(vx_root(d, i) == vx_root(e, i)); }
    if m.has(y) { let i = m.ids@[y] as int; assert(vx_root(d, i) == vx_root(e, i)); }
}
// after_union, stated over the collection after the two insertions
proof fn lemma_mid<T: Eq + Hash, S: BuildHasher>(o: &DisjointSet<T, S>, m: &DisjointSet<T, S>, a: T, b: T, x: T, y: T)
    requires two_made(o, m, a, b),
    ensures after_union(|u: T, v: T| o.same(u, v), a, b, x, y) == (m.same(x, y) || m.same(x, a) && m.same(b, y) || m.same(x, b) && m.same(a, y)),
{
    assert(m.same(x, y) == (o.same(x, y) || x == y && (x == a || x == b)));
    assert(m.same(x, a) == (o.same(x, a) || x == a && (x == a || x == b)));
    assert(m.same(b, y) == (o.same(b, y) || b == y && (b == a || b == b)));
    assert(m.same(x, b) == (o.same(x, b) || x == b && (x == a || x == b)));
    assert(m.same(a, y) == (o.same(a, y) || a == y && (a == a || a == b)));
}
// two trees were linked
pub proof fn lemma_union_link<T: Eq + Hash, S: BuildHasher>(o: &DisjointSet<T, S>, m: &DisjointSet<T, S>, d: Seq<Data>, f: &DisjointSet<T, S>, a: T, b: T, p: int, q: int)
    requires
        two_made(o, m, a, b), same_roots(m.data_by_id@, d), f.ids@ == m.ids@,
        m.rep(a) == p && m.rep(b) == q || m.rep(a) == q && m.rep(b) == p, p != q,
        d[p].rank >= d[q].rank, f.data_by_id@ == vx_linked(d, p, q),
    ensures
        f.inv(), f.count() == m.count(),
        forall|x: T| #[trigger] f.has(x) == (o.has(x) || x == a || x == b),
        forall|x: T, y: T| #[trigger] f.same(x, y) == after_union(|u: T, v: T| o.same(u, v), a, b, x, y),
{
    let e = f.data_by_id@;
    lemma_same_roots_sized(m.data_by_id@, d);
    lemma_roots(m.data_by_id@);
    lemma_roots(d);
    assert(vx_root(d, p) == p && vx_root(d, q) == q);
    lemma_link(d, p, q, e);
    assert forall|x: T| #[trigger] f.has(x) == (o.has(x) || x == a || x == b) by { assert(m.has(x) == (o.has(x) || x == a || x == b)); }
    assert forall|x: T, y: T| #[trigger] f.same(x, y) == after_union(|u: T, v: T| o.same(u, v), a, b, x, y) by {
        lemma_mid(o, m, a, b, x, y);
        if m.has(x) { let i = m.ids@[x] as int; assert(vx_root(m.data_by_id@, i) == vx_root(d, i)); assert(vx_root(e, i) == (if vx_root(d, i) == q { p } else { vx_root(d, i) })); }
        if m.has(y) { let i = m.ids@[y] as int; assert(vx_root(m.data_by_id@, i) == vx_root(d, i)); assert(vx_root(e, i) == (if vx_root(d, i) == q { p } else { vx_root(d, i) })); }
        assert(f.has(x) == m.has(x) && f.has(y) == m.has(y));
    }
}

// D01,D02: one more item of an iterator
pub proof fn lemma_made_step<T: Eq + Hash, S: BuildHasher>(o: &DisjointSet<T, S>, m: &DisjointSet<T, S>, f: &DisjointSet<T, S>, s: Seq<T>, i: int)
    requires 0 <= i < s.len(), m.made_all(o, s.take(i)), f.made(m, s[i]),
    ensures f.made_all(o, s.take(i + 1)),
{
    lemma_take_push(s, i);
    assert forall|x: T| #[trigger] f.has(x) == (o.has(x) || s.take(i + 1).contains(x)) by { assert(m.has(x) == (o.has(x) || s.take(i).contains(x))); }
    assert forall|x: T, y: T| #[trigger] f.same(x, y) == (o.same(x, y) || x == y && s.take(i + 1).contains(x)) by { assert(m.same(x, y) == (o.same(x, y) || x == y && s.take(i).contains(x))); }
}

// ---- histories: what the contracts of the single operations add up to

pub ghost enum Op<T> { Make(T), Union(T, T), Query, Extend(Seq<T>), Clear }
pub open spec fn union_has<T: Eq + Hash, S: BuildHasher>(f: &DisjointSet<T, S>, o: &DisjointSet<T, S>, a: T, b: T) -> bool {
    &&& forall|x: T| #[trigger] f.has(x) == (o.has(x) || x == a || x == b)
    &&& f.count() == o.count() + (if o.has(a) { 0int } else { 1 }) + (if o.has(b) || a == b { 0int } else { 1 })
}
pub open spec fn union_same<T: Eq + Hash, S: BuildHasher>(f: &DisjointSet<T, S>, o: &DisjointSet<T, S>, a: T, b: T) -> bool {
    forall|x: T, y: T| #[trigger] f.same(x, y) == after_union(|u: T, v: T| o.same(u, v), a, b, x, y)
}
// one operation, as its contract describes it
pub open spec fn step<T: Eq + Hash, S: BuildHasher>(o: &DisjointSet<T, S>, f: &DisjointSet<T, S>, op: Op<T>) -> bool {
    match op {
        Op::Make(v) => f.made(o, v),
        Op::Union(a, b) => union_has(f, o, a, b) && union_same(f, o, a, b),
        Op::Query => f.unchanged(o),
        Op::Extend(s) => f.made_all(o, s),
        Op::Clear => f.is_new(),
    }
}
// the unions performed, and the elements named, since the last clear
pub open spec fn unions<T>(ops: Seq<Op<T>>) -> Seq<(T, T)>
    decreases ops.len()
{
    if ops.len() == 0 { Seq::empty() } else { match ops.last() {
        Op::Union(a, b) => unions(ops.drop_last()).push((a, b)),
        Op::Clear => Seq::empty(),
        _ => unions(ops.drop_last()),
    } }
}
pub open spec fn named<T>(ops: Seq<Op<T>>, x: T) -> bool
    decreases ops.len()
{
    ops.len() > 0 && match ops.last() {
        Op::Make(v) => x == v || named(ops.drop_last(), x),
        Op::Union(a, b) => x == a || x == b || named(ops.drop_last(), x),
        Op::Extend(s) => s.contains(x) || named(ops.drop_last(), x),
        Op::Query => named(ops.drop_last(), x),
        Op::Clear => false,
    }
}
// x and y were joined by one of the unions / by a chain of them
pub open spec fn joined<T>(h: Seq<(T, T)>, x: T, y: T) -> bool { h.contains((x, y)) || h.contains((y, x)) }
pub open spec fn path<T>(h: Seq<(T, T)>, p: Seq<T>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> joined(h, #[trigger] p[i], p[i + 1]) }
pub open spec fn path_of<T>(h: Seq<(T, T)>, p: Seq<T>, x: T, y: T) -> bool { p.len() > 0 && p[0] == x && p.last() == y && path(h, p) }
pub open spec fn chain<T>(h: Seq<(T, T)>, x: T, y: T) -> bool { exists|p: Seq<T>| #[trigger] path_of(h, p, x, y) }

pub proof fn lemma_chain<T>(h: Seq<(T, T)>)
    ensures
        forall|x: T| #[trigger] chain(h, x, x),
        forall|x: T, y: T| #[trigger] chain(h, x, y) ==> chain(h, y, x),
        forall|x: T, y: T, z: T| #[trigger] chain(h, x, y) && #[trigger] chain(h, y, z) ==> chain(h, x, z),
        forall|x: T, y: T| #[trigger] joined(h, x, y) ==> chain(h, x, y),
{
    assert forall|x: T| #[trigger] chain(h, x, x) by { assert(path_of(h, seq![x], x, x)); }
    assert forall|x: T, y: T| #[trigger] chain(h, x, y) implies chain(h, y, x) by {
        let p = choose|p: Seq<T>| path_of(h, p, x, y);
        let q = p.reverse();
        assert forall|i: int| 0 <= i < q.len() - 1 implies joined(h, #[trigger] q[i], q[i + 1]) by { assert(joined(h, p[p.len() - 2 - i], p[p.len() - 2 - i + 1])); }
        assert(path_of(h, q, y, x));
    }
    assert forall|x: T, y: T, z: T| #[trigger] chain(h, x, y) && #[trigger] chain(h, y, z) implies chain(h, x, z) by {
        let p = choose|p: Seq<T>| path_of(h, p, x, y);
        let q = choose|q: Seq<T>| path_of(h, q, y, z);
        let r = p + q.drop_first();
        assert forall|i: int| 0 <= i < r.len() - 1 implies joined(h, #[trigger] r[i], r[i + 1]) by {
            if i < p.len() - 1 { assert(joined(h, p[i], p[i + 1])); }
            else { let j = i - (p.len() - 1); assert(joined(h, q[j], q[j + 1])); }
        }
        assert(r.last() == z) by { if q.len() == 1 { assert(r =~= p); } }
        assert(path_of(h, r, x, z));
    }
    assert forall|x: T, y: T| #[trigger] joined(h, x, y) implies chain(h, x, y) by {
        let p = seq![x, y];
        assert(path_of(h, p, x, y));
    }
}
pub proof fn lemma_chain_more<T>(h: Seq<(T, T)>, a: T, b: T)
    ensures
        forall|x: T, y: T| #[trigger] chain(h, x, y) ==> chain(h.push((a, b)), x, y),
        forall|x: T, y: T| #[trigger] joined(h.push((a, b)), x, y) == (joined(h, x, y) || x == a && y == b || x == b && y == a),
{
    let g = h.push((a, b));
    assert forall|u: (T, T)| #[trigger] g.contains(u) == (h.contains(u) || u == (a, b)) by {
        if h.contains(u) { let i = choose|i: int| 0 <= i < h.len() && h[i] == u; assert(g[i] == u); }
        assert(g[h.len() as int] == (a, b));
    }
    assert forall|x: T, y: T| #[trigger] chain(h, x, y) implies chain(g, x, y) by {
        let p = choose|p: Seq<T>| path_of(h, p, x, y);
        assert(path_of(g, p, x, y));
    }
}
// the relation kept by a collection is "both there, and linked by a chain"
pub open spec fn tracks<T: Eq + Hash, S: BuildHasher>(m: &DisjointSet<T, S>, h: Seq<(T, T)>) -> bool {
    &&& forall|x: T, y: T| #[trigger] m.same(x, y) == (m.has(x) && m.has(y) && chain(h, x, y))
    &&& forall|x: T, y: T| #[trigger] joined(h, x, y) ==> m.has(x) && m.has(y)
}
proof fn lemma_chain_outside<T: Eq + Hash, S: BuildHasher>(m: &DisjointSet<T, S>, h: Seq<(T, T)>, x: T, y: T)
    requires tracks(m, h), chain(h, x, y), !m.has(x) || !m.has(y),
    ensures x == y,
{
    let p = choose|p: Seq<T>| path_of(h, p, x, y);
    if p.len() > 1 { assert(joined(h, p[0], p[1])); assert(joined(h, p[p.len() - 2], p[p.len() - 2 + 1])); }
}
proof fn lemma_track_grow<T: Eq + Hash, S: BuildHasher>(o: &DisjointSet<T, S>, f: &DisjointSet<T, S>, h: Seq<(T, T)>, w: spec_fn(T) -> bool)
    requires
        tracks(o, h),
        forall|x: T| #[trigger] f.has(x) == (o.has(x) || w(x)),
        forall|x: T, y: T| #[trigger] f.same(x, y) == (o.same(x, y) || x == y && w(x)),
    ensures tracks(f, h),
{
    lemma_chain(h);
    assert forall|x: T, y: T| #[trigger] f.same(x, y) == (f.has(x) && f.has(y) && chain(h, x, y)) by {
        assert(o.same(x, y) == (o.has(x) && o.has(y) && chain(h, x, y)));
        if chain(h, x, y) && (!o.has(x) || !o.has(y)) { lemma_chain_outside(o, h, x, y); }
    }
}
proof fn lemma_track_union<T: Eq + Hash, S: BuildHasher>(o: &DisjointSet<T, S>, f: &DisjointSet<T, S>, h: Seq<(T, T)>, a: T, b: T)
    requires tracks(o, h), union_has(f, o, a, b), union_same(f, o, a, b),
    ensures tracks(f, h.push((a, b))),
{
    let g = h.push((a, b));
    lemma_chain(h); lemma_chain(g); lemma_chain_more(h, a, b);
    let s = |u: T, v: T| o.same(u, v);
    let t = |u: T, v: T| o.same(u, v) || u == v && (u == a || u == b);
    assert forall|u: T, v: T| #[trigger] t(u, v) implies chain(g, u, v) by { assert(o.same(u, v) ==> chain(h, u, v)); }
    assert forall|u: T, v: T| o.has(u) && o.has(v) && chain(h, u, v) implies #[trigger] t(u, v) by { assert(o.same(u, v)); }
    assert(joined(g, a, b));
    assert forall|x: T, y: T| #[trigger] f.same(x, y) == (f.has(x) && f.has(y) && chain(g, x, y)) by {
        if f.same(x, y) {
            assert(o.same(x, y) == (o.has(x) && o.has(y) && chain(h, x, y)));
            assert(o.same(x, a) == (o.has(x) && o.has(a) && chain(h, x, a)));
            assert(o.same(x, b) == (o.has(x) && o.has(b) && chain(h, x, b)));
            assert(o.same(a, y) == (o.has(a) && o.has(y) && chain(h, a, y)));
            assert(o.same(b, y) == (o.has(b) && o.has(y) && chain(h, b, y)));
        }
        if f.has(x) && f.has(y) && chain(g, x, y) {
            let p = choose|p: Seq<T>| path_of(g, p, x, y);
            lemma_walk(o, f, h, a, b, p, p.len() - 1);
        }
    }
}
// following a path of the longer history, one is always together with where one started
proof fn lemma_walk<T: Eq + Hash, S: BuildHasher>(o: &DisjointSet<T, S>, f: &DisjointSet<T, S>, h: Seq<(T, T)>, a: T, b: T, p: Seq<T>, i: int)
    requires tracks(o, h), union_has(f, o, a, b), union_same(f, o, a, b), p.len() > 0, path(h.push((a, b)), p), 0 <= i < p.len(), f.has(p[0]),
    ensures f.same(p[0], p[i]),
    decreases i
{
    lemma_chain(h); lemma_chain_more(h, a, b);
    let x = p[0];
    let y = p[i];
    assert(o.same(x, x) == (o.has(x) && chain(h, x, x)));
    assert(o.same(a, a) == (o.has(a) && chain(h, a, a)));
    assert(o.same(b, b) == (o.has(b) && chain(h, b, b)));
    if i == 0 {
        assert(f.same(x, x));
    } else {
        lemma_walk(o, f, h, a, b, p, i - 1);
        let z = p[i - 1];
        assert(joined(h.push((a, b)), p[i - 1], p[i - 1 + 1]));
        assert(joined(h, z, y) || z == a && y == b || z == b && y == a);
        assert(forall|u: T| #![trigger o.same(u, z)] #![trigger o.same(u, y)] joined(h, z, y) ==> o.same(u, z) == o.same(u, y)) by {
            assert forall|u: T| #![trigger o.same(u, z)] #![trigger o.same(u, y)] joined(h, z, y) implies o.same(u, z) == o.same(u, y) by {
                assert(chain(h, z, y) && chain(h, y, z));
                assert(o.same(u, z) == (o.has(u) && o.has(z) && chain(h, u, z)));
                assert(o.same(u, y) == (o.has(u) && o.has(y) && chain(h, u, y)));
                if chain(h, u, z) { assert(chain(h, u, y)); }
                if chain(h, u, y) { assert(chain(h, u, z)); }
            }
        }
        assert(f.same(x, y) == after_union(|u: T, v: T| o.same(u, v), a, b, x, y));
        assert(f.same(x, z) == after_union(|u: T, v: T| o.same(u, v), a, b, x, z));
    }
}
// D01,D02: after any history two elements are together exactly when both were named and a chain of the unions links them
pub proof fn lemma_history<T: Eq + Hash, S: BuildHasher>(st: Seq<DisjointSet<T, S>>, ops: Seq<Op<T>>)
    requires st.len() == ops.len() + 1, st[0].is_new(), forall|i: int| 0 <= i < ops.len() ==> #[trigger] step(&st[i], &st[i + 1], ops[i]),
    ensures
        tracks(&st.last(), unions(ops)),
        forall|x: T| #[trigger] st.last().has(x) == named(ops, x),
        forall|x: T, y: T| #[trigger] st.last().same(x, y) == (named(ops, x) && named(ops, y) && chain(unions(ops), x, y)),
    decreases ops.len()
{
    let f = st.last();
    if ops.len() == 0 {
        lemma_track_new(&f);
    } else {
        let o = st[ops.len() - 1];
        let st1 = st.drop_last();
        let ops1 = ops.drop_last();
        assert forall|i: int| 0 <= i < ops1.len() implies #[trigger] step(&st1[i], &st1[i + 1], ops1[i]) by { assert(step(&st[i], &st[i + 1], ops[i])); }
        lemma_history(st1, ops1);
        assert(st1.last() == o);
        assert(step(&st[ops.len() - 1], &st[ops.len() - 1 + 1], ops[ops.len() - 1]));
        let h = unions(ops1);
        assert forall|x: T| named(ops1, x) == #[trigger] o.has(x) by {}
        match ops.last() {
            Op::Make(v) => { lemma_track_grow(&o, &f, h, |x: T| x == v); }
            Op::Union(a, b) => { lemma_track_union(&o, &f, h, a, b); }
            Op::Query => { lemma_track_grow(&o, &f, h, |x: T| false); }
            Op::Extend(s) => { lemma_track_grow(&o, &f, h, |x: T| s.contains(x)); }
            Op::Clear => { lemma_track_new(&f); }
        }
        assert forall|x: T| #[trigger] f.has(x) == named(ops, x) by { assert(o.has(x) == named(ops1, x)); }
    }
}
proof fn lemma_track_new<T: Eq + Hash, S: BuildHasher>(f: &DisjointSet<T, S>)
    requires f.is_new(),
    ensures tracks(f, Seq::<(T, T)>::empty()), forall|x: T| !#[trigger] f.has(x),
{
}

impl<'a, T: Eq + Hash> vstd::std_specs::iter::IteratorSpecImpl for SetIter<'a, T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    #[verifier::prophetic]
    uninterp spec fn remaining(&self) -> Seq<Self::Item>;
    #[verifier::prophetic]
    uninterp spec fn will_return_none(&self) -> bool;
    uninterp spec fn decrease(&self) -> Option<nat>;
    uninterp spec fn peek(&self, index: int) -> Option<Self::Item>;
}

@type DisjointSet #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(S)]
@type SetIter #[verifier::reject_recursive_types(T)]
@method size_hint crate::vx::size_hint ref 0
@method map crate::vx::iter_map val 1

@fn Data::new
@ens D01,D02,D03,D04: $r.parent == $0 && $r.rank == 0

@fn DisjointSet::find_with_path_compression
@req : forest(old($0)@) && $1 < old($0)@.len()
@ens D01,D03: $r == vx_root(old($0)@, $1 as int)
@ens D01,D02,D03,D04: same_roots(old($0)@, final($0)@)
@dec vx_depth(old($0)@, $1 as int)
@entry proof { lemma_root($0@, $1 as int); }
@after find_with_path_compression#0
proof {
    lemma_root($0@, $1 as int);
    lemma_compress($0@, $1 as int, $0@.update($1 as int, Data { parent: vx_root($0@, $1 as int) as usize, rank: $0@[$1 as int].rank }));
}

@fn DisjointSet::make_or_get_set
@req : keys_ok::<T, S>() && old(self).inv()
@ens D01,D02,D04: final(self).inv()
@ens D01,D02: final(self).made(old(self), $0)
@ens D01: final(self).has($0) && final(self).ids@[$0] == $r
@ens D01: forall|x: T| old(self).has(x) ==> #[trigger] final(self).ids@[x] == old(self).ids@[x]
@post proof {
    lemma_roots(old(self).data_by_id@);
    if !old(self).has($0) { lemma_push(old(self).data_by_id@, self.data_by_id@); }
    assert forall|x: T| #[trigger] self.has(x) == (old(self).has(x) || x == $0) by {}
    assert forall|x: T| #[trigger] self.ids@.contains_key(x) implies self.ids@[x] < self.data_by_id@.len() && (old(self).has(x) ==> self.rep(x) == old(self).rep(x)) by {}
    assert(self.data_by_id.len() <= usize::MAX);
}

@fn DisjointSet::new
@req : keys_ok::<T, S>()
@ens D01,D02,D04: $r.is_new()

@fn <DisjointSet as Default>::default
@ens D01,D02,D04: keys_ok::<T, S>() ==> $r.is_new()

@fn DisjointSet::with_capacity
@req : keys_ok::<T, S>()
@ens D01,D02,D04: $r.is_new()

@fn DisjointSet::with_hasher
@req : keys_ok::<T, S>()
@ens D01,D02,D04: $r.is_new()

@fn DisjointSet::with_capacity_and_hasher
@req : keys_ok::<T, S>()
@ens D01,D02,D04: $r.is_new()

@fn DisjointSet::make_set
@req : keys_ok::<T, S>() && old(self).inv()
@ens D01,D02,D04: final(self).inv()
@ens D01,D02: final(self).made(old(self), $0)

@fn DisjointSet::union
@req : keys_ok::<T, S>() && old(self).inv()
@ens D01,D04: final(self).inv()
@ens D02: union_has(final(self), old(self), $0, $1)
@ens D01: union_same(final(self), old(self), $0, $1)
@entry let ghost vx_a = $0; let ghost vx_b = $1;
@after make_or_get_set#0
let ghost vx_m1 = *self;
@after make_or_get_set#1
let ghost vx_m = *self;
proof { lemma_two_made(old(self), &vx_m1, &vx_m, vx_a, vx_b); }
@after find_with_path_compression#1
let ghost vx_d = self.data_by_id@;
let ghost vx_ra = %2 as int;
let ghost vx_rb = %3 as int;
proof { lemma_roots(vx_d); lemma_roots(vx_m.data_by_id@); lemma_roots(old(self).data_by_id@); lemma_same_roots_sized(vx_m.data_by_id@, vx_d); lemma_rank_bound(vx_d, vx_ra); lemma_rank_bound(vx_d, vx_rb);
    if vx_ra == vx_rb { lemma_union_same(old(self), &vx_m, self, vx_a, vx_b); }
}
@post proof {
    // the root that stays is the one of higher rank, either one of equals
    let (p, q) = if vx_d[vx_ra].rank == vx_d[vx_rb].rank && self.data_by_id@[vx_ra].parent == vx_ra || vx_d[vx_ra].rank > vx_d[vx_rb].rank { (vx_ra, vx_rb) } else { (vx_rb, vx_ra) };
    lemma_link(vx_d, p, q, vx_linked(vx_d, p, q));
    assert(self.data_by_id@ =~= vx_linked(vx_d, p, q));
    lemma_union_link(old(self), &vx_m, vx_d, self, vx_a, vx_b, p, q);
}

@fn DisjointSet::contains
@req : keys_ok::<T, S>()
@ens D02: $r == self.has(*$0)

@fn DisjointSet::in_union
@post proof { lemma_roots(old(self).data_by_id@); lemma_same_roots_sized(old(self).data_by_id@, self.data_by_id@); }
@req : keys_ok::<T, S>() && old(self).inv()
@ens D01,D03: $r == old(self).same(*$0, *$1)
@ens D01,D02,D04: final(self).inv()
@ens D01,D02: final(self).unchanged(old(self))

@fn DisjointSet::is_empty
@req : keys_ok::<T, S>()
@ens D02: $r == (self.count() == 0)

@fn DisjointSet::len
@req : keys_ok::<T, S>()
@ens D02: $r == self.count()

@fn DisjointSet::clear
@req : keys_ok::<T, S>() && old(self).inv()
@ens D01,D02,D04: final(self).is_new()

@fn DisjointSet::reserve
@req : keys_ok::<T, S>() && old(self).inv()
@ens D01,D02,D04: final(self).inv()
@ens D01,D02: final(self).unchanged(old(self))

@fn <DisjointSet as FromIterator<T>>::from_iter
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S>() && iter_ok::<I>()
@ens D01,D02,D04: $r.inv()
@ens D01,D02: exists|s: Seq<T>| #[trigger] yields($0, s) && $r.made_of(s)
@entry let ghost vx_i = $0;
@after into_iter#0
let ghost vx_s = %0.remaining();
proof { assert(yields(vx_i, vx_s)); }
@after with_capacity#0
let ghost vx_o = %1;
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : vx_it.seq() == vx_s
@inv : %1.inv() && %1.made_all(&vx_o, vx_s.take(vx_it.index@ as int))
@body let ghost vx_b = %1; proof { assert(%L0 == vx_s[vx_it.index@]); }
@loopafter proof { assert(vx_s.take(vx_s.len() as int) =~= vx_s); }
@bodyend proof { lemma_made_step(&vx_o, &vx_b, &%1, vx_s, vx_it.index@ as int); }


@fn <DisjointSet as FromIterator<&T>>::from_iter
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S>() && iter_ok::<I>() && clones::<T>()
@ens D01,D02,D04: $r.inv()
@ens D01,D02: exists|s: Seq<&'a T>| #[trigger] yields($0, s) && $r.made_of(s.unref())
@entry let ghost vx_i = $0;
@after into_iter#0
let ghost vx_s = %0.remaining();
proof { assert(yields(vx_i, vx_s)); }
@after with_capacity#0
let ghost vx_o = %1;
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : vx_it.seq().len() <= vx_s.len() && (forall|k: int| 0 <= k < vx_it.seq().len() ==> #[trigger] vx_it.seq()[k] == *vx_s[k])
@inv : vx_it.snapshot@.will_return_none() ==> vx_it.seq().len() == vx_s.len()
@inv : %1.inv() && %1.made_all(&vx_o, vx_s.unref().take(vx_it.index@ as int))
@body let ghost vx_b = %1; proof { assert(%L0 == vx_s.unref()[vx_it.index@]); }
@loopafter proof { assert(vx_s.unref().take(vx_s.len() as int) =~= vx_s.unref()); }
@bodyend proof { lemma_made_step(&vx_o, &vx_b, &%1, vx_s.unref(), vx_it.index@ as int); }
@closure 0 &'a T -> (vx_cr: T)
@req true
@ens call_ensures(T::clone, ($c0,), vx_cr)


@fn <DisjointSet as Extend<T>>::extend
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S>() && iter_ok::<I>() && old(self).inv()
@ens D01,D02,D04: final(self).inv()
@ens D01,D02: exists|s: Seq<T>| #[trigger] yields($0, s) && final(self).made_all(old(self), s)
@entry let ghost vx_i = $0; let ghost vx_o = *self;
@after into_iter#0
let ghost vx_s = %0.remaining();
proof { assert(yields(vx_i, vx_s)); }
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : vx_it.seq() == vx_s
@inv : self.inv() && self.made_all(&vx_o, vx_s.take(vx_it.index@ as int))
@body let ghost vx_b = *self; proof { assert(%L0 == vx_s[vx_it.index@]); }
@loopafter proof { assert(vx_s.take(vx_s.len() as int) =~= vx_s); }
@bodyend proof { lemma_made_step(&vx_o, &vx_b, self, vx_s, vx_it.index@ as int); }


@fn <DisjointSet as Extend<&T>>::extend
@rehome
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S>() && iter_ok::<I>() && clones::<T>() && old(self).inv()
@ens D01,D02,D04: final(self).inv()
@ens D01,D02: exists|s: Seq<&'a T>| #[trigger] yields($0, s) && final(self).made_all(old(self), s.unref())
@entry let ghost vx_i = $0; let ghost vx_o = *self;
@after into_iter#0
let ghost vx_s = %0.remaining();
proof { assert(yields(vx_i, vx_s)); }
@loop 0 vx_it
@inv : vx_it.iter.obeys_prophetic_iter_laws() && vx_it.iter.decrease() is Some
@inv : vx_it.seq().len() <= vx_s.len() && (forall|k: int| 0 <= k < vx_it.seq().len() ==> #[trigger] vx_it.seq()[k] == *vx_s[k])
@inv : vx_it.snapshot@.will_return_none() ==> vx_it.seq().len() == vx_s.len()
@inv : self.inv() && self.made_all(&vx_o, vx_s.unref().take(vx_it.index@ as int))
@body let ghost vx_b = *self; proof { assert(%L0 == vx_s.unref()[vx_it.index@]); }
@loopafter proof { assert(vx_s.unref().take(vx_s.len() as int) =~= vx_s.unref()); }
@bodyend proof { lemma_made_step(&vx_o, &vx_b, self, vx_s.unref(), vx_it.index@ as int); }
@closure 0 &'a T -> (vx_cr: T)
@req true
@ens call_ensures(T::clone, ($c0,), vx_cr)


@fn DisjointSet::build_sets
@attr #[verifier::loop_isolation(false)]
@req : keys_ok::<T, S>() && old(self).inv()
@ens D03: partition($r@, old(self))
@ens D01,D02,D04: final(self).inv()
@ens D01,D02,D03: final(self).unchanged(old(self))
@entry broadcast use lemma_lists_iter; let ghost vx_o = *self; proof { lemma_roots(self.data_by_id@); }
@loop 0 vx_it
@inv : lists_iter(vx_it.seq(), vx_o.ids@)
@inv : self.ids == vx_o.ids && same_roots(vx_o.data_by_id@, self.data_by_id@)
@inv : collected(%0@, vx_o.data_by_id@, vx_it.seq(), vx_it.index@ as int)
@body let ghost vx_m = %0@;
@bodyend proof {
    let vx_s = vx_it.seq();
    let vx_n = vx_it.index@ as int;
    let vx_r = vx_root(vx_o.data_by_id@, *vx_s[vx_n].1 as int) as usize;
    assert(vx_e0 == vx_s[vx_n]);
    assert(%0@ =~= vx_m.insert(vx_r, %0@[vx_r]));
    assert(%0@[vx_r]@ =~= (if vx_m.contains_key(vx_r) { vx_m[vx_r]@ } else { Seq::empty() }).push(vx_s[vx_n].0));
    lemma_collect(vx_m, %0@, vx_o.data_by_id@, vx_s, vx_n, vx_r, %0@[vx_r]);
}
@loopafter proof { lemma_same_roots_sized(vx_o.data_by_id@, self.data_by_id@); lemma_roots(self.data_by_id@); }
@closure 0 -> (vx_cr: Vec<&'a T>)
@req true
@ens vx_cr@.len() == 0

@fn <&mut DisjointSet as IntoIterator>::into_iter
@rehome
@req : keys_ok::<T, S>() && old(self).inv()
@ens D03: exists|m: Map<usize, Vec<&'a T>>| #[trigger] lists_map(rem($r.sets), m) && partition(m, old(self))
@ens D01,D02,D04: final(self).inv()
@ens D01,D02,D03: final(self).unchanged(old(self))

@fn SetIter::new
@ens D03: rem($r.sets) == rem($0)

@fn <SetIter as Iterator>::next
@ens D03: rem(old(self).sets).len() == 0 ==> $r is None && rem(final(self).sets).len() == 0
@ens D03: rem(old(self).sets).len() > 0 ==> $r is Some && $r->0.remaining() == rem(old(self).sets)[0].1@ && rem(final(self).sets) == rem(old(self).sets).drop_first()

@fn <Data as Clone>::clone
@ens D01,D02,D03,D04: $r == *self

@fn <DisjointSet as Clone>::clone
@ens D01,D02,D03,D04: keys_ok::<T, S>() && clones::<T>() ==> $r.ids@ == self.ids@ && $r.data_by_id@ =~= self.data_by_id@
