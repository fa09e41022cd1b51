# Contracts of standard-library functions that vstd does not describe and that /repo does not use: a section becomes
# part of the verified text (and of its trusted base) only when a function of the module uses one of the words on its
# first line. Each is executed by the replay crate (native/src/stdlib.rs).
@rootif mem::replace(
pub assume_specification<T>[ std::mem::replace ](d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;
@rootif .then(
pub assume_specification[ std::cmp::Ordering::then ](o: std::cmp::Ordering, p: std::cmp::Ordering) -> (r: std::cmp::Ordering) ensures r == (if o == std::cmp::Ordering::Equal { p } else { o });
@rootif .then_with(
pub assume_specification<F: FnOnce() -> std::cmp::Ordering>[ std::cmp::Ordering::then_with ](o: std::cmp::Ordering, f: F) -> (r: std::cmp::Ordering)
    requires o == std::cmp::Ordering::Equal ==> call_requires(f, ()),
    ensures o == std::cmp::Ordering::Equal ==> call_ensures(f, (), r), o != std::cmp::Ordering::Equal ==> r == o;
@rootif .is_lt(
pub assume_specification[ std::cmp::Ordering::is_lt ](o: std::cmp::Ordering) -> (r: bool) ensures r == (o == std::cmp::Ordering::Less);
@rootif .is_le(
pub assume_specification[ std::cmp::Ordering::is_le ](o: std::cmp::Ordering) -> (r: bool) ensures r == (o != std::cmp::Ordering::Greater);
@rootif .is_gt(
pub assume_specification[ std::cmp::Ordering::is_gt ](o: std::cmp::Ordering) -> (r: bool) ensures r == (o == std::cmp::Ordering::Greater);
@rootif .is_ge(
pub assume_specification[ std::cmp::Ordering::is_ge ](o: std::cmp::Ordering) -> (r: bool) ensures r == (o != std::cmp::Ordering::Less);
@rootif .is_eq(
pub assume_specification[ std::cmp::Ordering::is_eq ](o: std::cmp::Ordering) -> (r: bool) ensures r == (o == std::cmp::Ordering::Equal);
@rootif .is_ne(
pub assume_specification[ std::cmp::Ordering::is_ne ](o: std::cmp::Ordering) -> (r: bool) ensures r == (o != std::cmp::Ordering::Equal);
@rootif .map_or(
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o->0,)),
    ensures o is Some ==> call_ensures(f, (o->0,), r), o is None ==> r == d;
@rootif .map_or_else(
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> call_requires(f, (o->0,)), o is None ==> call_requires(d, ()),
    ensures o is Some ==> call_ensures(f, (o->0,), r), o is None ==> call_ensures(d, (), r);
@rootif .is_some_and(
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,)),
    ensures o is Some ==> call_ensures(f, (o->0,), r), o is None ==> !r;
@rootif .is_none_or(
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> call_requires(f, (o->0,)),
    ensures o is Some ==> call_ensures(f, (o->0,), r), o is None ==> r;
@rootif .filter(
pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is Some ==> call_requires(f, (&o->0,)),
    ensures o is None ==> r is None, r is Some ==> r == o && call_ensures(f, (&o->0,), true), o is Some && r is None ==> call_ensures(f, (&o->0,), false);
@rootif .replace(
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
@rootif .or(
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
@rootif .xor(
pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None });
@rootif .zip(
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>) ensures r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None });
@rootif .and(
pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (r: Option<U>) ensures r == (if o is Some { p } else { None });
@rootif .copied(
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
@rootif .then_some(
pub assume_specification<T>[ bool::then_some ](b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None });
@rootif .rotate_right(
pub assume_specification<T>[ <[T]>::rotate_right ](s: &mut [T], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == old(s)@.skip(old(s)@.len() - k as int) + old(s)@.take(old(s)@.len() - k as int);
@rootif cmp::max(
pub assume_specification<T: Ord>[ std::cmp::max ](a: T, b: T) -> (r: T)
    ensures call_ensures(T::max, (a, b), r);
@rootif cmp::min(
pub assume_specification<T: Ord>[ std::cmp::min ](a: T, b: T) -> (r: T)
    ensures call_ensures(T::min, (a, b), r);
@rootif .reverse(
pub open spec fn vx_flip(o: std::cmp::Ordering) -> std::cmp::Ordering { match o { std::cmp::Ordering::Less => std::cmp::Ordering::Greater, std::cmp::Ordering::Greater => std::cmp::Ordering::Less, std::cmp::Ordering::Equal => std::cmp::Ordering::Equal } }
pub assume_specification[ std::cmp::Ordering::reverse ](o: std::cmp::Ordering) -> (r: std::cmp::Ordering) ensures r == vx_flip(o);
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
@rootif .or_default(
pub assume_specification<'a, K, V: Default>[ std::collections::hash_map::Entry::<'a, K, V>::or_default ](entry: std::collections::hash_map::Entry<'a, K, V>) -> (value: &'a mut V)
    ensures
        match entry.value() { Some(v) => *value == v, None => call_ensures(V::default, (), *value) },
        entry.final_value() == Some(*final(value));
@rootif .get_mut(
pub open spec fn vx_same_key<K, Q: ?Sized>(k2: K, k: &Q) -> bool { vstd::std_specs::hash::contains_borrowed_key(Map::<K, ()>::empty().insert(k2, ()), k) }
pub assume_specification<'a, K: std::borrow::Borrow<Q> + std::hash::Hash + Eq, V, S: std::hash::BuildHasher, A: std::alloc::Allocator, Q: std::hash::Hash + Eq + ?Sized>[ std::collections::HashMap::<K, V, S, A>::get_mut::<Q> ](m: &'a mut std::collections::HashMap<K, V, S, A>, k: &Q) -> (r: Option<&'a mut V>)
    ensures
        vstd::std_specs::hash::obeys_key_model::<K>() && vstd::std_specs::hash::builds_valid_hashers::<S>() ==> match r {
            Some(v) => {
                &&& vstd::std_specs::hash::maps_borrowed_key_to_value(old(m)@, k, *v)
                &&& vstd::std_specs::hash::maps_borrowed_key_to_value(final(m)@, k, *final(v))
                &&& final(m)@.dom() == old(m)@.dom()
                &&& forall|k2: K| #![trigger final(m)@[k2]] old(m)@.contains_key(k2) && !vx_same_key(k2, k) ==> final(m)@[k2] == old(m)@[k2]
            }
            None => final(m)@ == old(m)@ && !vstd::std_specs::hash::contains_borrowed_key(old(m)@, k),
        };
@rootif mem::take(
pub assume_specification<T: Default>[ std::mem::take ](d: &mut T) -> (r: T)
    ensures r == *old(d), call_ensures(T::default, (), *final(d));
@rootif mir:<bool~as~Ord>::cmp(
pub assume_specification[ <bool as Ord>::cmp ](a: &bool, b: &bool) -> (r: std::cmp::Ordering) ensures r == (if *a == *b { std::cmp::Ordering::Equal } else if *a { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less });
@rootif mir:<std::cmp::Ordering~as~PartialEq>:: mir:<Ordering~as~PartialEq>::
pub assume_specification[ <std::cmp::Ordering as PartialEq>::eq ](a: &std::cmp::Ordering, b: &std::cmp::Ordering) -> (r: bool) ensures r == (*a == *b);
