# Contracts of the module `interval` (bounds, intervals, their comparison and arithmetic).
@root
pub use std::cmp::Ordering;
pub use std::cmp::Ordering::*;
pub use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};
pub use vstd::std_specs::ops::{AddSpec, AddAssignSpec, SubSpec, SubAssignSpec, MulSpec, MulAssignSpec, DivSpec, DivAssignSpec, NegSpec};
pub use crate::interval::bounds::{Bound, LowerBound, UpperBound};
pub use crate::interval::interval::{Interval, NonEmptyInterval};
use std::ops::*;

// mode_a() chooses how panics are judged, and is left open so that both readings are proved:
// true: a panic must not happen where the contract's no-panic condition holds;
// false: panics may happen, and returning normally must imply that the condition held.
pub uninterp spec fn mode_a() -> bool;

#[verifier::external_body]
pub fn vpanic() -> !
    requires !mode_a(),
    ensures false,
{ panic!() }

pub fn vassert(c: bool)
    requires mode_a() ==> c,
    ensures c,
{ if !c { vpanic() } }
// whether debug assertions are compiled in: either way must be right
#[verifier::external_body]
pub fn in_debug() -> bool { cfg!(debug_assertions) }

pub open spec fn cm<T: Ord>(a: T, b: T) -> Ordering { a.cmp_spec(&b) }
pub open spec fn le<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) != Greater }

// T's comparison is a lawful total order (the contract of std::cmp::Ord; assumed of the caller's type)
pub open spec fn lawful<T: Ord>() -> bool {
    &&& <T as PartialEqSpec>::obeys_eq_spec()
    &&& <T as PartialOrdSpec>::obeys_partial_cmp_spec()
    &&& <T as OrdSpec>::obeys_cmp_spec()
    &&& forall|a: T, b: T| #[trigger] a.eq_spec(&b) <==> a.cmp_spec(&b) == Equal
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: T| #[trigger] a.cmp_spec(&a) == Equal
    &&& forall|a: T, b: T| #[trigger] a.cmp_spec(&b) == Less <==> b.cmp_spec(&a) == Greater
    &&& forall|a: T, b: T| #[trigger] a.cmp_spec(&b) == Greater <==> b.cmp_spec(&a) == Less
    &&& forall|a: T, b: T, c: T| #![trigger a.cmp_spec(&b), b.cmp_spec(&c)] le(a, b) && le(b, c) ==> le(a, c)
    &&& forall|a: T, b: T, c: T| #![trigger a.cmp_spec(&b), b.cmp_spec(&c)]
            le(a, b) && le(b, c) && a.cmp_spec(&c) == Equal ==> a.cmp_spec(&b) == Equal && b.cmp_spec(&c) == Equal
}
// clone of an operand is the operand (the contract of Clone; assumed of the caller's type)
pub open spec fn clones<U: Clone>() -> bool { forall|a: U, b: U| #[trigger] call_ensures(U::clone, (&a,), b) ==> a == b }

// ---- specification of bounds

pub open spec fn lcmp<T: Ord>(a: LowerBound<T>, b: LowerBound<T>) -> Ordering {
    match cm(a.bound.val, b.bound.val) {
        Equal => if a.bound.is_closed == b.bound.is_closed { Equal } else if a.bound.is_closed { Less } else { Greater },
        o => o,
    }
}
pub open spec fn ucmp<T: Ord>(a: UpperBound<T>, b: UpperBound<T>) -> Ordering {
    match cm(a.bound.val, b.bound.val) {
        Equal => if a.bound.is_closed == b.bound.is_closed { Equal } else if a.bound.is_closed { Greater } else { Less },
        o => o,
    }
}
// the points a bound admits
pub open spec fn lo_admits<T: Ord>(l: LowerBound<T>, x: T) -> bool {
    cm(l.bound.val, x) == Less || cm(l.bound.val, x) == Equal && l.bound.is_closed
}
pub open spec fn up_admits<T: Ord>(u: UpperBound<T>, x: T) -> bool {
    cm(x, u.bound.val) == Less || cm(x, u.bound.val) == Equal && u.bound.is_closed
}
// lower bound against a value, upper bound against a value
pub open spec fn lvcmp<T: Ord>(a: LowerBound<T>, x: T) -> Ordering {
    match cm(a.bound.val, x) { Equal => if a.bound.is_closed { Equal } else { Greater }, o => o }
}
pub open spec fn uvcmp<T: Ord>(a: UpperBound<T>, x: T) -> Ordering {
    match cm(a.bound.val, x) { Equal => if a.bound.is_closed { Equal } else { Less }, o => o }
}
// a lower bound exceeds an upper bound: no point satisfies both
pub open spec fn exceeds<T: Ord>(l: LowerBound<T>, u: UpperBound<T>) -> bool {
    cm(l.bound.val, u.bound.val) == Greater
        || cm(l.bound.val, u.bound.val) == Equal && !(l.bound.is_closed && u.bound.is_closed)
}
pub open spec fn separated<T: Ord>(l: LowerBound<T>, u: UpperBound<T>) -> bool {
    cm(l.bound.val, u.bound.val) == Greater
        || cm(l.bound.val, u.bound.val) == Equal && !l.bound.is_closed && !u.bound.is_closed
}
pub open spec fn as_lt(o: Ordering) -> bool { o == Less }

impl<T: Ord> vstd::std_specs::cmp::PartialEqSpecImpl for Bound<T> {
    open spec fn obeys_eq_spec() -> bool { lawful::<T>() }
    open spec fn eq_spec(&self, o: &Bound<T>) -> bool { self.val.eq_spec(&o.val) && self.is_closed == o.is_closed }
}
impl<T: Ord> vstd::std_specs::cmp::PartialEqSpecImpl for LowerBound<T> {
    open spec fn obeys_eq_spec() -> bool { lawful::<T>() }
    open spec fn eq_spec(&self, o: &LowerBound<T>) -> bool { lcmp(*self, *o) == Equal }
}
impl<T: Ord> vstd::std_specs::cmp::PartialEqSpecImpl for UpperBound<T> {
    open spec fn obeys_eq_spec() -> bool { lawful::<T>() }
    open spec fn eq_spec(&self, o: &UpperBound<T>) -> bool { ucmp(*self, *o) == Equal }
}
impl<T: Ord> vstd::std_specs::cmp::PartialOrdSpecImpl for LowerBound<T> {
    open spec fn obeys_partial_cmp_spec() -> bool { lawful::<T>() }
    open spec fn partial_cmp_spec(&self, o: &LowerBound<T>) -> Option<Ordering> { Some(lcmp(*self, *o)) }
}
impl<T: Ord> vstd::std_specs::cmp::PartialOrdSpecImpl for UpperBound<T> {
    open spec fn obeys_partial_cmp_spec() -> bool { lawful::<T>() }
    open spec fn partial_cmp_spec(&self, o: &UpperBound<T>) -> Option<Ordering> { Some(ucmp(*self, *o)) }
}
impl<T: Ord> vstd::std_specs::cmp::OrdSpecImpl for LowerBound<T> {
    open spec fn obeys_cmp_spec() -> bool { lawful::<T>() }
    open spec fn cmp_spec(&self, o: &LowerBound<T>) -> Ordering { lcmp(*self, *o) }
}
impl<T: Ord> vstd::std_specs::cmp::OrdSpecImpl for UpperBound<T> {
    open spec fn obeys_cmp_spec() -> bool { lawful::<T>() }
    open spec fn cmp_spec(&self, o: &UpperBound<T>) -> Ordering { ucmp(*self, *o) }
}

// I07: the operator order is the order of the admitted point sets
proof fn lemma_lower_order_is_admission<T: Ord>(a: LowerBound<T>, b: LowerBound<T>, x: T)
    requires lawful::<T>(), lcmp(a, b) != Greater, lo_admits(b, x),
    ensures lo_admits(a, x),
{}
proof fn lemma_upper_order_is_admission<T: Ord>(a: UpperBound<T>, b: UpperBound<T>, x: T)
    requires lawful::<T>(), ucmp(a, b) != Greater, up_admits(a, x),
    ensures up_admits(b, x),
{}
proof fn lemma_exceeds_means_no_common_point<T: Ord>(l: LowerBound<T>, u: UpperBound<T>, x: T)
    requires lawful::<T>(), lo_admits(l, x), up_admits(u, x),
    ensures !exceeds(l, u),
{}
// I07: bounds of one kind are totally ordered
proof fn lemma_lower_total<T: Ord>(a: LowerBound<T>, b: LowerBound<T>, c: LowerBound<T>)
    requires lawful::<T>(),
    ensures
        lcmp(a, a) == Equal,
        lcmp(a, b) == Less <==> lcmp(b, a) == Greater,
        lcmp(a, b) == Equal <==> lcmp(b, a) == Equal,
        lcmp(a, b) != Greater && lcmp(b, c) != Greater ==> lcmp(a, c) != Greater,
{}
proof fn lemma_upper_total<T: Ord>(a: UpperBound<T>, b: UpperBound<T>, c: UpperBound<T>)
    requires lawful::<T>(),
    ensures
        ucmp(a, a) == Equal,
        ucmp(a, b) == Less <==> ucmp(b, a) == Greater,
        ucmp(a, b) == Equal <==> ucmp(b, a) == Equal,
        ucmp(a, b) != Greater && ucmp(b, c) != Greater ==> ucmp(a, c) != Greater,
{}

// the assumed contract of the value type holds for the primitive types: the assumption can be met, and for these it is not one
pub mod witness {
use super::*;
macro_rules! wit { ($($n:ident $t:ty),*) => { verus!{ $( proof fn $n() ensures lawful::<$t>(), clones::<$t>() {} )* } } }
wit!(w_u8 u8, w_u16 u16, w_u32 u32, w_u64 u64, w_u128 u128, w_usize usize, w_i8 i8, w_i16 i16, w_i32 i32, w_i64 i64, w_i128 i128, w_isize isize);
}
