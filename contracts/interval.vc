# Contracts of the module `interval` (bounds, intervals, their comparison and arithmetic).
@root
pub use std::cmp::Ordering;
pub use std::cmp::Ordering::*;
pub use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec, OrdSpec};
pub use vstd::std_specs::ops::{AddSpec, AddAssignSpec, SubSpec, SubAssignSpec, MulSpec, MulAssignSpec, DivSpec, DivAssignSpec, NegSpec};
pub use crate::interval::bounds::{Bound, LowerBound, UpperBound};
pub use crate::interval::interval::{Interval, NonEmptyInterval};
use std::ops::*;

// mode_a() chooses how panics are judged, and is left open so that both readings are proved:
// true: a panic must not happen where the contract's no-panic condition holds;
// false: panics may happen, and returning normally must imply that the condition held.
pub uninterp spec fn mode_a() -> bool;

#[verifier::external_body]
pub fn vpanic() -> !
    requires !mode_a(),
    ensures false,
{ panic!() }

pub fn vassert(c: bool)
    requires mode_a() ==> c,
    ensures c,
{ if !c { vpanic() } }
// whether debug assertions are compiled in: either way must be right
#[verifier::external_body]
pub fn in_debug() -> bool { cfg!(debug_assertions) }

pub open spec fn cm<T: Ord>(a: T, b: T) -> Ordering { a.cmp_spec(&b) }
pub open spec fn le<T: Ord>(a: T, b: T) -> bool { a.cmp_spec(&b) != Greater }

// T's comparison is a lawful total order (the contract of std::cmp::Ord; assumed of the caller's type)
pub open spec fn lawful<T: Ord>() -> bool {
    &&& <T as PartialEqSpec>::obeys_eq_spec()
    &&& <T as PartialOrdSpec>::obeys_partial_cmp_spec()
    &&& <T as OrdSpec>::obeys_cmp_spec()
    &&& forall|a: T, b: T| #[trigger] a.eq_spec(&b) <==> a.cmp_spec(&b) == Equal
    &&& forall|a: T, b: T| #[trigger] a.partial_cmp_spec(&b) == Some(a.cmp_spec(&b))
    &&& forall|a: T| #[trigger] a.cmp_spec(&a) == Equal
    &&& forall|a: T, b: T| #[trigger] a.cmp_spec(&b) == Less <==> b.cmp_spec(&a) == Greater
    &&& forall|a: T, b: T| #[trigger] a.cmp_spec(&b) == Greater <==> b.cmp_spec(&a) == Less
    &&& forall|a: T, b: T, c: T| #![trigger a.cmp_spec(&b), b.cmp_spec(&c)] le(a, b) && le(b, c) ==> le(a, c)
    &&& forall|a: T, b: T, c: T| #![trigger a.cmp_spec(&b), b.cmp_spec(&c)]
            le(a, b) && le(b, c) && a.cmp_spec(&c) == Equal ==> a.cmp_spec(&b) == Equal && b.cmp_spec(&c) == Equal
}
// clone of an operand is the operand (the contract of Clone; assumed of the caller's type)
pub open spec fn clones<U: Clone>() -> bool { forall|a: U, b: U| #[trigger] call_ensures(U::clone, (&a,), b) ==> a == b }

// ---- specification of bounds

pub open spec fn lcmp<T: Ord>(a: LowerBound<T>, b: LowerBound<T>) -> Ordering {
    match cm(a.bound.val, b.bound.val) {
        Equal => if a.bound.is_closed == b.bound.is_closed { Equal } else if a.bound.is_closed { Less } else { Greater },
        o => o,
    }
}
pub open spec fn ucmp<T: Ord>(a: UpperBound<T>, b: UpperBound<T>) -> Ordering {
    match cm(a.bound.val, b.bound.val) {
        Equal => if a.bound.is_closed == b.bound.is_closed { Equal } else if a.bound.is_closed { Greater } else { Less },
        o => o,
    }
}
// the points a bound admits
pub open spec fn lo_admits<T: Ord>(l: LowerBound<T>, x: T) -> bool {
    cm(l.bound.val, x) == Less || cm(l.bound.val, x) == Equal && l.bound.is_closed
}
pub open spec fn up_admits<T: Ord>(u: UpperBound<T>, x: T) -> bool {
    cm(x, u.bound.val) == Less || cm(x, u.bound.val) == Equal && u.bound.is_closed
}
// lower bound against a value, upper bound against a value
pub open spec fn lvcmp<T: Ord>(a: LowerBound<T>, x: T) -> Ordering {
    match cm(a.bound.val, x) { Equal => if a.bound.is_closed { Equal } else { Greater }, o => o }
}
pub open spec fn uvcmp<T: Ord>(a: UpperBound<T>, x: T) -> Ordering {
    match cm(a.bound.val, x) { Equal => if a.bound.is_closed { Equal } else { Less }, o => o }
}
// a lower bound exceeds an upper bound: no point satisfies both
pub open spec fn exceeds<T: Ord>(l: LowerBound<T>, u: UpperBound<T>) -> bool {
    cm(l.bound.val, u.bound.val) == Greater
        || cm(l.bound.val, u.bound.val) == Equal && !(l.bound.is_closed && u.bound.is_closed)
}
pub open spec fn separated<T: Ord>(l: LowerBound<T>, u: UpperBound<T>) -> bool {
    cm(l.bound.val, u.bound.val) == Greater
        || cm(l.bound.val, u.bound.val) == Equal && !l.bound.is_closed && !u.bound.is_closed
}
pub open spec fn as_lt(o: Ordering) -> bool { o == Less }

impl<T: Ord> vstd::std_specs::cmp::PartialEqSpecImpl for Bound<T> {
    open spec fn obeys_eq_spec() -> bool { lawful::<T>() }
    open spec fn eq_spec(&self, o: &Bound<T>) -> bool { self.val.eq_spec(&o.val) && self.is_closed == o.is_closed }
}
impl<T: Ord> vstd::std_specs::cmp::PartialEqSpecImpl for LowerBound<T> {
    open spec fn obeys_eq_spec() -> bool { lawful::<T>() }
    open spec fn eq_spec(&self, o: &LowerBound<T>) -> bool { lcmp(*self, *o) == Equal }
}
impl<T: Ord> vstd::std_specs::cmp::PartialEqSpecImpl for UpperBound<T> {
    open spec fn obeys_eq_spec() -> bool { lawful::<T>() }
    open spec fn eq_spec(&self, o: &UpperBound<T>) -> bool { ucmp(*self, *o) == Equal }
}
impl<T: Ord> vstd::std_specs::cmp::PartialOrdSpecImpl for LowerBound<T> {
    open spec fn obeys_partial_cmp_spec() -> bool { lawful::<T>() }
    open spec fn partial_cmp_spec(&self, o: &LowerBound<T>) -> Option<Ordering> { Some(lcmp(*self, *o)) }
}
impl<T: Ord> vstd::std_specs::cmp::PartialOrdSpecImpl for UpperBound<T> {
    open spec fn obeys_partial_cmp_spec() -> bool { lawful::<T>() }
    open spec fn partial_cmp_spec(&self, o: &UpperBound<T>) -> Option<Ordering> { Some(ucmp(*self, *o)) }
}
impl<T: Ord> vstd::std_specs::cmp::OrdSpecImpl for LowerBound<T> {
    open spec fn obeys_cmp_spec() -> bool { lawful::<T>() }
    open spec fn cmp_spec(&self, o: &LowerBound<T>) -> Ordering { lcmp(*self, *o) }
}
impl<T: Ord> vstd::std_specs::cmp::OrdSpecImpl for UpperBound<T> {
    open spec fn obeys_cmp_spec() -> bool { lawful::<T>() }
    open spec fn cmp_spec(&self, o: &UpperBound<T>) -> Ordering { ucmp(*self, *o) }
}

// I07: the operator order is the order of the admitted point sets
proof fn lemma_lower_order_is_admission<T: Ord>(a: LowerBound<T>, b: LowerBound<T>, x: T)
    requires lawful::<T>(), lcmp(a, b) != Greater, lo_admits(b, x),
    ensures lo_admits(a, x),
{}
proof fn lemma_upper_order_is_admission<T: Ord>(a: UpperBound<T>, b: UpperBound<T>, x: T)
    requires lawful::<T>(), ucmp(a, b) != Greater, up_admits(a, x),
    ensures up_admits(b, x),
{}
proof fn lemma_exceeds_means_no_common_point<T: Ord>(l: LowerBound<T>, u: UpperBound<T>, x: T)
    requires lawful::<T>(), lo_admits(l, x), up_admits(u, x),
    ensures !exceeds(l, u),
{}
// I07: bounds of one kind are totally ordered
proof fn lemma_lower_total<T: Ord>(a: LowerBound<T>, b: LowerBound<T>, c: LowerBound<T>)
    requires lawful::<T>(),
    ensures
        lcmp(a, a) == Equal,
        lcmp(a, b) == Less <==> lcmp(b, a) == Greater,
        lcmp(a, b) == Equal <==> lcmp(b, a) == Equal,
        lcmp(a, b) != Greater && lcmp(b, c) != Greater ==> lcmp(a, c) != Greater,
{}
proof fn lemma_upper_total<T: Ord>(a: UpperBound<T>, b: UpperBound<T>, c: UpperBound<T>)
    requires lawful::<T>(),
    ensures
        ucmp(a, a) == Equal,
        ucmp(a, b) == Less <==> ucmp(b, a) == Greater,
        ucmp(a, b) == Equal <==> ucmp(b, a) == Equal,
        ucmp(a, b) != Greater && ucmp(b, c) != Greater ==> ucmp(a, c) != Greater,
{}

// the assumed contract of the value type holds for the primitive types: the assumption can be met, and for these it is not one
pub mod witness {
use super::*;
macro_rules! wit { ($($n:ident $t:ty),*) => { verus!{ $( proof fn $n() ensures lawful::<$t>(), clones::<$t>() {} )* } } }
wit!(w_u8 u8, w_u16 u16, w_u32 u32, w_u64 u64, w_u128 u128, w_usize usize, w_i8 i8, w_i16 i16, w_i32 i32, w_i64 i64, w_i128 i128, w_isize isize);
}

impl<T, U> vstd::std_specs::ops::AddSpecImpl<U> for Bound<T> where T: Ord + Add<U, Output = T> {
    open spec fn obeys_add_spec() -> bool { <T as AddSpec<U>>::obeys_add_spec() }
    open spec fn add_req(self, rhs: U) -> bool { AddSpec::<U>::add_req(self.val, rhs) }
    open spec fn add_spec(self, rhs: U) -> Bound<T> { Bound { val: AddSpec::<U>::add_spec(self.val, rhs), is_closed: self.is_closed } }
}
impl<T, U> vstd::std_specs::ops::AddAssignSpecImpl<U> for Bound<T> where T: Ord + AddAssign<U> {
    open spec fn obeys_add_assign_spec() -> bool { <T as AddAssignSpec<U>>::obeys_add_assign_spec() }
    open spec fn add_assign_req(&self, rhs: U) -> bool { AddAssignSpec::<U>::add_assign_req(&self.val, rhs) }
    open spec fn add_assign_spec(&self, rhs: U) -> &Bound<T> { &Bound { val: *AddAssignSpec::<U>::add_assign_spec(&self.val, rhs), is_closed: self.is_closed } }
}

impl<T, U> vstd::std_specs::ops::AddSpecImpl<U> for LowerBound<T> where T: Ord + Add<U, Output = T> {
    open spec fn obeys_add_spec() -> bool { <T as AddSpec<U>>::obeys_add_spec() }
    open spec fn add_req(self, rhs: U) -> bool { AddSpec::<U>::add_req(self.bound, rhs) }
    open spec fn add_spec(self, rhs: U) -> LowerBound<T> { LowerBound { bound: AddSpec::<U>::add_spec(self.bound, rhs) } }
}
impl<T, U> vstd::std_specs::ops::AddAssignSpecImpl<U> for LowerBound<T> where T: Ord + AddAssign<U> {
    open spec fn obeys_add_assign_spec() -> bool { <T as AddAssignSpec<U>>::obeys_add_assign_spec() }
    open spec fn add_assign_req(&self, rhs: U) -> bool { AddAssignSpec::<U>::add_assign_req(&self.bound, rhs) }
    open spec fn add_assign_spec(&self, rhs: U) -> &LowerBound<T> { &LowerBound { bound: *AddAssignSpec::<U>::add_assign_spec(&self.bound, rhs) } }
}

impl<T, U> vstd::std_specs::ops::AddSpecImpl<U> for UpperBound<T> where T: Ord + Add<U, Output = T> {
    open spec fn obeys_add_spec() -> bool { <T as AddSpec<U>>::obeys_add_spec() }
    open spec fn add_req(self, rhs: U) -> bool { AddSpec::<U>::add_req(self.bound, rhs) }
    open spec fn add_spec(self, rhs: U) -> UpperBound<T> { UpperBound { bound: AddSpec::<U>::add_spec(self.bound, rhs) } }
}
impl<T, U> vstd::std_specs::ops::AddAssignSpecImpl<U> for UpperBound<T> where T: Ord + AddAssign<U> {
    open spec fn obeys_add_assign_spec() -> bool { <T as AddAssignSpec<U>>::obeys_add_assign_spec() }
    open spec fn add_assign_req(&self, rhs: U) -> bool { AddAssignSpec::<U>::add_assign_req(&self.bound, rhs) }
    open spec fn add_assign_spec(&self, rhs: U) -> &UpperBound<T> { &UpperBound { bound: *AddAssignSpec::<U>::add_assign_spec(&self.bound, rhs) } }
}

impl<T, U> vstd::std_specs::ops::SubSpecImpl<U> for Bound<T> where T: Ord + Sub<U, Output = T> {
    open spec fn obeys_sub_spec() -> bool { <T as SubSpec<U>>::obeys_sub_spec() }
    open spec fn sub_req(self, rhs: U) -> bool { SubSpec::<U>::sub_req(self.val, rhs) }
    open spec fn sub_spec(self, rhs: U) -> Bound<T> { Bound { val: SubSpec::<U>::sub_spec(self.val, rhs), is_closed: self.is_closed } }
}
impl<T, U> vstd::std_specs::ops::SubAssignSpecImpl<U> for Bound<T> where T: Ord + SubAssign<U> {
    open spec fn obeys_sub_assign_spec() -> bool { <T as SubAssignSpec<U>>::obeys_sub_assign_spec() }
    open spec fn sub_assign_req(&self, rhs: U) -> bool { SubAssignSpec::<U>::sub_assign_req(&self.val, rhs) }
    open spec fn sub_assign_spec(&self, rhs: U) -> &Bound<T> { &Bound { val: *SubAssignSpec::<U>::sub_assign_spec(&self.val, rhs), is_closed: self.is_closed } }
}

impl<T, U> vstd::std_specs::ops::SubSpecImpl<U> for LowerBound<T> where T: Ord + Sub<U, Output = T> {
    open spec fn obeys_sub_spec() -> bool { <T as SubSpec<U>>::obeys_sub_spec() }
    open spec fn sub_req(self, rhs: U) -> bool { SubSpec::<U>::sub_req(self.bound, rhs) }
    open spec fn sub_spec(self, rhs: U) -> LowerBound<T> { LowerBound { bound: SubSpec::<U>::sub_spec(self.bound, rhs) } }
}
impl<T, U> vstd::std_specs::ops::SubAssignSpecImpl<U> for LowerBound<T> where T: Ord + SubAssign<U> {
    open spec fn obeys_sub_assign_spec() -> bool { <T as SubAssignSpec<U>>::obeys_sub_assign_spec() }
    open spec fn sub_assign_req(&self, rhs: U) -> bool { SubAssignSpec::<U>::sub_assign_req(&self.bound, rhs) }
    open spec fn sub_assign_spec(&self, rhs: U) -> &LowerBound<T> { &LowerBound { bound: *SubAssignSpec::<U>::sub_assign_spec(&self.bound, rhs) } }
}

impl<T, U> vstd::std_specs::ops::SubSpecImpl<U> for UpperBound<T> where T: Ord + Sub<U, Output = T> {
    open spec fn obeys_sub_spec() -> bool { <T as SubSpec<U>>::obeys_sub_spec() }
    open spec fn sub_req(self, rhs: U) -> bool { SubSpec::<U>::sub_req(self.bound, rhs) }
    open spec fn sub_spec(self, rhs: U) -> UpperBound<T> { UpperBound { bound: SubSpec::<U>::sub_spec(self.bound, rhs) } }
}
impl<T, U> vstd::std_specs::ops::SubAssignSpecImpl<U> for UpperBound<T> where T: Ord + SubAssign<U> {
    open spec fn obeys_sub_assign_spec() -> bool { <T as SubAssignSpec<U>>::obeys_sub_assign_spec() }
    open spec fn sub_assign_req(&self, rhs: U) -> bool { SubAssignSpec::<U>::sub_assign_req(&self.bound, rhs) }
    open spec fn sub_assign_spec(&self, rhs: U) -> &UpperBound<T> { &UpperBound { bound: *SubAssignSpec::<U>::sub_assign_spec(&self.bound, rhs) } }
}

impl<T, U> vstd::std_specs::ops::MulSpecImpl<U> for Bound<T> where T: Ord + Mul<U, Output = T> {
    open spec fn obeys_mul_spec() -> bool { <T as MulSpec<U>>::obeys_mul_spec() }
    open spec fn mul_req(self, rhs: U) -> bool { MulSpec::<U>::mul_req(self.val, rhs) }
    open spec fn mul_spec(self, rhs: U) -> Bound<T> { Bound { val: MulSpec::<U>::mul_spec(self.val, rhs), is_closed: self.is_closed } }
}
impl<T, U> vstd::std_specs::ops::MulAssignSpecImpl<U> for Bound<T> where T: Ord + MulAssign<U> {
    open spec fn obeys_mul_assign_spec() -> bool { <T as MulAssignSpec<U>>::obeys_mul_assign_spec() }
    open spec fn mul_assign_req(&self, rhs: U) -> bool { MulAssignSpec::<U>::mul_assign_req(&self.val, rhs) }
    open spec fn mul_assign_spec(&self, rhs: U) -> &Bound<T> { &Bound { val: *MulAssignSpec::<U>::mul_assign_spec(&self.val, rhs), is_closed: self.is_closed } }
}

impl<T, U> vstd::std_specs::ops::MulSpecImpl<U> for LowerBound<T> where T: Ord + Mul<U, Output = T> {
    open spec fn obeys_mul_spec() -> bool { <T as MulSpec<U>>::obeys_mul_spec() }
    open spec fn mul_req(self, rhs: U) -> bool { MulSpec::<U>::mul_req(self.bound, rhs) }
    open spec fn mul_spec(self, rhs: U) -> LowerBound<T> { LowerBound { bound: MulSpec::<U>::mul_spec(self.bound, rhs) } }
}
impl<T, U> vstd::std_specs::ops::MulAssignSpecImpl<U> for LowerBound<T> where T: Ord + MulAssign<U> {
    open spec fn obeys_mul_assign_spec() -> bool { <T as MulAssignSpec<U>>::obeys_mul_assign_spec() }
    open spec fn mul_assign_req(&self, rhs: U) -> bool { MulAssignSpec::<U>::mul_assign_req(&self.bound, rhs) }
    open spec fn mul_assign_spec(&self, rhs: U) -> &LowerBound<T> { &LowerBound { bound: *MulAssignSpec::<U>::mul_assign_spec(&self.bound, rhs) } }
}

impl<T, U> vstd::std_specs::ops::MulSpecImpl<U> for UpperBound<T> where T: Ord + Mul<U, Output = T> {
    open spec fn obeys_mul_spec() -> bool { <T as MulSpec<U>>::obeys_mul_spec() }
    open spec fn mul_req(self, rhs: U) -> bool { MulSpec::<U>::mul_req(self.bound, rhs) }
    open spec fn mul_spec(self, rhs: U) -> UpperBound<T> { UpperBound { bound: MulSpec::<U>::mul_spec(self.bound, rhs) } }
}
impl<T, U> vstd::std_specs::ops::MulAssignSpecImpl<U> for UpperBound<T> where T: Ord + MulAssign<U> {
    open spec fn obeys_mul_assign_spec() -> bool { <T as MulAssignSpec<U>>::obeys_mul_assign_spec() }
    open spec fn mul_assign_req(&self, rhs: U) -> bool { MulAssignSpec::<U>::mul_assign_req(&self.bound, rhs) }
    open spec fn mul_assign_spec(&self, rhs: U) -> &UpperBound<T> { &UpperBound { bound: *MulAssignSpec::<U>::mul_assign_spec(&self.bound, rhs) } }
}

impl<T, U> vstd::std_specs::ops::DivSpecImpl<U> for Bound<T> where T: Ord + Div<U, Output = T> {
    open spec fn obeys_div_spec() -> bool { <T as DivSpec<U>>::obeys_div_spec() }
    open spec fn div_req(self, rhs: U) -> bool { DivSpec::<U>::div_req(self.val, rhs) }
    open spec fn div_spec(self, rhs: U) -> Bound<T> { Bound { val: DivSpec::<U>::div_spec(self.val, rhs), is_closed: self.is_closed } }
}
impl<T, U> vstd::std_specs::ops::DivAssignSpecImpl<U> for Bound<T> where T: Ord + DivAssign<U> {
    open spec fn obeys_div_assign_spec() -> bool { <T as DivAssignSpec<U>>::obeys_div_assign_spec() }
    open spec fn div_assign_req(&self, rhs: U) -> bool { DivAssignSpec::<U>::div_assign_req(&self.val, rhs) }
    open spec fn div_assign_spec(&self, rhs: U) -> &Bound<T> { &Bound { val: *DivAssignSpec::<U>::div_assign_spec(&self.val, rhs), is_closed: self.is_closed } }
}

impl<T, U> vstd::std_specs::ops::DivSpecImpl<U> for LowerBound<T> where T: Ord + Div<U, Output = T> {
    open spec fn obeys_div_spec() -> bool { <T as DivSpec<U>>::obeys_div_spec() }
    open spec fn div_req(self, rhs: U) -> bool { DivSpec::<U>::div_req(self.bound, rhs) }
    open spec fn div_spec(self, rhs: U) -> LowerBound<T> { LowerBound { bound: DivSpec::<U>::div_spec(self.bound, rhs) } }
}
impl<T, U> vstd::std_specs::ops::DivAssignSpecImpl<U> for LowerBound<T> where T: Ord + DivAssign<U> {
    open spec fn obeys_div_assign_spec() -> bool { <T as DivAssignSpec<U>>::obeys_div_assign_spec() }
    open spec fn div_assign_req(&self, rhs: U) -> bool { DivAssignSpec::<U>::div_assign_req(&self.bound, rhs) }
    open spec fn div_assign_spec(&self, rhs: U) -> &LowerBound<T> { &LowerBound { bound: *DivAssignSpec::<U>::div_assign_spec(&self.bound, rhs) } }
}

impl<T, U> vstd::std_specs::ops::DivSpecImpl<U> for UpperBound<T> where T: Ord + Div<U, Output = T> {
    open spec fn obeys_div_spec() -> bool { <T as DivSpec<U>>::obeys_div_spec() }
    open spec fn div_req(self, rhs: U) -> bool { DivSpec::<U>::div_req(self.bound, rhs) }
    open spec fn div_spec(self, rhs: U) -> UpperBound<T> { UpperBound { bound: DivSpec::<U>::div_spec(self.bound, rhs) } }
}
impl<T, U> vstd::std_specs::ops::DivAssignSpecImpl<U> for UpperBound<T> where T: Ord + DivAssign<U> {
    open spec fn obeys_div_assign_spec() -> bool { <T as DivAssignSpec<U>>::obeys_div_assign_spec() }
    open spec fn div_assign_req(&self, rhs: U) -> bool { DivAssignSpec::<U>::div_assign_req(&self.bound, rhs) }
    open spec fn div_assign_spec(&self, rhs: U) -> &UpperBound<T> { &UpperBound { bound: *DivAssignSpec::<U>::div_assign_spec(&self.bound, rhs) } }
}


pub open spec fn pair_ok<T: Ord>(lo: T, loc: bool, up: T, upc: bool) -> bool {
    cm(lo, up) == Less || cm(lo, up) == Equal && loc && upc
}
// the representation invariant: empty, or lower < upper, or equal values with both bounds closed
pub open spec fn wf<T: Ord>(i: Interval<T>) -> bool {
    match i.imp {
        None => true,
        Some(n) => pair_ok(n.lo.bound.val, n.lo.bound.is_closed, n.up.bound.val, n.up.bound.is_closed),
    }
}
pub open spec fn lo_of<T: Ord>(i: Interval<T>) -> LowerBound<T> { i.imp.unwrap().lo }
pub open spec fn up_of<T: Ord>(i: Interval<T>) -> UpperBound<T> { i.imp.unwrap().up }
pub open spec fn has<T: Ord>(i: Interval<T>, x: T) -> bool {
    i.imp.is_some() && lo_admits(lo_of(i), x) && up_admits(up_of(i), x)
}
pub open spec fn mk<T: Ord>(lo: LowerBound<T>, up: UpperBound<T>) -> Interval<T> {
    Interval { imp: Some(NonEmptyInterval { lo, up }) }
}
pub open spec fn nil<T: Ord>() -> Interval<T> { Interval { imp: None } }
pub open spec fn lmax<T: Ord>(a: LowerBound<T>, b: LowerBound<T>) -> LowerBound<T> { if lcmp(a, b) == Greater { a } else { b } }
pub open spec fn lmin<T: Ord>(a: LowerBound<T>, b: LowerBound<T>) -> LowerBound<T> { if lcmp(a, b) == Greater { b } else { a } }
pub open spec fn umax<T: Ord>(a: UpperBound<T>, b: UpperBound<T>) -> UpperBound<T> { if ucmp(a, b) == Greater { a } else { b } }
pub open spec fn umin<T: Ord>(a: UpperBound<T>, b: UpperBound<T>) -> UpperBound<T> { if ucmp(a, b) == Greater { b } else { a } }
// equality up to ==-equal end point values (values that compare equal are interchangeable)
pub open spec fn ieq<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    a.imp.is_some() == b.imp.is_some() && (a.imp.is_some() ==> lcmp(lo_of(a), lo_of(b)) == Equal && ucmp(up_of(a), up_of(b)) == Equal)
}
pub open spec fn shares<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    a.imp.is_some() && b.imp.is_some() && !exceeds(lo_of(a), up_of(b)) && !exceeds(lo_of(b), up_of(a))
}
pub open spec fn meet<T: Ord>(a: Interval<T>, b: Interval<T>) -> Interval<T> {
    if shares(a, b) { mk(lmax(lo_of(a), lo_of(b)), umin(up_of(a), up_of(b))) } else { nil() }
}
pub open spec fn mergeable<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    a.imp.is_none() || b.imp.is_none() || !separated(lo_of(a), up_of(b)) && !separated(lo_of(b), up_of(a))
}
pub open spec fn hull<T: Ord>(a: Interval<T>, b: Interval<T>) -> Interval<T> {
    if b.imp.is_none() { a } else if a.imp.is_none() { b }
    else { mk(lmin(lo_of(a), lo_of(b)), umax(up_of(a), up_of(b))) }
}
pub open spec fn includes<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    b.imp.is_none() || a.imp.is_some() && lcmp(lo_of(a), lo_of(b)) != Greater && ucmp(up_of(a), up_of(b)) != Less
}
pub open spec fn before<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    a.imp.is_some() && b.imp.is_some() && exceeds(lo_of(b), up_of(a))
}
pub open spec fn before_eq<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    a.imp.is_some() && b.imp.is_some() && le(up_of(a).bound.val, lo_of(b).bound.val)
}
// the interval spanned by two end points that may come out reversed or equal
pub open spec fn spanned<T: Ord>(lo: Bound<T>, up: Bound<T>) -> Interval<T> {
    let (l, u) = if cm(lo.val, up.val) == Greater { (up, lo) } else { (lo, up) };
    if cm(l.val, u.val) == Equal && (!l.is_closed || !u.is_closed) { nil() }
    else { mk(LowerBound { bound: l }, UpperBound { bound: u }) }
}

impl<T: Ord> vstd::std_specs::cmp::PartialEqSpecImpl for NonEmptyInterval<T> {
    open spec fn obeys_eq_spec() -> bool { lawful::<T>() }
    open spec fn eq_spec(&self, o: &NonEmptyInterval<T>) -> bool { lcmp(self.lo, o.lo) == Equal && ucmp(self.up, o.up) == Equal }
}
impl<T: Ord> vstd::std_specs::cmp::PartialEqSpecImpl for Interval<T> {
    open spec fn obeys_eq_spec() -> bool { lawful::<T>() }
    open spec fn eq_spec(&self, o: &Interval<T>) -> bool { ieq(*self, *o) }
}

// I02: inclusion of bounds is inclusion of points
proof fn lemma_includes_points<T: Ord>(a: Interval<T>, b: Interval<T>, x: T)
    requires lawful::<T>(), includes(a, b), has(b, x),
    ensures has(a, x),
{}
// I03: the meet holds exactly the common points; it is well formed and symmetric
proof fn lemma_meet_points<T: Ord>(a: Interval<T>, b: Interval<T>, x: T)
    requires lawful::<T>(), wf(a), wf(b),
    ensures has(meet(a, b), x) <==> has(a, x) && has(b, x),
{}
proof fn lemma_meet_wf_sym<T: Ord>(a: Interval<T>, b: Interval<T>)
    requires lawful::<T>(), wf(a), wf(b),
    ensures wf(meet(a, b)), ieq(meet(a, b), meet(b, a)), shares(a, b) == shares(b, a),
{}
proof fn lemma_sharing_by_witness<T: Ord>(a: Interval<T>, b: Interval<T>, x: T)
    requires lawful::<T>(), wf(a), wf(b), has(a, x), has(b, x),
    ensures shares(a, b),
{}
// I04: a merge covers both operands; when mergeable, every point of the hull is in one of them
proof fn lemma_hull_points<T: Ord>(a: Interval<T>, b: Interval<T>, x: T)
    requires lawful::<T>(), wf(a), wf(b),
    ensures
        has(a, x) || has(b, x) ==> has(hull(a, b), x),
        mergeable(a, b) ==> (has(hull(a, b), x) <==> has(a, x) || has(b, x)),
{}
// I04: and when not mergeable the union is not an interval: the gap separates them
proof fn lemma_gap<T: Ord>(a: Interval<T>, b: Interval<T>, x: T)
    requires lawful::<T>(), wf(a), wf(b), !mergeable(a, b),
    ensures !shares(a, b), mergeable(b, a) == mergeable(a, b),
{}
// I05: the hull is well formed, symmetric, contains both, and is the least such interval
proof fn lemma_hull_least<T: Ord>(a: Interval<T>, b: Interval<T>, c: Interval<T>)
    requires lawful::<T>(), wf(a), wf(b), wf(c),
    ensures
        wf(hull(a, b)), ieq(hull(a, b), hull(b, a)),
        includes(hull(a, b), a), includes(hull(a, b), b),
        includes(c, a) && includes(c, b) ==> includes(c, hull(a, b)),
{}
// I06: before means every point of a is before every point of b
proof fn lemma_before_points<T: Ord>(a: Interval<T>, b: Interval<T>, x: T, y: T)
    requires lawful::<T>(), wf(a), wf(b), before(a, b), has(a, x), has(b, y),
    ensures cm(x, y) == Less,
{}
// I08: spanned end points always give a well formed interval
proof fn lemma_spanned_wf<T: Ord>(l: Bound<T>, u: Bound<T>)
    requires lawful::<T>(),
    ensures wf(spanned(l, u)),
{}

@fn Bound::val
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: *$r == self.val
@fn Bound::is_closed
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: $r == self.is_closed
@fn Bound::new
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: $r.val == $0 && $r.is_closed == $1
@fn Bound::into_tuple
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: $r.0 == self.val && $r.1 == self.is_closed
@fn <Bound as PartialEq>::eq
@ens I06,I07,I09: lawful::<T>() ==> $r == (self.val.eq_spec(&$0.val) && self.is_closed == $0.is_closed)
@fn <Bound as PartialEq>::ne
@ens I06,I09: lawful::<T>() ==> $r == !(self.val.eq_spec(&$0.val) && self.is_closed == $0.is_closed)

@fn <Bound as Add<U>>::add
@ens I08: <T as AddSpec<U>>::obeys_add_spec() ==> $r.val == AddSpec::<U>::add_spec(self.val, $0) && $r.is_closed == self.is_closed
@fn <Bound as AddAssign<U>>::add_assign
@ens I08: <T as AddAssignSpec<U>>::obeys_add_assign_spec() ==> final(self).val == *AddAssignSpec::<U>::add_assign_spec(&old(self).val, $0) && final(self).is_closed == old(self).is_closed

@fn <LowerBound as Add<U>>::add
@ens I08: <T as AddSpec<U>>::obeys_add_spec() ==> $r.bound.val == AddSpec::<U>::add_spec(self.bound.val, $0) && $r.bound.is_closed == self.bound.is_closed
@fn <LowerBound as AddAssign<U>>::add_assign
@ens I08: <T as AddAssignSpec<U>>::obeys_add_assign_spec() ==> final(self).bound.val == *AddAssignSpec::<U>::add_assign_spec(&old(self).bound.val, $0) && final(self).bound.is_closed == old(self).bound.is_closed

@fn <UpperBound as Add<U>>::add
@ens I08: <T as AddSpec<U>>::obeys_add_spec() ==> $r.bound.val == AddSpec::<U>::add_spec(self.bound.val, $0) && $r.bound.is_closed == self.bound.is_closed
@fn <UpperBound as AddAssign<U>>::add_assign
@ens I08: <T as AddAssignSpec<U>>::obeys_add_assign_spec() ==> final(self).bound.val == *AddAssignSpec::<U>::add_assign_spec(&old(self).bound.val, $0) && final(self).bound.is_closed == old(self).bound.is_closed

@fn <Bound as Sub<U>>::sub
@ens I08: <T as SubSpec<U>>::obeys_sub_spec() ==> $r.val == SubSpec::<U>::sub_spec(self.val, $0) && $r.is_closed == self.is_closed
@fn <Bound as SubAssign<U>>::sub_assign
@ens I08: <T as SubAssignSpec<U>>::obeys_sub_assign_spec() ==> final(self).val == *SubAssignSpec::<U>::sub_assign_spec(&old(self).val, $0) && final(self).is_closed == old(self).is_closed

@fn <LowerBound as Sub<U>>::sub
@ens I08: <T as SubSpec<U>>::obeys_sub_spec() ==> $r.bound.val == SubSpec::<U>::sub_spec(self.bound.val, $0) && $r.bound.is_closed == self.bound.is_closed
@fn <LowerBound as SubAssign<U>>::sub_assign
@ens I08: <T as SubAssignSpec<U>>::obeys_sub_assign_spec() ==> final(self).bound.val == *SubAssignSpec::<U>::sub_assign_spec(&old(self).bound.val, $0) && final(self).bound.is_closed == old(self).bound.is_closed

@fn <UpperBound as Sub<U>>::sub
@ens I08: <T as SubSpec<U>>::obeys_sub_spec() ==> $r.bound.val == SubSpec::<U>::sub_spec(self.bound.val, $0) && $r.bound.is_closed == self.bound.is_closed
@fn <UpperBound as SubAssign<U>>::sub_assign
@ens I08: <T as SubAssignSpec<U>>::obeys_sub_assign_spec() ==> final(self).bound.val == *SubAssignSpec::<U>::sub_assign_spec(&old(self).bound.val, $0) && final(self).bound.is_closed == old(self).bound.is_closed

@fn <Bound as Mul<U>>::mul
@ens I08: <T as MulSpec<U>>::obeys_mul_spec() ==> $r.val == MulSpec::<U>::mul_spec(self.val, $0) && $r.is_closed == self.is_closed
@fn <Bound as MulAssign<U>>::mul_assign
@ens I08: <T as MulAssignSpec<U>>::obeys_mul_assign_spec() ==> final(self).val == *MulAssignSpec::<U>::mul_assign_spec(&old(self).val, $0) && final(self).is_closed == old(self).is_closed

@fn <LowerBound as Mul<U>>::mul
@ens I08: <T as MulSpec<U>>::obeys_mul_spec() ==> $r.bound.val == MulSpec::<U>::mul_spec(self.bound.val, $0) && $r.bound.is_closed == self.bound.is_closed
@fn <LowerBound as MulAssign<U>>::mul_assign
@ens I08: <T as MulAssignSpec<U>>::obeys_mul_assign_spec() ==> final(self).bound.val == *MulAssignSpec::<U>::mul_assign_spec(&old(self).bound.val, $0) && final(self).bound.is_closed == old(self).bound.is_closed

@fn <UpperBound as Mul<U>>::mul
@ens I08: <T as MulSpec<U>>::obeys_mul_spec() ==> $r.bound.val == MulSpec::<U>::mul_spec(self.bound.val, $0) && $r.bound.is_closed == self.bound.is_closed
@fn <UpperBound as MulAssign<U>>::mul_assign
@ens I08: <T as MulAssignSpec<U>>::obeys_mul_assign_spec() ==> final(self).bound.val == *MulAssignSpec::<U>::mul_assign_spec(&old(self).bound.val, $0) && final(self).bound.is_closed == old(self).bound.is_closed

@fn <Bound as Div<U>>::div
@ens I08: <T as DivSpec<U>>::obeys_div_spec() ==> $r.val == DivSpec::<U>::div_spec(self.val, $0) && $r.is_closed == self.is_closed
@fn <Bound as DivAssign<U>>::div_assign
@ens I08: <T as DivAssignSpec<U>>::obeys_div_assign_spec() ==> final(self).val == *DivAssignSpec::<U>::div_assign_spec(&old(self).val, $0) && final(self).is_closed == old(self).is_closed

@fn <LowerBound as Div<U>>::div
@ens I08: <T as DivSpec<U>>::obeys_div_spec() ==> $r.bound.val == DivSpec::<U>::div_spec(self.bound.val, $0) && $r.bound.is_closed == self.bound.is_closed
@fn <LowerBound as DivAssign<U>>::div_assign
@ens I08: <T as DivAssignSpec<U>>::obeys_div_assign_spec() ==> final(self).bound.val == *DivAssignSpec::<U>::div_assign_spec(&old(self).bound.val, $0) && final(self).bound.is_closed == old(self).bound.is_closed

@fn <UpperBound as Div<U>>::div
@ens I08: <T as DivSpec<U>>::obeys_div_spec() ==> $r.bound.val == DivSpec::<U>::div_spec(self.bound.val, $0) && $r.bound.is_closed == self.bound.is_closed
@fn <UpperBound as DivAssign<U>>::div_assign
@ens I08: <T as DivAssignSpec<U>>::obeys_div_assign_spec() ==> final(self).bound.val == *DivAssignSpec::<U>::div_assign_spec(&old(self).bound.val, $0) && final(self).bound.is_closed == old(self).bound.is_closed

@fn LowerBound::is_separated_from
@req : lawful::<T>()
@ens I07,I04: $r == separated(*self, *$0)
@fn LowerBound::new
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: $r.bound.val == $0 && $r.bound.is_closed == $1
@fn LowerBound::val
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: *$r == self.bound.val
@fn LowerBound::is_closed
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: $r == self.bound.is_closed
@fn LowerBound::into_tuple
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: $r.0 == self.bound.val && $r.1 == self.bound.is_closed

@fn <LowerBound as PartialEq>::eq
@ens I06,I07,I09: lawful::<T>() ==> ($r <==> lcmp(*self, *$0) == Equal)
@fn <LowerBound as PartialEq>::ne
@ens I06,I07,I09: lawful::<T>() ==> ($r <==> lcmp(*self, *$0) != Equal)
@fn <LowerBound as Ord>::cmp
@ens I03,I04,I05,I07,I09: lawful::<T>() ==> $r == lcmp(*self, *$0)
@fn <LowerBound as Ord>::max
@ens I03,I04,I05,I07: lawful::<T>() ==> $r == (if lcmp(self, $0) == Greater { self } else { $0 })
@fn <LowerBound as Ord>::min
@ens I03,I04,I05,I07: lawful::<T>() ==> $r == (if lcmp(self, $0) == Greater { $0 } else { self })
@fn <LowerBound as PartialOrd>::partial_cmp
@ens I07,I09: lawful::<T>() ==> $r == Some(lcmp(*self, *$0))
@fn <LowerBound as PartialOrd>::lt
@ens I03,I04,I05,I07,I09: lawful::<T>() ==> ($r <==> lcmp(*self, *$0) == Less)
@fn <LowerBound as PartialOrd>::le
@ens I02,I07,I09: lawful::<T>() ==> ($r <==> lcmp(*self, *$0) != Greater)
@fn <LowerBound as PartialOrd>::gt
@ens I03,I04,I05,I07,I09: lawful::<T>() ==> ($r <==> lcmp(*self, *$0) == Greater)
@fn <LowerBound as PartialOrd>::ge
@ens I02,I07,I09: lawful::<T>() ==> ($r <==> lcmp(*self, *$0) != Less)

@fn <LowerBound as PartialEq<T>>::eq
@ens I06,I07,I09: lawful::<T>() ==> ($r <==> lvcmp(*self, *$0) == Equal)
@fn <LowerBound as PartialEq<T>>::ne
@ens I07,I09: lawful::<T>() ==> ($r <==> lvcmp(*self, *$0) != Equal)
@fn <LowerBound as PartialOrd<T>>::partial_cmp
@ens I07,I09: lawful::<T>() ==> $r == Some(lvcmp(*self, *$0))
@fn <LowerBound as PartialOrd<T>>::lt
@ens I02,I06,I07,I09: lawful::<T>() ==> ($r <==> lvcmp(*self, *$0) == Less)
@fn <LowerBound as PartialOrd<T>>::le
@ens I07,I09: lawful::<T>() ==> ($r <==> lvcmp(*self, *$0) != Greater)
@fn <LowerBound as PartialOrd<T>>::gt
@ens I02,I06,I07,I09: lawful::<T>() ==> ($r <==> lvcmp(*self, *$0) == Greater)
@fn <LowerBound as PartialOrd<T>>::ge
@ens I07,I09: lawful::<T>() ==> ($r <==> lvcmp(*self, *$0) != Less)

@fn <LowerBound as PartialEq<UpperBound>>::eq
@ens I07,I09: !$r
@fn <LowerBound as PartialEq<UpperBound>>::ne
@ens I07,I09: $r

@fn <LowerBound as PartialOrd<UpperBound>>::gt
@ens I02,I03,I06,I07,I09: lawful::<T>() ==> ($r <==> exceeds(*self, *$0))
@fn <LowerBound as PartialOrd<UpperBound>>::lt
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) != Equal ==> ($r <==> cm(self.bound.val, $0.bound.val) == Less)
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) == Equal && self.bound.is_closed && $0.bound.is_closed ==> !$r
@fn <LowerBound as PartialOrd<UpperBound>>::le
@ens I09: lawful::<T>() ==> ($r <==> cm(self.bound.val, $0.bound.val) != Greater)
@fn <LowerBound as PartialOrd<UpperBound>>::ge
@ens I06,I09: lawful::<T>() ==> ($r <==> cm(self.bound.val, $0.bound.val) != Less)
@fn <LowerBound as PartialOrd<UpperBound>>::partial_cmp
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) != Equal ==> $r == Some(cm(self.bound.val, $0.bound.val))
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) == Equal && self.bound.is_closed && $0.bound.is_closed ==> $r == None::<Ordering>

@fn UpperBound::is_separated_from
@req : lawful::<T>()
@ens I07,I04: $r == separated(*$0, *self)
@fn UpperBound::new
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: $r.bound.val == $0 && $r.bound.is_closed == $1
@fn UpperBound::val
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: *$r == self.bound.val
@fn UpperBound::is_closed
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: $r == self.bound.is_closed
@fn UpperBound::into_tuple
@ens I01,I02,I03,I04,I05,I06,I07,I08,I09: $r.0 == self.bound.val && $r.1 == self.bound.is_closed

@fn <UpperBound as PartialEq>::eq
@ens I06,I07,I09: lawful::<T>() ==> ($r <==> ucmp(*self, *$0) == Equal)
@fn <UpperBound as PartialEq>::ne
@ens I06,I07,I09: lawful::<T>() ==> ($r <==> ucmp(*self, *$0) != Equal)
@fn <UpperBound as Ord>::cmp
@ens I03,I04,I05,I07,I09: lawful::<T>() ==> $r == ucmp(*self, *$0)
@fn <UpperBound as Ord>::max
@ens I03,I04,I05,I07: lawful::<T>() ==> $r == (if ucmp(self, $0) == Greater { self } else { $0 })
@fn <UpperBound as Ord>::min
@ens I03,I04,I05,I07: lawful::<T>() ==> $r == (if ucmp(self, $0) == Greater { $0 } else { self })
@fn <UpperBound as PartialOrd>::partial_cmp
@ens I07,I09: lawful::<T>() ==> $r == Some(ucmp(*self, *$0))
@fn <UpperBound as PartialOrd>::lt
@ens I03,I04,I05,I07,I09: lawful::<T>() ==> ($r <==> ucmp(*self, *$0) == Less)
@fn <UpperBound as PartialOrd>::le
@ens I02,I07,I09: lawful::<T>() ==> ($r <==> ucmp(*self, *$0) != Greater)
@fn <UpperBound as PartialOrd>::gt
@ens I03,I04,I05,I07,I09: lawful::<T>() ==> ($r <==> ucmp(*self, *$0) == Greater)
@fn <UpperBound as PartialOrd>::ge
@ens I02,I07,I09: lawful::<T>() ==> ($r <==> ucmp(*self, *$0) != Less)

@fn <UpperBound as PartialEq<T>>::eq
@ens I06,I07,I09: lawful::<T>() ==> ($r <==> uvcmp(*self, *$0) == Equal)
@fn <UpperBound as PartialEq<T>>::ne
@ens I07,I09: lawful::<T>() ==> ($r <==> uvcmp(*self, *$0) != Equal)
@fn <UpperBound as PartialOrd<T>>::partial_cmp
@ens I07,I09: lawful::<T>() ==> $r == Some(uvcmp(*self, *$0))
@fn <UpperBound as PartialOrd<T>>::lt
@ens I02,I06,I07,I09: lawful::<T>() ==> ($r <==> uvcmp(*self, *$0) == Less)
@fn <UpperBound as PartialOrd<T>>::le
@ens I07,I09: lawful::<T>() ==> ($r <==> uvcmp(*self, *$0) != Greater)
@fn <UpperBound as PartialOrd<T>>::gt
@ens I02,I06,I07,I09: lawful::<T>() ==> ($r <==> uvcmp(*self, *$0) == Greater)
@fn <UpperBound as PartialOrd<T>>::ge
@ens I07,I09: lawful::<T>() ==> ($r <==> uvcmp(*self, *$0) != Less)

@fn <UpperBound as PartialEq<LowerBound>>::eq
@ens I07,I09: !$r
@fn <UpperBound as PartialEq<LowerBound>>::ne
@ens I07,I09: $r

@fn <UpperBound as PartialOrd<LowerBound>>::lt
@ens I02,I03,I06,I07,I09: lawful::<T>() ==> ($r <==> exceeds(*$0, *self))
@fn <UpperBound as PartialOrd<LowerBound>>::gt
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) != Equal ==> ($r <==> cm(self.bound.val, $0.bound.val) == Greater)
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) == Equal && self.bound.is_closed && $0.bound.is_closed ==> !$r
@fn <UpperBound as PartialOrd<LowerBound>>::le
@ens I06,I09: lawful::<T>() ==> ($r <==> cm(self.bound.val, $0.bound.val) != Greater)
@fn <UpperBound as PartialOrd<LowerBound>>::ge
@ens I09: lawful::<T>() ==> ($r <==> cm(self.bound.val, $0.bound.val) != Less)
@fn <UpperBound as PartialOrd<LowerBound>>::partial_cmp
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) != Equal ==> $r == Some(cm(self.bound.val, $0.bound.val))
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) == Equal && self.bound.is_closed && $0.bound.is_closed ==> $r == None::<Ordering>

@fn LowerBound::swap
@ens I01,I08: final(self).bound == old($0).bound && final($0).bound == old(self).bound
@fn are_separated
@req : lawful::<T>()
@ens I04,I07: $r == separated(*$0, *$1)

@fn <NonEmptyInterval as PartialEq>::eq
@ens I06,I09: lawful::<T>() ==> ($r <==> lcmp(self.lo, $0.lo) == Equal && ucmp(self.up, $0.up) == Equal)
@fn <Interval as PartialEq>::eq
@ens I06,I09: lawful::<T>() ==> ($r <==> ieq(*self, *$0))
@fn <Interval as PartialEq>::ne
@ens I06,I09: lawful::<T>() ==> ($r <==> !ieq(*self, *$0))

@fn Interval::new
@req : lawful::<T>()
@nopanic I01: pair_ok($0, $1, $2, $3)
@ens I01: $r == mk(LowerBound { bound: Bound { val: $0, is_closed: $1 } }, UpperBound { bound: Bound { val: $2, is_closed: $3 } }) && wf($r)
@fn Interval::from_bounds
@req : lawful::<T>()
@nopanic I01,I03,I04,I05: pair_ok($0.bound.val, $0.bound.is_closed, $1.bound.val, $1.bound.is_closed)
@ens I01,I03,I04,I05: $r == mk($0, $1) && wf($r)
@fn Interval::create_checked
@req : lawful::<T>()
@nopanic I01,I03,I04,I05: pair_ok($0, $1, $2, $3)
@ens I01,I03,I04,I05: $r == mk(LowerBound { bound: Bound { val: $0, is_closed: $1 } }, UpperBound { bound: Bound { val: $2, is_closed: $3 } }) && wf($r)
@fn Interval::create_friendly
@req : lawful::<T>()
@ens I01,I08: $r == spanned(Bound { val: $0, is_closed: $1 }, Bound { val: $2, is_closed: $3 }) && wf($r)
@fn Interval::single
@req : lawful::<T>()
@req : clones::<T>()
@ens I01: $r == mk(LowerBound { bound: Bound { val: $0, is_closed: true } }, UpperBound { bound: Bound { val: $0, is_closed: true } }) && wf($r)
@fn Interval::open
@req : lawful::<T>()
@nopanic I01: pair_ok($0, false, $1, false)
@ens I01: $r == mk(LowerBound { bound: Bound { val: $0, is_closed: false } }, UpperBound { bound: Bound { val: $1, is_closed: false } }) && wf($r)
@fn Interval::closed
@req : lawful::<T>()
@nopanic I01: pair_ok($0, true, $1, true)
@ens I01: $r == mk(LowerBound { bound: Bound { val: $0, is_closed: true } }, UpperBound { bound: Bound { val: $1, is_closed: true } }) && wf($r)
@fn Interval::lower_closed
@req : lawful::<T>()
@nopanic I01: pair_ok($0, true, $1, false)
@ens I01: $r == mk(LowerBound { bound: Bound { val: $0, is_closed: true } }, UpperBound { bound: Bound { val: $1, is_closed: false } }) && wf($r)
@fn Interval::upper_closed
@req : lawful::<T>()
@nopanic I01: pair_ok($0, false, $1, true)
@ens I01: $r == mk(LowerBound { bound: Bound { val: $0, is_closed: false } }, UpperBound { bound: Bound { val: $1, is_closed: true } }) && wf($r)

@fn Interval::empty
@ens I01,I03,I08: $r == nil::<T>() && wf($r)
@fn Interval::into_tuple
@ens I01,I08: $r == (match self.imp { None => None::<(T, bool, T, bool)>, Some(n) => Some((n.lo.bound.val, n.lo.bound.is_closed, n.up.bound.val, n.up.bound.is_closed)) })
@fn Interval::into_bounds
@ens I01,I03,I04,I05: $r == (match self.imp { None => None::<(LowerBound<T>, UpperBound<T>)>, Some(n) => Some((n.lo, n.up)) })
@fn Interval::fix_after_modification
@req : lawful::<T>()
@ens I01,I08: *final(self) == (match old(self).imp { None => nil::<T>(), Some(n) => spanned(n.lo.bound, n.up.bound) }) && wf(*final(self))
@fn Interval::upper
@ens I01,I02,I03,I06,I09: $r == (match self.imp { None => None::<&UpperBound<T>>, Some(n) => Some(&n.up) })
@fn Interval::lower
@ens I01,I02,I03,I06,I09: $r == (match self.imp { None => None::<&LowerBound<T>>, Some(n) => Some(&n.lo) })
@fn Interval::bounds
@ens I01,I02,I04,I06,I09: $r == (match self.imp { None => None::<(&LowerBound<T>, &UpperBound<T>)>, Some(n) => Some((&n.lo, &n.up)) })
@fn Interval::is_empty
@ens I01,I02,I03,I04,I05: $r == self.imp.is_none()
@fn Interval::is_single
@req : lawful::<T>()
@ens I01: $r == (self.imp.is_some() && cm(lo_of(*self).bound.val, up_of(*self).bound.val) == Equal)
@ens I01: wf(*self) && $r ==> lo_of(*self).bound.is_closed && up_of(*self).bound.is_closed
@fn Interval::is_lower_closed
@ens I01: $r == (match self.imp { None => None::<bool>, Some(n) => Some(n.lo.bound.is_closed) })
@fn Interval::is_upper_closed
@ens I01: $r == (match self.imp { None => None::<bool>, Some(n) => Some(n.up.bound.is_closed) })

@fn Interval::contains_val
@req : lawful::<T>()
@req : wf(*self)
@ens I02: $r == has(*self, *$0)
@fn Interval::contains_interval
@req : lawful::<T>()
@req : wf(*self)
@req : wf(*$0)
@ens I02: $r == includes(*self, *$0)
@fn Interval::can_be_merged
@req : lawful::<T>()
@req : wf(*self)
@req : wf(*$0)
@ens I04: $r == mergeable(*self, *$0)
@fn Interval::into_merged
@req : lawful::<T>()
@req : wf(self)
@req : wf($0)
@ens I01,I04: mergeable(self, $0) ==> $r is Ok && ieq($r->Ok_0, hull(self, $0)) && wf($r->Ok_0)
@ens I04: !mergeable(self, $0) ==> $r == Err::<Interval<T>, (Interval<T>, Interval<T>)>((self, $0))
@fn Interval::merge
@req : lawful::<T>()
@req : wf(*old(self))
@req : wf($0)
@ens I01,I04: mergeable(*old(self), $0) ==> $r is Ok && ieq(*final(self), hull(*old(self), $0)) && wf(*final(self))
@ens I04: !mergeable(*old(self), $0) ==> $r == Err::<(), Interval<T>>($0) && *final(self) == *old(self)
@fn Interval::intersects
@req : lawful::<T>()
@req : wf(*self)
@req : wf(*$0)
@ens I03: $r == shares(*self, *$0)
@fn Interval::into_intersection
@req : lawful::<T>()
@req : wf(self)
@req : wf($0)
@ens I01,I03: ieq($r, meet(self, $0)) && wf($r)
@fn Interval::intersection
@req : lawful::<T>()
@req : wf(*old(self))
@req : wf($0)
@ens I01,I03: ieq(*final(self), meet(*old(self), $0)) && wf(*final(self))
@fn Interval::into_span
@req : lawful::<T>()
@req : wf(self)
@req : wf($0)
@ens I01,I05: ieq($r, hull(self, $0)) && wf($r)
@fn Interval::span
@req : lawful::<T>()
@req : wf(*old(self))
@req : wf($0)
@ens I01,I05: ieq(*final(self), hull(*old(self), $0)) && wf(*final(self))

@drop <Interval as Display> : formatting (write!) is outside the verifier's subset

@fn <Interval as PartialEq<T>>::eq
@ens I06,I09: lawful::<T>() ==> ($r <==> self.imp.is_some() && lvcmp(lo_of(*self), *$0) == Equal && uvcmp(up_of(*self), *$0) == Equal)
@fn <Interval as PartialEq<T>>::ne
@ens I06,I09: lawful::<T>() ==> ($r <==> !(self.imp.is_some() && lvcmp(lo_of(*self), *$0) == Equal && uvcmp(up_of(*self), *$0) == Equal))
@fn <Interval as PartialOrd<T>>::lt
@ens I02,I06,I09: lawful::<T>() ==> ($r <==> self.imp.is_some() && !up_admits(up_of(*self), *$0) && cm(up_of(*self).bound.val, *$0) != Greater)
@fn <Interval as PartialOrd<T>>::gt
@ens I02,I06,I09: lawful::<T>() ==> ($r <==> self.imp.is_some() && !lo_admits(lo_of(*self), *$0) && cm(lo_of(*self).bound.val, *$0) != Less)
@fn <Interval as PartialOrd<T>>::le
@ens I06: lawful::<T>() ==> ($r <==> self.imp.is_some() && le(up_of(*self).bound.val, *$0))
@fn <Interval as PartialOrd<T>>::ge
@ens I06: lawful::<T>() ==> ($r <==> self.imp.is_some() && le(*$0, lo_of(*self).bound.val))
@fn <Interval as PartialOrd<T>>::partial_cmp
@ens I06,I09: lawful::<T>() && wf(*self) ==> $r == (if self.imp.is_none() { None::<Ordering> } else if uvcmp(up_of(*self), *$0) == Less { Some(Less) } else if lvcmp(lo_of(*self), *$0) == Greater { Some(Greater) } else if lvcmp(lo_of(*self), *$0) == Equal && uvcmp(up_of(*self), *$0) == Equal { Some(Equal) } else { None::<Ordering> })

@fn <Interval as PartialOrd>::lt
@ens I02,I03,I06,I09: lawful::<T>() ==> ($r <==> before(*self, *$0))
@fn <Interval as PartialOrd>::gt
@ens I02,I03,I06,I09: lawful::<T>() ==> ($r <==> before(*$0, *self))
@fn <Interval as PartialOrd>::le
@ens I06: lawful::<T>() ==> ($r <==> before_eq(*self, *$0))
@fn <Interval as PartialOrd>::ge
@ens I06: lawful::<T>() ==> ($r <==> before_eq(*$0, *self))
@fn <Interval as PartialOrd>::partial_cmp
@ens I06,I09: lawful::<T>() && wf(*self) && wf(*$0) ==> $r == (if before(*self, *$0) { Some(Less) } else if before(*$0, *self) { Some(Greater) } else if ieq(*self, *$0) { Some(Equal) } else { None::<Ordering> })

@root

impl<T, U> vstd::std_specs::ops::AddSpecImpl<U> for Interval<T> where T: Ord + Add<U, Output = T>, U: Clone {
    open spec fn obeys_add_spec() -> bool { <T as AddSpec<U>>::obeys_add_spec() && lawful::<T>() && clones::<U>() }
    open spec fn add_req(self, rhs: U) -> bool {
        lawful::<T>() && clones::<U>() && (self.imp.is_some() ==> AddSpec::<U>::add_req(lo_of(self).bound.val, rhs) && AddSpec::<U>::add_req(up_of(self).bound.val, rhs))
    }
    open spec fn add_spec(self, rhs: U) -> Interval<T> {
        if self.imp.is_none() { nil() } else { spanned(
            Bound { val: AddSpec::<U>::add_spec(lo_of(self).bound.val, rhs), is_closed: lo_of(self).bound.is_closed },
            Bound { val: AddSpec::<U>::add_spec(up_of(self).bound.val, rhs), is_closed: up_of(self).bound.is_closed }) }
    }
}
impl<T> vstd::std_specs::ops::AddAssignSpecImpl<T> for Interval<T> where T: Ord + AddAssign + Clone {
    open spec fn obeys_add_assign_spec() -> bool { <T as AddAssignSpec<T>>::obeys_add_assign_spec() && lawful::<T>() && clones::<T>() }
    open spec fn add_assign_req(&self, rhs: T) -> bool {
        lawful::<T>() && clones::<T>() && (self.imp.is_some() ==> AddAssignSpec::<T>::add_assign_req(&lo_of(*self).bound.val, rhs) && AddAssignSpec::<T>::add_assign_req(&up_of(*self).bound.val, rhs))
    }
    open spec fn add_assign_spec(&self, rhs: T) -> &Interval<T> {
        &(if self.imp.is_none() { nil() } else { spanned(
            Bound { val: *AddAssignSpec::<T>::add_assign_spec(&lo_of(*self).bound.val, rhs), is_closed: lo_of(*self).bound.is_closed },
            Bound { val: *AddAssignSpec::<T>::add_assign_spec(&up_of(*self).bound.val, rhs), is_closed: up_of(*self).bound.is_closed }) })
    }
}

impl<T, U> vstd::std_specs::ops::SubSpecImpl<U> for Interval<T> where T: Ord + Sub<U, Output = T>, U: Clone {
    open spec fn obeys_sub_spec() -> bool { <T as SubSpec<U>>::obeys_sub_spec() && lawful::<T>() && clones::<U>() }
    open spec fn sub_req(self, rhs: U) -> bool {
        lawful::<T>() && clones::<U>() && (self.imp.is_some() ==> SubSpec::<U>::sub_req(lo_of(self).bound.val, rhs) && SubSpec::<U>::sub_req(up_of(self).bound.val, rhs))
    }
    open spec fn sub_spec(self, rhs: U) -> Interval<T> {
        if self.imp.is_none() { nil() } else { spanned(
            Bound { val: SubSpec::<U>::sub_spec(lo_of(self).bound.val, rhs), is_closed: lo_of(self).bound.is_closed },
            Bound { val: SubSpec::<U>::sub_spec(up_of(self).bound.val, rhs), is_closed: up_of(self).bound.is_closed }) }
    }
}
impl<T> vstd::std_specs::ops::SubAssignSpecImpl<T> for Interval<T> where T: Ord + SubAssign + Clone {
    open spec fn obeys_sub_assign_spec() -> bool { <T as SubAssignSpec<T>>::obeys_sub_assign_spec() && lawful::<T>() && clones::<T>() }
    open spec fn sub_assign_req(&self, rhs: T) -> bool {
        lawful::<T>() && clones::<T>() && (self.imp.is_some() ==> SubAssignSpec::<T>::sub_assign_req(&lo_of(*self).bound.val, rhs) && SubAssignSpec::<T>::sub_assign_req(&up_of(*self).bound.val, rhs))
    }
    open spec fn sub_assign_spec(&self, rhs: T) -> &Interval<T> {
        &(if self.imp.is_none() { nil() } else { spanned(
            Bound { val: *SubAssignSpec::<T>::sub_assign_spec(&lo_of(*self).bound.val, rhs), is_closed: lo_of(*self).bound.is_closed },
            Bound { val: *SubAssignSpec::<T>::sub_assign_spec(&up_of(*self).bound.val, rhs), is_closed: up_of(*self).bound.is_closed }) })
    }
}

impl<T, U> vstd::std_specs::ops::MulSpecImpl<U> for Interval<T> where T: Ord + Mul<U, Output = T>, U: Clone {
    open spec fn obeys_mul_spec() -> bool { <T as MulSpec<U>>::obeys_mul_spec() && lawful::<T>() && clones::<U>() }
    open spec fn mul_req(self, rhs: U) -> bool {
        lawful::<T>() && clones::<U>() && (self.imp.is_some() ==> MulSpec::<U>::mul_req(lo_of(self).bound.val, rhs) && MulSpec::<U>::mul_req(up_of(self).bound.val, rhs))
    }
    open spec fn mul_spec(self, rhs: U) -> Interval<T> {
        if self.imp.is_none() { nil() } else { spanned(
            Bound { val: MulSpec::<U>::mul_spec(lo_of(self).bound.val, rhs), is_closed: lo_of(self).bound.is_closed },
            Bound { val: MulSpec::<U>::mul_spec(up_of(self).bound.val, rhs), is_closed: up_of(self).bound.is_closed }) }
    }
}
impl<T> vstd::std_specs::ops::MulAssignSpecImpl<T> for Interval<T> where T: Ord + MulAssign + Clone {
    open spec fn obeys_mul_assign_spec() -> bool { <T as MulAssignSpec<T>>::obeys_mul_assign_spec() && lawful::<T>() && clones::<T>() }
    open spec fn mul_assign_req(&self, rhs: T) -> bool {
        lawful::<T>() && clones::<T>() && (self.imp.is_some() ==> MulAssignSpec::<T>::mul_assign_req(&lo_of(*self).bound.val, rhs) && MulAssignSpec::<T>::mul_assign_req(&up_of(*self).bound.val, rhs))
    }
    open spec fn mul_assign_spec(&self, rhs: T) -> &Interval<T> {
        &(if self.imp.is_none() { nil() } else { spanned(
            Bound { val: *MulAssignSpec::<T>::mul_assign_spec(&lo_of(*self).bound.val, rhs), is_closed: lo_of(*self).bound.is_closed },
            Bound { val: *MulAssignSpec::<T>::mul_assign_spec(&up_of(*self).bound.val, rhs), is_closed: up_of(*self).bound.is_closed }) })
    }
}

impl<T, U> vstd::std_specs::ops::DivSpecImpl<U> for Interval<T> where T: Ord + Div<U, Output = T>, U: Clone {
    open spec fn obeys_div_spec() -> bool { <T as DivSpec<U>>::obeys_div_spec() && lawful::<T>() && clones::<U>() }
    open spec fn div_req(self, rhs: U) -> bool {
        lawful::<T>() && clones::<U>() && (self.imp.is_some() ==> DivSpec::<U>::div_req(lo_of(self).bound.val, rhs) && DivSpec::<U>::div_req(up_of(self).bound.val, rhs))
    }
    open spec fn div_spec(self, rhs: U) -> Interval<T> {
        if self.imp.is_none() { nil() } else { spanned(
            Bound { val: DivSpec::<U>::div_spec(lo_of(self).bound.val, rhs), is_closed: lo_of(self).bound.is_closed },
            Bound { val: DivSpec::<U>::div_spec(up_of(self).bound.val, rhs), is_closed: up_of(self).bound.is_closed }) }
    }
}
impl<T> vstd::std_specs::ops::DivAssignSpecImpl<T> for Interval<T> where T: Ord + DivAssign + Clone {
    open spec fn obeys_div_assign_spec() -> bool { <T as DivAssignSpec<T>>::obeys_div_assign_spec() && lawful::<T>() && clones::<T>() }
    open spec fn div_assign_req(&self, rhs: T) -> bool {
        lawful::<T>() && clones::<T>() && (self.imp.is_some() ==> DivAssignSpec::<T>::div_assign_req(&lo_of(*self).bound.val, rhs) && DivAssignSpec::<T>::div_assign_req(&up_of(*self).bound.val, rhs))
    }
    open spec fn div_assign_spec(&self, rhs: T) -> &Interval<T> {
        &(if self.imp.is_none() { nil() } else { spanned(
            Bound { val: *DivAssignSpec::<T>::div_assign_spec(&lo_of(*self).bound.val, rhs), is_closed: lo_of(*self).bound.is_closed },
            Bound { val: *DivAssignSpec::<T>::div_assign_spec(&up_of(*self).bound.val, rhs), is_closed: up_of(*self).bound.is_closed }) })
    }
}

impl<T> vstd::std_specs::ops::NegSpecImpl for Interval<T> where T: Ord + Neg<Output = T> {
    open spec fn obeys_neg_spec() -> bool { <T as NegSpec>::obeys_neg_spec() && lawful::<T>() }
    open spec fn neg_req(self) -> bool {
        lawful::<T>() && (self.imp.is_some() ==> lo_of(self).bound.val.neg_req() && up_of(self).bound.val.neg_req())
    }
    open spec fn neg_spec(self) -> Interval<T> {
        if self.imp.is_none() { nil() } else { spanned(
            Bound { val: up_of(self).bound.val.neg_spec(), is_closed: up_of(self).bound.is_closed },
            Bound { val: lo_of(self).bound.val.neg_spec(), is_closed: lo_of(self).bound.is_closed }) }
    }
}
// I08: negation is an order-reversing involution => negating twice restores the interval
pub open spec fn negation<T: Ord + Neg<Output = T>>() -> bool {
    &&& <T as NegSpec>::obeys_neg_spec()
    &&& forall|a: T| #[trigger] a.neg_spec().neg_spec() == a
    &&& forall|a: T, b: T| #[trigger] cm(a.neg_spec(), b.neg_spec()) == cm(b, a)
}
proof fn lemma_double_negation<T: Ord + Neg<Output = T>>(i: Interval<T>)
    requires lawful::<T>(), negation::<T>(), wf(i),
    ensures i.neg_spec().neg_spec() == i, wf(i.neg_spec()),
{
    if i.imp.is_some() {
        let (l, u) = (lo_of(i).bound, up_of(i).bound);
        assert(cm(u.val.neg_spec(), l.val.neg_spec()) == cm(l.val, u.val));
    }
}
// I08 for a non-reversing step (translation): end points keep their places and their closedness
proof fn lemma_order_kept<T: Ord>(l: Bound<T>, u: Bound<T>)
    requires lawful::<T>(), cm(l.val, u.val) == Less,
    ensures spanned(l, u) == mk(LowerBound { bound: l }, UpperBound { bound: u }),
{}

@fn <Interval as Add<U>>::add
@ens I01,I08: <T as AddSpec<U>>::obeys_add_spec() && lawful::<T>() && clones::<U>() ==> wf($r) && $r == (if self.imp.is_none() { nil() } else { spanned(
            Bound { val: AddSpec::<U>::add_spec(lo_of(self).bound.val, $0), is_closed: lo_of(self).bound.is_closed },
            Bound { val: AddSpec::<U>::add_spec(up_of(self).bound.val, $0), is_closed: up_of(self).bound.is_closed }) })
@fn <Interval as AddAssign<T>>::add_assign
@ens I01,I08: <T as AddAssignSpec<T>>::obeys_add_assign_spec() && lawful::<T>() && clones::<T>() ==> wf(*final(self)) && *final(self) == (if old(self).imp.is_none() { nil() } else { spanned(
            Bound { val: *AddAssignSpec::<T>::add_assign_spec(&lo_of(*old(self)).bound.val, $0), is_closed: lo_of(*old(self)).bound.is_closed },
            Bound { val: *AddAssignSpec::<T>::add_assign_spec(&up_of(*old(self)).bound.val, $0), is_closed: up_of(*old(self)).bound.is_closed }) })

@fn <Interval as Sub<U>>::sub
@ens I01,I08: <T as SubSpec<U>>::obeys_sub_spec() && lawful::<T>() && clones::<U>() ==> wf($r) && $r == (if self.imp.is_none() { nil() } else { spanned(
            Bound { val: SubSpec::<U>::sub_spec(lo_of(self).bound.val, $0), is_closed: lo_of(self).bound.is_closed },
            Bound { val: SubSpec::<U>::sub_spec(up_of(self).bound.val, $0), is_closed: up_of(self).bound.is_closed }) })
@fn <Interval as SubAssign<T>>::sub_assign
@ens I01,I08: <T as SubAssignSpec<T>>::obeys_sub_assign_spec() && lawful::<T>() && clones::<T>() ==> wf(*final(self)) && *final(self) == (if old(self).imp.is_none() { nil() } else { spanned(
            Bound { val: *SubAssignSpec::<T>::sub_assign_spec(&lo_of(*old(self)).bound.val, $0), is_closed: lo_of(*old(self)).bound.is_closed },
            Bound { val: *SubAssignSpec::<T>::sub_assign_spec(&up_of(*old(self)).bound.val, $0), is_closed: up_of(*old(self)).bound.is_closed }) })

@fn <Interval as Mul<U>>::mul
@ens I01,I08: <T as MulSpec<U>>::obeys_mul_spec() && lawful::<T>() && clones::<U>() ==> wf($r) && $r == (if self.imp.is_none() { nil() } else { spanned(
            Bound { val: MulSpec::<U>::mul_spec(lo_of(self).bound.val, $0), is_closed: lo_of(self).bound.is_closed },
            Bound { val: MulSpec::<U>::mul_spec(up_of(self).bound.val, $0), is_closed: up_of(self).bound.is_closed }) })
@fn <Interval as MulAssign<T>>::mul_assign
@ens I01,I08: <T as MulAssignSpec<T>>::obeys_mul_assign_spec() && lawful::<T>() && clones::<T>() ==> wf(*final(self)) && *final(self) == (if old(self).imp.is_none() { nil() } else { spanned(
            Bound { val: *MulAssignSpec::<T>::mul_assign_spec(&lo_of(*old(self)).bound.val, $0), is_closed: lo_of(*old(self)).bound.is_closed },
            Bound { val: *MulAssignSpec::<T>::mul_assign_spec(&up_of(*old(self)).bound.val, $0), is_closed: up_of(*old(self)).bound.is_closed }) })

@fn <Interval as Div<U>>::div
@ens I01,I08: <T as DivSpec<U>>::obeys_div_spec() && lawful::<T>() && clones::<U>() ==> wf($r) && $r == (if self.imp.is_none() { nil() } else { spanned(
            Bound { val: DivSpec::<U>::div_spec(lo_of(self).bound.val, $0), is_closed: lo_of(self).bound.is_closed },
            Bound { val: DivSpec::<U>::div_spec(up_of(self).bound.val, $0), is_closed: up_of(self).bound.is_closed }) })
@fn <Interval as DivAssign<T>>::div_assign
@ens I01,I08: <T as DivAssignSpec<T>>::obeys_div_assign_spec() && lawful::<T>() && clones::<T>() ==> wf(*final(self)) && *final(self) == (if old(self).imp.is_none() { nil() } else { spanned(
            Bound { val: *DivAssignSpec::<T>::div_assign_spec(&lo_of(*old(self)).bound.val, $0), is_closed: lo_of(*old(self)).bound.is_closed },
            Bound { val: *DivAssignSpec::<T>::div_assign_spec(&up_of(*old(self)).bound.val, $0), is_closed: up_of(*old(self)).bound.is_closed }) })

@fn <Interval as Neg>::neg
@ens I01,I08: <T as NegSpec>::obeys_neg_spec() && lawful::<T>() ==> wf($r) && $r == (if self.imp.is_none() { nil() } else { spanned(
            Bound { val: up_of(self).bound.val.neg_spec(), is_closed: up_of(self).bound.is_closed },
            Bound { val: lo_of(self).bound.val.neg_spec(), is_closed: lo_of(self).bound.is_closed }) })

@fn <Bound as Clone>::clone
@ens I01,I07: clones::<T>() ==> $r == *self

@fn <LowerBound as Clone>::clone
@ens I01,I07: clones::<T>() ==> $r == *self

@fn <UpperBound as Clone>::clone
@ens I01,I07: clones::<T>() ==> $r == *self

@fn <NonEmptyInterval as Clone>::clone
@ens I01: clones::<T>() ==> $r == *self

@fn <Interval as Clone>::clone
@ens I01: clones::<T>() ==> $r == *self
