#!/usr/bin/env python3
# Writes interval.vc: interval.head.vc followed by the per-function contracts (the bounds and the four
# operators come in symmetric families, which is the only reason this is generated).
import os
here = os.path.dirname(os.path.abspath(__file__))
out = [open(os.path.join(here, 'interval.head.vc')).read()]
w = out.append
B = "I01,I02,I03,I04,I05,I06,I07,I08,I09"

OPS = [("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div")]

# ---- arithmetic specifications of the bounds
for tr, m in OPS:
    for ty, inner in (("Bound", "val"), ("LowerBound", "bound"), ("UpperBound", "bound")):
        mk = (lambda e: f"Bound {{ val: {e}, is_closed: self.is_closed }}") if ty == "Bound" else (lambda e: f"{ty} {{ bound: {e} }}")
        it = "T" if ty == "Bound" else "Bound<T>"
        w(f"""
impl<T, U> vstd::std_specs::ops::{tr}SpecImpl<U> for {ty}<T> where T: Ord + {tr}<U, Output = T> {{
    open spec fn obeys_{m}_spec() -> bool {{ <T as {tr}Spec<U>>::obeys_{m}_spec() }}
    open spec fn {m}_req(self, rhs: U) -> bool {{ {tr}Spec::<U>::{m}_req(self.{inner}, rhs) }}
    open spec fn {m}_spec(self, rhs: U) -> {ty}<T> {{ {mk(f"{tr}Spec::<U>::{m}_spec(self.{inner}, rhs)")} }}
}}
impl<T, U> vstd::std_specs::ops::{tr}AssignSpecImpl<U> for {ty}<T> where T: Ord + {tr}Assign<U> {{
    open spec fn obeys_{m}_assign_spec() -> bool {{ <T as {tr}AssignSpec<U>>::obeys_{m}_assign_spec() }}
    open spec fn {m}_assign_req(&self, rhs: U) -> bool {{ {tr}AssignSpec::<U>::{m}_assign_req(&self.{inner}, rhs) }}
    open spec fn {m}_assign_spec(&self, rhs: U) -> &{ty}<T> {{ &{mk(f"*{tr}AssignSpec::<U>::{m}_assign_spec(&self.{inner}, rhs)")} }}
}}
""")

w("""

pub open spec fn pair_ok<T: Ord>(lo: T, loc: bool, up: T, upc: bool) -> bool {
    cm(lo, up) == Less || cm(lo, up) == Equal && loc && upc
}
// the representation invariant: empty, or lower < upper, or equal values with both bounds closed
pub open spec fn wf<T: Ord>(i: Interval<T>) -> bool {
    match i.imp {
        None => true,
        Some(n) => pair_ok(n.lo.bound.val, n.lo.bound.is_closed, n.up.bound.val, n.up.bound.is_closed),
    }
}
pub open spec fn lo_of<T: Ord>(i: Interval<T>) -> LowerBound<T> { i.imp.unwrap().lo }
pub open spec fn up_of<T: Ord>(i: Interval<T>) -> UpperBound<T> { i.imp.unwrap().up }
pub open spec fn has<T: Ord>(i: Interval<T>, x: T) -> bool {
    i.imp.is_some() && lo_admits(lo_of(i), x) && up_admits(up_of(i), x)
}
pub open spec fn mk<T: Ord>(lo: LowerBound<T>, up: UpperBound<T>) -> Interval<T> {
    Interval { imp: Some(NonEmptyInterval { lo, up }) }
}
pub open spec fn nil<T: Ord>() -> Interval<T> { Interval { imp: None } }
pub open spec fn lmax<T: Ord>(a: LowerBound<T>, b: LowerBound<T>) -> LowerBound<T> { if lcmp(a, b) == Greater { a } else { b } }
pub open spec fn lmin<T: Ord>(a: LowerBound<T>, b: LowerBound<T>) -> LowerBound<T> { if lcmp(a, b) == Greater { b } else { a } }
pub open spec fn umax<T: Ord>(a: UpperBound<T>, b: UpperBound<T>) -> UpperBound<T> { if ucmp(a, b) == Greater { a } else { b } }
pub open spec fn umin<T: Ord>(a: UpperBound<T>, b: UpperBound<T>) -> UpperBound<T> { if ucmp(a, b) == Greater { b } else { a } }
// equality up to ==-equal end point values (values that compare equal are interchangeable)
pub open spec fn ieq<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    a.imp.is_some() == b.imp.is_some() && (a.imp.is_some() ==> lcmp(lo_of(a), lo_of(b)) == Equal && ucmp(up_of(a), up_of(b)) == Equal)
}
pub open spec fn shares<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    a.imp.is_some() && b.imp.is_some() && !exceeds(lo_of(a), up_of(b)) && !exceeds(lo_of(b), up_of(a))
}
pub open spec fn meet<T: Ord>(a: Interval<T>, b: Interval<T>) -> Interval<T> {
    if shares(a, b) { mk(lmax(lo_of(a), lo_of(b)), umin(up_of(a), up_of(b))) } else { nil() }
}
pub open spec fn mergeable<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    a.imp.is_none() || b.imp.is_none() || !separated(lo_of(a), up_of(b)) && !separated(lo_of(b), up_of(a))
}
pub open spec fn hull<T: Ord>(a: Interval<T>, b: Interval<T>) -> Interval<T> {
    if b.imp.is_none() { a } else if a.imp.is_none() { b }
    else { mk(lmin(lo_of(a), lo_of(b)), umax(up_of(a), up_of(b))) }
}
pub open spec fn includes<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    b.imp.is_none() || a.imp.is_some() && lcmp(lo_of(a), lo_of(b)) != Greater && ucmp(up_of(a), up_of(b)) != Less
}
pub open spec fn before<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    a.imp.is_some() && b.imp.is_some() && exceeds(lo_of(b), up_of(a))
}
pub open spec fn before_eq<T: Ord>(a: Interval<T>, b: Interval<T>) -> bool {
    a.imp.is_some() && b.imp.is_some() && le(up_of(a).bound.val, lo_of(b).bound.val)
}
// the interval spanned by two end points that may come out reversed or equal
pub open spec fn spanned<T: Ord>(lo: Bound<T>, up: Bound<T>) -> Interval<T> {
    let (l, u) = if cm(lo.val, up.val) == Greater { (up, lo) } else { (lo, up) };
    if cm(l.val, u.val) == Equal && (!l.is_closed || !u.is_closed) { nil() }
    else { mk(LowerBound { bound: l }, UpperBound { bound: u }) }
}

impl<T: Ord> vstd::std_specs::cmp::PartialEqSpecImpl for NonEmptyInterval<T> {
    open spec fn obeys_eq_spec() -> bool { lawful::<T>() }
    open spec fn eq_spec(&self, o: &NonEmptyInterval<T>) -> bool { lcmp(self.lo, o.lo) == Equal && ucmp(self.up, o.up) == Equal }
}
impl<T: Ord> vstd::std_specs::cmp::PartialEqSpecImpl for Interval<T> {
    open spec fn obeys_eq_spec() -> bool { lawful::<T>() }
    open spec fn eq_spec(&self, o: &Interval<T>) -> bool { ieq(*self, *o) }
}

// I02: inclusion of bounds is inclusion of points
proof fn lemma_includes_points<T: Ord>(a: Interval<T>, b: Interval<T>, x: T)
    requires lawful::<T>(), includes(a, b), has(b, x),
    ensures has(a, x),
{}
// I03: the meet holds exactly the common points; it is well formed and symmetric
proof fn lemma_meet_points<T: Ord>(a: Interval<T>, b: Interval<T>, x: T)
    requires lawful::<T>(), wf(a), wf(b),
    ensures has(meet(a, b), x) <==> has(a, x) && has(b, x),
{}
proof fn lemma_meet_wf_sym<T: Ord>(a: Interval<T>, b: Interval<T>)
    requires lawful::<T>(), wf(a), wf(b),
    ensures wf(meet(a, b)), ieq(meet(a, b), meet(b, a)), shares(a, b) == shares(b, a),
{}
proof fn lemma_sharing_by_witness<T: Ord>(a: Interval<T>, b: Interval<T>, x: T)
    requires lawful::<T>(), wf(a), wf(b), has(a, x), has(b, x),
    ensures shares(a, b),
{}
// I04: a merge covers both operands; when mergeable, every point of the hull is in one of them
proof fn lemma_hull_points<T: Ord>(a: Interval<T>, b: Interval<T>, x: T)
    requires lawful::<T>(), wf(a), wf(b),
    ensures
        has(a, x) || has(b, x) ==> has(hull(a, b), x),
        mergeable(a, b) ==> (has(hull(a, b), x) <==> has(a, x) || has(b, x)),
{}
// I04: and when not mergeable the union is not an interval: the gap separates them
proof fn lemma_gap<T: Ord>(a: Interval<T>, b: Interval<T>, x: T)
    requires lawful::<T>(), wf(a), wf(b), !mergeable(a, b),
    ensures !shares(a, b), mergeable(b, a) == mergeable(a, b),
{}
// I05: the hull is well formed, symmetric, contains both, and is the least such interval
proof fn lemma_hull_least<T: Ord>(a: Interval<T>, b: Interval<T>, c: Interval<T>)
    requires lawful::<T>(), wf(a), wf(b), wf(c),
    ensures
        wf(hull(a, b)), ieq(hull(a, b), hull(b, a)),
        includes(hull(a, b), a), includes(hull(a, b), b),
        includes(c, a) && includes(c, b) ==> includes(c, hull(a, b)),
{}
// I06: before means every point of a is before every point of b
proof fn lemma_before_points<T: Ord>(a: Interval<T>, b: Interval<T>, x: T, y: T)
    requires lawful::<T>(), wf(a), wf(b), before(a, b), has(a, x), has(b, y),
    ensures cm(x, y) == Less,
{}
// I08: spanned end points always give a well formed interval
proof fn lemma_spanned_wf<T: Ord>(l: Bound<T>, u: Bound<T>)
    requires lawful::<T>(),
    ensures wf(spanned(l, u)),
{}
""")

# ---- contracts: bounds
w(f"""
@fn Bound::val
@ens {B}: *$r == self.val
@fn Bound::is_closed
@ens {B}: $r == self.is_closed
@fn Bound::new
@ens {B}: $r.val == $0 && $r.is_closed == $1
@fn Bound::into_tuple
@ens {B}: $r.0 == self.val && $r.1 == self.is_closed
@fn <Bound as PartialEq>::eq
@ens I06,I07,I09: lawful::<T>() ==> $r == (self.val.eq_spec(&$0.val) && self.is_closed == $0.is_closed)
@fn <Bound as PartialEq>::ne
@ens I06,I09: lawful::<T>() ==> $r == !(self.val.eq_spec(&$0.val) && self.is_closed == $0.is_closed)
""")
for tr, m in OPS:
    for ty, v in (("Bound", ""), ("LowerBound", ".bound"), ("UpperBound", ".bound")):
        w(f"""
@fn <{ty} as {tr}<U>>::{m}
@ens I08: <T as {tr}Spec<U>>::obeys_{m}_spec() ==> $r{v}.val == {tr}Spec::<U>::{m}_spec(self{v}.val, $0) && $r{v}.is_closed == self{v}.is_closed
@fn <{ty} as {tr}Assign<U>>::{m}_assign
@ens I08: <T as {tr}AssignSpec<U>>::obeys_{m}_assign_spec() ==> final(self){v}.val == *{tr}AssignSpec::<U>::{m}_assign_spec(&old(self){v}.val, $0) && final(self){v}.is_closed == old(self){v}.is_closed
""")
for k, other, cmpf in (("LowerBound", "UpperBound", "lcmp"), ("UpperBound", "LowerBound", "ucmp")):
    lo = k == "LowerBound"
    v = "lvcmp" if lo else "uvcmp"
    w(f"""
@fn {k}::is_separated_from
@req : lawful::<T>()
@ens I07,I04: $r == {'separated(*self, *$0)' if lo else 'separated(*$0, *self)'}
@fn {k}::new
@ens {B}: $r.bound.val == $0 && $r.bound.is_closed == $1
@fn {k}::val
@ens {B}: *$r == self.bound.val
@fn {k}::is_closed
@ens {B}: $r == self.bound.is_closed
@fn {k}::into_tuple
@ens {B}: $r.0 == self.bound.val && $r.1 == self.bound.is_closed

@fn <{k} as PartialEq>::eq
@ens I06,I07,I09: lawful::<T>() ==> ($r <==> {cmpf}(*self, *$0) == Equal)
@fn <{k} as PartialEq>::ne
@ens I06,I07,I09: lawful::<T>() ==> ($r <==> {cmpf}(*self, *$0) != Equal)
@fn <{k} as Ord>::cmp
@ens I03,I04,I05,I07,I09: lawful::<T>() ==> $r == {cmpf}(*self, *$0)
@fn <{k} as Ord>::max
@ens I03,I04,I05,I07: lawful::<T>() ==> $r == (if {cmpf}(self, $0) == Greater {{ self }} else {{ $0 }})
@fn <{k} as Ord>::min
@ens I03,I04,I05,I07: lawful::<T>() ==> $r == (if {cmpf}(self, $0) == Greater {{ $0 }} else {{ self }})
@fn <{k} as PartialOrd>::partial_cmp
@ens I07,I09: lawful::<T>() ==> $r == Some({cmpf}(*self, *$0))
@fn <{k} as PartialOrd>::lt
@ens I03,I04,I05,I07,I09: lawful::<T>() ==> ($r <==> {cmpf}(*self, *$0) == Less)
@fn <{k} as PartialOrd>::le
@ens I02,I07,I09: lawful::<T>() ==> ($r <==> {cmpf}(*self, *$0) != Greater)
@fn <{k} as PartialOrd>::gt
@ens I03,I04,I05,I07,I09: lawful::<T>() ==> ($r <==> {cmpf}(*self, *$0) == Greater)
@fn <{k} as PartialOrd>::ge
@ens I02,I07,I09: lawful::<T>() ==> ($r <==> {cmpf}(*self, *$0) != Less)

@fn <{k} as PartialEq<T>>::eq
@ens I06,I07,I09: lawful::<T>() ==> ($r <==> {v}(*self, *$0) == Equal)
@fn <{k} as PartialEq<T>>::ne
@ens I07,I09: lawful::<T>() ==> ($r <==> {v}(*self, *$0) != Equal)
@fn <{k} as PartialOrd<T>>::partial_cmp
@ens I07,I09: lawful::<T>() ==> $r == Some({v}(*self, *$0))
@fn <{k} as PartialOrd<T>>::lt
@ens I02,I06,I07,I09: lawful::<T>() ==> ($r <==> {v}(*self, *$0) == Less)
@fn <{k} as PartialOrd<T>>::le
@ens I07,I09: lawful::<T>() ==> ($r <==> {v}(*self, *$0) != Greater)
@fn <{k} as PartialOrd<T>>::gt
@ens I02,I06,I07,I09: lawful::<T>() ==> ($r <==> {v}(*self, *$0) == Greater)
@fn <{k} as PartialOrd<T>>::ge
@ens I07,I09: lawful::<T>() ==> ($r <==> {v}(*self, *$0) != Less)

@fn <{k} as PartialEq<{other}>>::eq
@ens I07,I09: !$r
@fn <{k} as PartialEq<{other}>>::ne
@ens I07,I09: $r
""")
    ex = "exceeds(*self, *$0)" if lo else "exceeds(*$0, *self)"
    exop = "gt" if lo else "lt"      # the operator meaning "no common point"
    fwop = "lt" if lo else "gt"
    w(f"""
@fn <{k} as PartialOrd<{other}>>::{exop}
@ens I02,I03,I06,I07,I09: lawful::<T>() ==> ($r <==> {ex})
@fn <{k} as PartialOrd<{other}>>::{fwop}
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) != Equal ==> ($r <==> cm(self.bound.val, $0.bound.val) == {'Less' if lo else 'Greater'})
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) == Equal && self.bound.is_closed && $0.bound.is_closed ==> !$r
@fn <{k} as PartialOrd<{other}>>::le
@ens {'I09' if lo else 'I06,I09'}: lawful::<T>() ==> ($r <==> cm(self.bound.val, $0.bound.val) != Greater)
@fn <{k} as PartialOrd<{other}>>::ge
@ens {'I06,I09' if lo else 'I09'}: lawful::<T>() ==> ($r <==> cm(self.bound.val, $0.bound.val) != Less)
@fn <{k} as PartialOrd<{other}>>::partial_cmp
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) != Equal ==> $r == Some(cm(self.bound.val, $0.bound.val))
@ens I09: lawful::<T>() && cm(self.bound.val, $0.bound.val) == Equal && self.bound.is_closed && $0.bound.is_closed ==> $r == None::<Ordering>
""")
w("""
@fn LowerBound::swap
@ens I01,I08: final(self).bound == old($0).bound && final($0).bound == old(self).bound
@fn are_separated
@req : lawful::<T>()
@ens I04,I07: $r == separated(*$0, *$1)
""")

# ---- contracts: intervals
L = "@req : lawful::<T>()\n"
WF = L + "@req : wf(*self)\n"
WFV = L + "@req : wf(self)\n"
WFM = L + "@req : wf(*old(self))\n"
C4 = "mk(LowerBound { bound: Bound { val: $0, is_closed: %s } }, UpperBound { bound: Bound { val: $1, is_closed: %s } })"
w(f"""
@fn <NonEmptyInterval as PartialEq>::eq
@ens I06,I09: lawful::<T>() ==> ($r <==> lcmp(self.lo, $0.lo) == Equal && ucmp(self.up, $0.up) == Equal)
@fn <Interval as PartialEq>::eq
@ens I06,I09: lawful::<T>() ==> ($r <==> ieq(*self, *$0))
@fn <Interval as PartialEq>::ne
@ens I06,I09: lawful::<T>() ==> ($r <==> !ieq(*self, *$0))

@fn Interval::new
{L}@nopanic I01: pair_ok($0, $1, $2, $3)
@ens I01: $r == mk(LowerBound {{ bound: Bound {{ val: $0, is_closed: $1 }} }}, UpperBound {{ bound: Bound {{ val: $2, is_closed: $3 }} }}) && wf($r)
@fn Interval::from_bounds
{L}@nopanic I01,I03,I04,I05: pair_ok($0.bound.val, $0.bound.is_closed, $1.bound.val, $1.bound.is_closed)
@ens I01,I03,I04,I05: $r == mk($0, $1) && wf($r)
@fn Interval::create_checked
{L}@nopanic I01,I03,I04,I05: pair_ok($0, $1, $2, $3)
@ens I01,I03,I04,I05: $r == mk(LowerBound {{ bound: Bound {{ val: $0, is_closed: $1 }} }}, UpperBound {{ bound: Bound {{ val: $2, is_closed: $3 }} }}) && wf($r)
@fn Interval::create_friendly
{L}@ens I01,I08: $r == spanned(Bound {{ val: $0, is_closed: $1 }}, Bound {{ val: $2, is_closed: $3 }}) && wf($r)
@fn Interval::single
{L}@req : clones::<T>()
@ens I01: $r == mk(LowerBound {{ bound: Bound {{ val: $0, is_closed: true }} }}, UpperBound {{ bound: Bound {{ val: $0, is_closed: true }} }}) && wf($r)
""")
for n, a, b in (("open", "false", "false"), ("closed", "true", "true"), ("lower_closed", "true", "false"), ("upper_closed", "false", "true")):
    w(f"""@fn Interval::{n}
{L}@nopanic I01: pair_ok($0, {a}, $1, {b})
@ens I01: $r == {C4 % (a, b)} && wf($r)
""")
w(f"""
@fn Interval::empty
@ens I01,I03,I08: $r == nil::<T>() && wf($r)
@fn Interval::into_tuple
@ens I01,I08: $r == (match self.imp {{ None => None::<(T, bool, T, bool)>, Some(n) => Some((n.lo.bound.val, n.lo.bound.is_closed, n.up.bound.val, n.up.bound.is_closed)) }})
@fn Interval::into_bounds
@ens I01,I03,I04,I05: $r == (match self.imp {{ None => None::<(LowerBound<T>, UpperBound<T>)>, Some(n) => Some((n.lo, n.up)) }})
@fn Interval::fix_after_modification
{L}@ens I01,I08: *final(self) == (match old(self).imp {{ None => nil::<T>(), Some(n) => spanned(n.lo.bound, n.up.bound) }}) && wf(*final(self))
@fn Interval::upper
@ens I01,I02,I03,I06,I09: $r == (match self.imp {{ None => None::<&UpperBound<T>>, Some(n) => Some(&n.up) }})
@fn Interval::lower
@ens I01,I02,I03,I06,I09: $r == (match self.imp {{ None => None::<&LowerBound<T>>, Some(n) => Some(&n.lo) }})
@fn Interval::bounds
@ens I01,I02,I04,I06,I09: $r == (match self.imp {{ None => None::<(&LowerBound<T>, &UpperBound<T>)>, Some(n) => Some((&n.lo, &n.up)) }})
@fn Interval::is_empty
@ens I01,I02,I03,I04,I05: $r == self.imp.is_none()
@fn Interval::is_single
{L}@ens I01: $r == (self.imp.is_some() && cm(lo_of(*self).bound.val, up_of(*self).bound.val) == Equal)
@ens I01: wf(*self) && $r ==> lo_of(*self).bound.is_closed && up_of(*self).bound.is_closed
@fn Interval::is_lower_closed
@ens I01: $r == (match self.imp {{ None => None::<bool>, Some(n) => Some(n.lo.bound.is_closed) }})
@fn Interval::is_upper_closed
@ens I01: $r == (match self.imp {{ None => None::<bool>, Some(n) => Some(n.up.bound.is_closed) }})

@fn Interval::contains_val
{WF}@ens I02: $r == has(*self, *$0)
@fn Interval::contains_interval
{WF}@req : wf(*$0)
@ens I02: $r == includes(*self, *$0)
@fn Interval::can_be_merged
{WF}@req : wf(*$0)
@ens I04: $r == mergeable(*self, *$0)
@fn Interval::into_merged
{WFV}@req : wf($0)
@ens I01,I04: mergeable(self, $0) ==> $r is Ok && ieq($r->Ok_0, hull(self, $0)) && wf($r->Ok_0)
@ens I04: !mergeable(self, $0) ==> $r == Err::<Interval<T>, (Interval<T>, Interval<T>)>((self, $0))
@fn Interval::merge
{WFM}@req : wf($0)
@ens I01,I04: mergeable(*old(self), $0) ==> $r is Ok && ieq(*final(self), hull(*old(self), $0)) && wf(*final(self))
@ens I04: !mergeable(*old(self), $0) ==> $r == Err::<(), Interval<T>>($0) && *final(self) == *old(self)
@fn Interval::intersects
{WF}@req : wf(*$0)
@ens I03: $r == shares(*self, *$0)
@fn Interval::into_intersection
{WFV}@req : wf($0)
@ens I01,I03: ieq($r, meet(self, $0)) && wf($r)
@fn Interval::intersection
{WFM}@req : wf($0)
@ens I01,I03: ieq(*final(self), meet(*old(self), $0)) && wf(*final(self))
@fn Interval::into_span
{WFV}@req : wf($0)
@ens I01,I05: ieq($r, hull(self, $0)) && wf($r)
@fn Interval::span
{WFM}@req : wf($0)
@ens I01,I05: ieq(*final(self), hull(*old(self), $0)) && wf(*final(self))

@drop <Interval as Display> : formatting (write!) is outside the verifier's subset

@fn <Interval as PartialEq<T>>::eq
@ens I06,I09: lawful::<T>() ==> ($r <==> self.imp.is_some() && lvcmp(lo_of(*self), *$0) == Equal && uvcmp(up_of(*self), *$0) == Equal)
@fn <Interval as PartialEq<T>>::ne
@ens I06,I09: lawful::<T>() ==> ($r <==> !(self.imp.is_some() && lvcmp(lo_of(*self), *$0) == Equal && uvcmp(up_of(*self), *$0) == Equal))
@fn <Interval as PartialOrd<T>>::lt
@ens I02,I06,I09: lawful::<T>() ==> ($r <==> self.imp.is_some() && !up_admits(up_of(*self), *$0) && cm(up_of(*self).bound.val, *$0) != Greater)
@fn <Interval as PartialOrd<T>>::gt
@ens I02,I06,I09: lawful::<T>() ==> ($r <==> self.imp.is_some() && !lo_admits(lo_of(*self), *$0) && cm(lo_of(*self).bound.val, *$0) != Less)
@fn <Interval as PartialOrd<T>>::le
@ens I06: lawful::<T>() ==> ($r <==> self.imp.is_some() && le(up_of(*self).bound.val, *$0))
@fn <Interval as PartialOrd<T>>::ge
@ens I06: lawful::<T>() ==> ($r <==> self.imp.is_some() && le(*$0, lo_of(*self).bound.val))
@fn <Interval as PartialOrd<T>>::partial_cmp
@ens I06,I09: lawful::<T>() && wf(*self) ==> $r == (if self.imp.is_none() {{ None::<Ordering> }} else if uvcmp(up_of(*self), *$0) == Less {{ Some(Less) }} else if lvcmp(lo_of(*self), *$0) == Greater {{ Some(Greater) }} else if lvcmp(lo_of(*self), *$0) == Equal && uvcmp(up_of(*self), *$0) == Equal {{ Some(Equal) }} else {{ None::<Ordering> }})

@fn <Interval as PartialOrd>::lt
@ens I02,I03,I06,I09: lawful::<T>() ==> ($r <==> before(*self, *$0))
@fn <Interval as PartialOrd>::gt
@ens I02,I03,I06,I09: lawful::<T>() ==> ($r <==> before(*$0, *self))
@fn <Interval as PartialOrd>::le
@ens I06: lawful::<T>() ==> ($r <==> before_eq(*self, *$0))
@fn <Interval as PartialOrd>::ge
@ens I06: lawful::<T>() ==> ($r <==> before_eq(*$0, *self))
@fn <Interval as PartialOrd>::partial_cmp
@ens I06,I09: lawful::<T>() && wf(*self) && wf(*$0) ==> $r == (if before(*self, *$0) {{ Some(Less) }} else if before(*$0, *self) {{ Some(Greater) }} else if ieq(*self, *$0) {{ Some(Equal) }} else {{ None::<Ordering> }})
""")
w("\n@root\n")
for tr, m in OPS:
    w(f"""
impl<T, U> vstd::std_specs::ops::{tr}SpecImpl<U> for Interval<T> where T: Ord + {tr}<U, Output = T>, U: Clone {{
    open spec fn obeys_{m}_spec() -> bool {{ <T as {tr}Spec<U>>::obeys_{m}_spec() && lawful::<T>() && clones::<U>() }}
    open spec fn {m}_req(self, rhs: U) -> bool {{
        lawful::<T>() && clones::<U>() && (self.imp.is_some() ==> {tr}Spec::<U>::{m}_req(lo_of(self).bound.val, rhs) && {tr}Spec::<U>::{m}_req(up_of(self).bound.val, rhs))
    }}
    open spec fn {m}_spec(self, rhs: U) -> Interval<T> {{
        if self.imp.is_none() {{ nil() }} else {{ spanned(
            Bound {{ val: {tr}Spec::<U>::{m}_spec(lo_of(self).bound.val, rhs), is_closed: lo_of(self).bound.is_closed }},
            Bound {{ val: {tr}Spec::<U>::{m}_spec(up_of(self).bound.val, rhs), is_closed: up_of(self).bound.is_closed }}) }}
    }}
}}
impl<T> vstd::std_specs::ops::{tr}AssignSpecImpl<T> for Interval<T> where T: Ord + {tr}Assign + Clone {{
    open spec fn obeys_{m}_assign_spec() -> bool {{ <T as {tr}AssignSpec<T>>::obeys_{m}_assign_spec() && lawful::<T>() && clones::<T>() }}
    open spec fn {m}_assign_req(&self, rhs: T) -> bool {{
        lawful::<T>() && clones::<T>() && (self.imp.is_some() ==> {tr}AssignSpec::<T>::{m}_assign_req(&lo_of(*self).bound.val, rhs) && {tr}AssignSpec::<T>::{m}_assign_req(&up_of(*self).bound.val, rhs))
    }}
    open spec fn {m}_assign_spec(&self, rhs: T) -> &Interval<T> {{
        &(if self.imp.is_none() {{ nil() }} else {{ spanned(
            Bound {{ val: *{tr}AssignSpec::<T>::{m}_assign_spec(&lo_of(*self).bound.val, rhs), is_closed: lo_of(*self).bound.is_closed }},
            Bound {{ val: *{tr}AssignSpec::<T>::{m}_assign_spec(&up_of(*self).bound.val, rhs), is_closed: up_of(*self).bound.is_closed }}) }})
    }}
}}
""")
w("""
impl<T> vstd::std_specs::ops::NegSpecImpl for Interval<T> where T: Ord + Neg<Output = T> {
    open spec fn obeys_neg_spec() -> bool { <T as NegSpec>::obeys_neg_spec() && lawful::<T>() }
    open spec fn neg_req(self) -> bool {
        lawful::<T>() && (self.imp.is_some() ==> lo_of(self).bound.val.neg_req() && up_of(self).bound.val.neg_req())
    }
    open spec fn neg_spec(self) -> Interval<T> {
        if self.imp.is_none() { nil() } else { spanned(
            Bound { val: up_of(self).bound.val.neg_spec(), is_closed: up_of(self).bound.is_closed },
            Bound { val: lo_of(self).bound.val.neg_spec(), is_closed: lo_of(self).bound.is_closed }) }
    }
}
// I08: negation is an order-reversing involution => negating twice restores the interval
pub open spec fn negation<T: Ord + Neg<Output = T>>() -> bool {
    &&& <T as NegSpec>::obeys_neg_spec()
    &&& forall|a: T| #[trigger] a.neg_spec().neg_spec() == a
    &&& forall|a: T, b: T| #[trigger] cm(a.neg_spec(), b.neg_spec()) == cm(b, a)
}
proof fn lemma_double_negation<T: Ord + Neg<Output = T>>(i: Interval<T>)
    requires lawful::<T>(), negation::<T>(), wf(i),
    ensures i.neg_spec().neg_spec() == i, wf(i.neg_spec()),
{
    if i.imp.is_some() {
        let (l, u) = (lo_of(i).bound, up_of(i).bound);
        assert(cm(u.val.neg_spec(), l.val.neg_spec()) == cm(l.val, u.val));
    }
}
// I08 for a non-reversing step (translation): end points keep their places and their closedness
proof fn lemma_order_kept<T: Ord>(l: Bound<T>, u: Bound<T>)
    requires lawful::<T>(), cm(l.val, u.val) == Less,
    ensures spanned(l, u) == mk(LowerBound { bound: l }, UpperBound { bound: u }),
{}
""")
for tr, m in OPS:
    s = f"{tr}Spec::<U>::{m}_spec"
    a = f"{tr}AssignSpec::<T>::{m}_assign_spec"
    w(f"""
@fn <Interval as {tr}<U>>::{m}
@ens I01,I08: <T as {tr}Spec<U>>::obeys_{m}_spec() && lawful::<T>() && clones::<U>() ==> wf($r) && $r == (if self.imp.is_none() {{ nil() }} else {{ spanned(
            Bound {{ val: {s}(lo_of(self).bound.val, $0), is_closed: lo_of(self).bound.is_closed }},
            Bound {{ val: {s}(up_of(self).bound.val, $0), is_closed: up_of(self).bound.is_closed }}) }})
@fn <Interval as {tr}Assign<T>>::{m}_assign
@ens I01,I08: <T as {tr}AssignSpec<T>>::obeys_{m}_assign_spec() && lawful::<T>() && clones::<T>() ==> wf(*final(self)) && *final(self) == (if old(self).imp.is_none() {{ nil() }} else {{ spanned(
            Bound {{ val: *{a}(&lo_of(*old(self)).bound.val, $0), is_closed: lo_of(*old(self)).bound.is_closed }},
            Bound {{ val: *{a}(&up_of(*old(self)).bound.val, $0), is_closed: up_of(*old(self)).bound.is_closed }}) }})
""")
w("""
@fn <Interval as Neg>::neg
@ens I01,I08: <T as NegSpec>::obeys_neg_spec() && lawful::<T>() ==> wf($r) && $r == (if self.imp.is_none() { nil() } else { spanned(
            Bound { val: up_of(self).bound.val.neg_spec(), is_closed: up_of(self).bound.is_closed },
            Bound { val: lo_of(self).bound.val.neg_spec(), is_closed: lo_of(self).bound.is_closed }) })
""")
for n, t in (("Bound", "I01,I07"), ("LowerBound", "I01,I07"), ("UpperBound", "I01,I07"), ("NonEmptyInterval", "I01"), ("Interval", "I01")):
    w(f"""
@fn <{n} as Clone>::clone
@ens {t}: clones::<T>() ==> $r == *self
""")
open(os.path.join(here, 'interval.vc'), 'w').write("".join(out))
