#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals)]
// f64 is lowered to the type F with the same operators; what is assumed about its arithmetic is stated in the fact_* lemmas
// (each is evaluated on the real f64 arithmetic by the executable contract of P20)
use vstd::prelude::*;
//# rule f64 -> F /\bf64\b/ => /F/
//# rule float literal -> F /(?<![\w.])(\d+\.\d+(?:e-?\d+)?|\d+e-?\d+)(?![\w.])/ => /(F { v: \1 })/
//# rule conversion to float -> contract-bearing /((?:\w+\.|\w+::)*\w+) as F\b/ => /vx_f(\1)/
//# rule conversion of a float to u32 -> contract-bearing /\b(continued_fraction_term) as u32\b/ => /vx_trunc(\1)/
//# rule conversion of a float to an integer -> contract-bearing /(rational64[us]_to_f64\(&val\)) as (u32|i32)\b/ => /vx_to_\2(\1)/
//# rule unsigned magnitude of the smallest i32 /i32::MIN\.unsigned_abs\(\)/ => /0x8000_0000u32/
verus! {
use core::cmp::Ordering;
#[derive(Clone, Copy)]
pub struct F { pub v: f64 }
pub uninterp spec fn fcmp(a: F, b: F) -> Option<Ordering>;
pub uninterp spec fn fsub(a: F, b: F) -> F;
pub uninterp spec fn fdiv(a: F, b: F) -> F;
pub uninterp spec fn fabs(a: F) -> F;
pub uninterp spec fn ffloor(a: F) -> F;
pub uninterp spec fn fnan(a: F) -> bool;
pub uninterp spec fn fof(n: int) -> F;                 // the float with this value (|n| <= 2^53)
pub uninterp spec fn trunc(a: F) -> u32;               // `as u32`
pub uninterp spec fn int_of(a: F) -> Option<int>;      // the value, if it is an integer of at most 2^53
impl vstd::std_specs::cmp::PartialEqSpecImpl for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { fcmp(*self, *o) == Some(Ordering::Equal) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for F { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F) -> Option<Ordering> { fcmp(*self, *o) } }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> bool { self.v == o.v } }
impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> Option<Ordering> { self.v.partial_cmp(&o.v) } }
impl vstd::std_specs::ops::SubSpecImpl<F> for F { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F) -> bool { true } open spec fn sub_spec(self, o: F) -> F { fsub(self, o) } }
impl core::ops::Sub for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> F { F { v: self.v - o.v } } }
impl vstd::std_specs::ops::DivSpecImpl<F> for F { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F) -> bool { true } open spec fn div_spec(self, o: F) -> F { fdiv(self, o) } }
impl core::ops::Div for F { type Output = F; #[verifier::external_body] fn div(self, o: F) -> F { F { v: self.v / o.v } } }
impl F {
    #[verifier::external_body] pub fn abs(self) -> (r: F) ensures r == fabs(self) { F { v: self.v.abs() } }
    #[verifier::external_body] pub fn floor(self) -> (r: F) ensures r == ffloor(self) { F { v: self.v.floor() } }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == fnan(self) { self.v.is_nan() }
}
pub trait VxInt: Sized { spec fn num(self) -> int; }
impl VxInt for u32 { open spec fn num(self) -> int { self as int } }
impl VxInt for i32 { open spec fn num(self) -> int { self as int } }
#[verifier::external_body] pub fn vx_f<T: VxInt>(x: T) -> (r: F) ensures r == fof(x.num()), int_of(r) == Some(x.num()) { unimplemented!() }
#[verifier::external_body] pub fn vx_trunc(x: F) -> (r: u32) ensures r == trunc(x) { x.v as u32 }
#[verifier::external_body] pub fn vx_to_u32(x: F) -> (r: u32) { x.v as u32 }
#[verifier::external_body] pub fn vx_to_i32(x: F) -> (r: i32) { x.v as i32 }
pub fn vx_min(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
// ---- assumed facts of IEEE double arithmetic ----
/// integers below 2^53 are compared, subtracted and rounded exactly
#[verifier::external_body] pub proof fn fact_integers(a: F, b: F)
    ensures int_of(a) matches Some(i) ==> (int_of(fabs(a)) == Some(if i < 0 { -i } else { i }) && int_of(ffloor(a)) == Some(i) && !fnan(a) && (0 <= i <= u32::MAX ==> trunc(a) == i)),
        (int_of(a) matches Some(i) && int_of(b) matches Some(j)) ==> (fcmp(a, b) == Some(if int_of(a)->0 < int_of(b)->0 { Ordering::Less } else if int_of(a)->0 == int_of(b)->0 { Ordering::Equal } else { Ordering::Greater })
            && (int_of(a)->0 - int_of(b)->0 <= 0x1f_ffff_ffff_ffff && int_of(b)->0 - int_of(a)->0 <= 0x1f_ffff_ffff_ffff ==> int_of(fsub(a, b)) == Some(int_of(a)->0 - int_of(b)->0))) {}
#[verifier::external_body] pub proof fn fact_literals() ensures int_of(F { v: 0.0 }) == Some(0int), int_of(F { v: 1.0 }) == Some(1int) {}
/// a value of at most n - 1/2 truncates to at most n; only an integer n lies between n - 1/2 and n + 1/2
#[verifier::external_body] pub proof fn fact_half(x: F, n: int) requires 1 <= n <= u32::MAX
    ensures !fnan(x) && fcmp(x, fsub(fof(n), F { v: 0.5 })) != Some(Ordering::Greater) ==> trunc(ffloor(x)) <= n,
        int_of(x) matches Some(k) ==> (fcmp(x, fsub(fof(n), F { v: 0.5 })) == Some(Ordering::Greater) <==> k >= n) {}
/// a value that is not at least n truncates to at most n (NaN to 0), and one that is below the integer n to less or 0
#[verifier::external_body] pub proof fn fact_below(x: F, n: int) requires 0 <= n <= u32::MAX
    ensures !(fcmp(x, fof(n)) == Some(Ordering::Greater) || fcmp(x, fof(n)) == Some(Ordering::Equal)) ==> trunc(x) <= n, fcmp(fof(n), x) == Some(Ordering::Greater) ==> trunc(x) <= n {}
/// zero is within the tolerance
#[verifier::external_body] pub proof fn fact_tolerance(x: F) ensures int_of(x) == Some(0int) ==> fcmp(x, CONVERGENCE_TOLERANCE) == Some(Ordering::Less) {}
/// the terms of a continued fraction are at least 1: a residual x - floor(x) above the tolerance lies in (0, 1)
pub open spec fn term_of(x: F) -> F { ffloor(fdiv(F { v: 1.0 }, fsub(x, ffloor(x)))) }
#[verifier::external_body] pub proof fn fact_term(x: F)
    requires finite(x), !le(fabs(fsub(x, ffloor(x))), CONVERGENCE_TOLERANCE)
    ensures finite(fdiv(F { v: 1.0 }, fsub(x, ffloor(x)))), trunc(term_of(x)) >= 1, !ge(fof(0), fdiv(term_of(x), F { v: 2.0 })) {}
pub uninterp spec fn finite(x: F) -> bool;
#[verifier::external_body] pub proof fn fact_finite(x: F, n: int) requires 1 <= n <= u32::MAX
    ensures !fnan(fabs(x)) && fcmp(fabs(x), fsub(fof(n), F { v: 0.5 })) != Some(Ordering::Greater) ==> finite(fabs(x)) {}
pub open spec fn le(a: F, b: F) -> bool { fcmp(a, b) == Some(Ordering::Less) || fcmp(a, b) == Some(Ordering::Equal) }
pub open spec fn ge(a: F, b: F) -> bool { fcmp(a, b) == Some(Ordering::Greater) || fcmp(a, b) == Some(Ordering::Equal) }
//# item src/rational.rs const MAX_TERM_COUNT
//# item src/rational.rs const CONVERGENCE_TOLERANCE
pub struct uR64 { pub nominator: u32, pub denominator: u32 }
pub struct iR64 { pub nominator: i32, pub denominator: i32 }
impl Clone for uR64 { fn clone(&self) -> (r: uR64) ensures r == *self { uR64 { nominator: self.nominator, denominator: self.denominator } } }   // derived
/// the next convergent stays below the limits
pub open spec fn room(n: int, c: uR64, p: uR64, m: int) -> bool { n * c.nominator + p.nominator <= m && n * c.denominator + p.denominator <= i32::MAX }
pub proof fn lemma_room(n: u32, c: uR64, p: uR64, m: u32)
    requires c.denominator >= 1, p.denominator <= i32::MAX, p.nominator <= m, n <= (i32::MAX - p.denominator) / c.denominator as int, c.nominator > 0 ==> n <= (m - p.nominator) / c.nominator as int
    ensures room(n as int, c, p, m as int), forall|k: u32| k <= n ==> room(k as int, c, p, m as int)
{
    assert forall|k: u32| k <= n implies room(k as int, c, p, m as int) by {
        let d = c.denominator as int; let y = i32::MAX - p.denominator;
        assert(k * d <= (y / d) * d <= y) by (nonlinear_arith) requires 0 <= k <= y / d, d >= 1, y >= 0;
        if c.nominator > 0 {
            let a = c.nominator as int; let x = m - p.nominator;
            assert(k * a <= (x / a) * a <= x) by (nonlinear_arith) requires 0 <= k <= x / a, a >= 1, x >= 0;
        } else { assert(k * 0 == 0); }
    }
}
//# fn src/rational.rs greatest_common_divisor -> r
//# spec
    ensures a > 0 || b > 0 ==> r >= 1, b > 0 ==> r <= b
//# loop 0
    invariant a0 > 0 || b0 > 0 ==> a > 0 || b > 0, b0 > 0 ==> b <= b0 && (b == b0 || 0 < a <= b0)
    decreases b
//# begin
    let ghost a0 = a; let ghost b0 = b;
//# end
//# fn src/rational.rs add_next_fraction_term -> r
//# spec
    requires *term * convergent.nominator + previous_convergent.nominator <= u32::MAX, *term * convergent.denominator + previous_convergent.denominator <= u32::MAX
    ensures r.nominator == *term * convergent.nominator + previous_convergent.nominator, r.denominator == *term * convergent.denominator + previous_convergent.denominator
//# end
//# fn src/rational.rs rational64s_to_f64
//# end
//# fn src/rational.rs rational64u_to_f64
//# end
//# fn src/rational.rs f64_to_rational64s -> r
//# spec
    ensures !fnan(real_number) ==> r.denominator >= 1, int_of(real_number) matches Some(k) && i32::MIN <= k <= i32::MAX ==> r.nominator == int_of(real_number)->0 && r.denominator == 1
//# begin
    proof { fact_integers(real_number, F { v: 0.0 }); fact_literals(); }
//# end
//# fn src/rational.rs f64_to_rational64u -> r
//# spec
    ensures !fnan(real_number) ==> r.denominator >= 1, int_of(real_number) matches Some(k) && 0 <= k <= u32::MAX ==> r.nominator == int_of(real_number)->0 && r.denominator == 1
//# end
//# fn src/rational.rs approximate_f64 -> r
//# attr
    #[verifier::allow_complex_invariants]
#[verifier::loop_isolation(false)]
//# spec
    requires max_nominator >= 1
    ensures r.nominator <= max_nominator, r.denominator <= i32::MAX, !fnan(real_number) ==> r.denominator >= 1,
        int_of(real_number) matches Some(k) && -(max_nominator as int) <= k <= max_nominator ==> r.nominator == (if int_of(real_number)->0 < 0 { -int_of(real_number)->0 } else { int_of(real_number)->0 }) && r.denominator == 1
//# begin
    proof { fact_nan(real_number); fact_integers(real_number, real_number); fact_integers(fabs(real_number), ffloor(fabs(real_number))); fact_integers(ffloor(fabs(real_number)), real_number); fact_half(fabs(real_number), max_nominator as int); fact_finite(real_number, max_nominator as int);
        fact_integers(fsub(fabs(real_number), ffloor(fabs(real_number))), real_number); fact_tolerance(fabs(fsub(fabs(real_number), ffloor(fabs(real_number))))); }
    let ghost x = fabs(real_number); let ghost rn0 = real_number;
//# loop 0 iter
it
//# loop 0
    invariant_except_break n == 0, it.index@ > 0 ==> !vx_first,
        vx_first ==> reciprocal_residual == x && convergent.denominator == 1 && convergent.nominator == trunc(ffloor(x)),
        !vx_first ==> int_of(x) is None && trunc(continued_fraction_term) >= 1 && !ge(fof(0), fdiv(continued_fraction_term, F { v: 2.0 })),
    invariant convergent.denominator >= 1, convergent.denominator <= i32::MAX, previous_convergent.denominator <= i32::MAX, convergent.nominator <= max_nominator, previous_convergent.nominator <= max_nominator, max_nominator >= 1,
        finite(reciprocal_residual), continued_fraction_term == ffloor(reciprocal_residual), !fnan(x), x == real_number, x == fabs(rn0), int_of(rn0) matches Some(k) ==> int_of(x) == Some(if k < 0 { -k } else { k }),
        int_of(x) matches Some(k) ==> 0 <= k <= max_nominator && trunc(ffloor(x)) == k && fcmp(fabs(fsub(x, ffloor(x))), CONVERGENCE_TOLERANCE) == Some(Ordering::Less),
    ensures trunc(continued_fraction_term) >= 1, finite(reciprocal_residual), convergent.denominator >= 1, convergent.denominator <= i32::MAX, convergent.nominator <= max_nominator, !ge(fof(0), fdiv(continued_fraction_term, F { v: 2.0 })), int_of(x) is None,
        n > 0 ==> room(n as int, convergent, previous_convergent, max_nominator as int) && forall|k: u32| k <= n ==> room(k as int, convergent, previous_convergent, max_nominator as int)
//# loop 0 before
    let ghost mut vx_first = true;
//# loop 0 begin
    proof { if !le(fabs(fsub(reciprocal_residual, ffloor(reciprocal_residual))), CONVERGENCE_TOLERANCE) { fact_term(reciprocal_residual); } }
//# before /if continued_fraction_term >= n as f64/
    proof { lemma_room(n, convergent, previous_convergent, max_nominator); fact_below(continued_fraction_term, n as int); assert(trunc(continued_fraction_term) <= n ==> room(trunc(continued_fraction_term) as int, convergent, previous_convergent, max_nominator as int)); }
//# before /if n as f64 >= lower_bound/
    proof { fact_below(continued_fraction_term, n as int); assert(n > 0 && trunc(continued_fraction_term) <= n ==> room(trunc(continued_fraction_term) as int, convergent, previous_convergent, max_nominator as int)); assert(n > 0 ==> room(n as int, convergent, previous_convergent, max_nominator as int)); }
//# after /let next_convergent = .*;/
    proof { let (t, d) = (trunc(continued_fraction_term) as int, convergent.denominator as int); assert(t * d >= 1) by (nonlinear_arith) requires t >= 1, d >= 1; }
//# before /let gcd/
    proof { let (t, d) = (n as int, convergent.denominator as int); if t >= 1 { assert(t * d >= 1) by (nonlinear_arith) requires t >= 1, d >= 1; } }
//# before /return uR64 \{\s*nominator:   best/
    proof { let (g, d) = (gcd as int, best_approximation.denominator as int); assert(d / g >= 1) by (nonlinear_arith) requires 1 <= g <= d; }
//# loop 0 end
    proof { vx_first = false; }
//# end
#[verifier::external_body] pub proof fn fact_nan(x: F) ensures fnan(fabs(x)) == fnan(x), int_of(fabs(x)) matches Some(k) ==> k >= 0 {}
fn main() {}
}
