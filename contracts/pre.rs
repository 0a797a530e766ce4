// Ghost model: elements are mathematical reals in mode F and opaque tags in mode S; a matrix (or vector, with one column)
// is its shape and its element function.
use vstd::prelude::*;
use core::ops::*;
verus! {

pub ghost struct M { pub nr: int, pub nc: int, pub f: spec_fn(int, int) -> real }
impl M { pub open spec fn at(self, i: int, j: int) -> real { (self.f)(i, j) } }

pub open spec fn subm(m: M, r0: int, r1: int, c0: int, c1: int) -> M { M { nr: r1 - r0, nc: c1 - c0, f: |i: int, j: int| m.at(r0 + i, c0 + j) } }
pub open spec fn paste(m: M, r0: int, r1: int, c0: int, c1: int, x: M) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| if r0 <= i < r1 && c0 <= j < c1 { x.at(i - r0, j - c0) } else { m.at(i, j) } } }
pub open spec fn tr(m: M) -> M { M { nr: m.nc, nc: m.nr, f: |i: int, j: int| m.at(j, i) } }
pub open spec fn set(m: M, r: int, c: int, x: real) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| if i == r && j == c { x } else { m.at(i, j) } } }
pub open spec fn konst(nr: int, nc: int, x: real) -> M { M { nr, nc, f: |i: int, j: int| x } }
pub open spec fn ident(nr: int, nc: int) -> M { M { nr, nc, f: |i: int, j: int| if i == j { 1real } else { 0real } } }
pub open spec fn scale(m: M, x: real) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| m.at(i, j) * x } }
pub open spec fn axpy(m: M, x: real, a: M) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| m.at(i, j) + x * a.at(i, j) } }
pub open spec fn divs(m: M, x: real) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| m.at(i, j) / x } }
pub open spec fn madd(m: M, a: M) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| m.at(i, j) + a.at(i, j) } }
pub open spec fn msub(m: M, a: M) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| m.at(i, j) - a.at(i, j) } }
pub open spec fn diagv(m: M) -> M { M { nr: imin(m.nr, m.nc), nc: 1, f: |i: int, j: int| m.at(i, i) } }
pub open spec fn putdiag(m: M, x: M) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| if i == j { x.at(i, 0) } else { m.at(i, j) } } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
/// equal shape and equal elements inside it
pub open spec fn same(a: M, b: M) -> bool { a.nr == b.nr && a.nc == b.nc && forall|i: int, j: int| 0 <= i < a.nr && 0 <= j < a.nc ==> #[trigger] a.at(i, j) == b.at(i, j) }
pub open spec fn shape(a: M, b: M) -> bool { a.nr == b.nr && a.nc == b.nc }

pub open spec fn inb(m: M, r: int, c: int) -> bool { 0 <= r < m.nr && 0 <= c < m.nc }
/// columns and rows as functions
pub type V = spec_fn(int) -> real;
pub open spec fn col(m: M, j: int) -> V { |i: int| m.at(i, j) }
pub open spec fn row(m: M, i: int) -> V { |j: int| m.at(i, j) }
/// x(lo)*y(lo) + ... + x(hi-1)*y(hi-1)
pub open spec fn dot(x: V, y: V, lo: int, hi: int) -> real decreases hi - lo { if hi <= lo { 0real } else { dot(x, y, lo, hi - 1) + x(hi - 1) * y(hi - 1) } }
pub open spec fn sum(x: V, lo: int, hi: int) -> real decreases hi - lo { if hi <= lo { 0real } else { sum(x, lo, hi - 1) + x(hi - 1) } }
pub open spec fn mm(a: M, b: M) -> M { M { nr: a.nr, nc: b.nc, f: |i: int, j: int| dot(row(a, i), col(b, j), 0, a.nc) } }

pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
pub open spec fn rsgn(x: real) -> real { if x >= 0real { 1real } else { -1real } }
pub open spec fn rmax(x: real, y: real) -> real { if x >= y { x } else { y } }
pub open spec fn is_sqrt(r: real, x: real) -> bool { r >= 0real && r * r == x }

/// the triangle of m (up: upper), zero elsewhere
pub open spec fn trim(m: M, up: bool) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| if (if up { i > j } else { i < j }) { 0real } else { m.at(i, j) } } }
pub open spec fn is_tri(m: M, up: bool) -> bool { m.nr == m.nc && forall|i: int, j: int| 0 <= i < m.nr && 0 <= j < m.nr && (if up { i > j } else { i < j }) ==> #[trigger] m.at(i, j) == 0real }
pub open spec fn sq(m: M) -> bool { m.nr == m.nc }

// Mode S: what IEEE arithmetic says about the class of a value (nothing else is assumed of elements there)
pub uninterp spec fn nanv(x: real) -> bool;
/// either infinity
pub uninterp spec fn infv(x: real) -> bool;
/// position in the order of the values other than NaN
S:pub uninterp spec fn ordv(x: real) -> real;
F:pub open spec fn ordv(x: real) -> real { x }
pub open spec fn cmpv(a: real, b: real) -> core::cmp::Ordering { if ordv(a) < ordv(b) { core::cmp::Ordering::Less } else if ordv(a) == ordv(b) { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub uninterp spec fn negv(x: real) -> bool;
pub open spec fn finv(x: real) -> bool { !nanv(x) && !infv(x) }
/// zero (either sign), positive or +infinity
pub open spec fn nnv(x: real) -> bool { !nanv(x) && !negv(x) }
pub open spec fn posv(x: real) -> bool { nnv(x) && x != 0real }

#[verifier::external_body]
pub fn debug_build() -> bool { unimplemented!() }
pub fn rt_assert(b: bool) requires b {}
pub fn rt_panic() requires false {}

/// the element type (any NdFloat)
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fl { x: f64 }
impl Fl {
    pub uninterp spec fn v(self) -> real;
    #[verifier::external_body] pub fn zero() -> (r: Fl) ensures r.v() == 0real { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: Fl)
    F: ensures r.v() == 1real
    { unimplemented!() }
    #[verifier::external_body] pub fn lit(n: i64, d: i64) -> (r: Fl)
    F: ensures r.v() == (n as real) / (d as real)
    S: ensures n > 0 && d > 0 ==> posv(r.v()) && finv(r.v())
    { unimplemented!() }
    #[verifier::external_body] pub fn epsilon() -> (r: Fl)
    F: ensures r.v() == 0real
    S: ensures posv(r.v()), finv(r.v())
    { unimplemented!() }
    #[verifier::external_body] pub fn neg_infinity() -> (r: Fl) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r <==> self.v() == 0real { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool)
    F: ensures !r
    { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_negative(self) -> (r: bool)
    F: ensures r <==> self.v() < 0real
    { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: Fl)
    F: ensures r.v() == rabs(self.v())
    S: ensures !nanv(self.v()) ==> nnv(r.v()), nanv(self.v()) ==> nanv(r.v()), infv(r.v()) <==> infv(self.v())
    { unimplemented!() }
    #[verifier::external_body] pub fn signum(self) -> (r: Fl)
    F: ensures r.v() == rsgn(self.v())
    { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: Fl)
    F: ensures self.v() >= 0real ==> is_sqrt(r.v(), self.v())
    { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: Fl)
    F: ensures self.v() != 0real ==> r.v() == 1real / self.v()
    { unimplemented!() }
    #[verifier::external_body] pub fn hypot(self, o: Fl) -> (r: Fl)
    F: ensures is_sqrt(r.v(), self.v() * self.v() + o.v() * o.v())
    { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: Fl) -> (r: Fl)
    F: ensures r.v() == rmax(self.v(), o.v())
    { unimplemented!() }
}
impl Add for Fl { type Output = Fl;
    #[verifier::external_body] fn add(self, o: Fl) -> (r: Fl)
    F: ensures r.v() == self.v() + o.v()
    S: ensures nanv(self.v()) || nanv(o.v()) ==> nanv(r.v()), nnv(self.v()) && nnv(o.v()) ==> nnv(r.v()) && (infv(self.v()) || infv(o.v()) ==> infv(r.v()))
    { unimplemented!() } }
impl Sub for Fl { type Output = Fl;
    #[verifier::external_body] fn sub(self, o: Fl) -> (r: Fl)
    F: ensures r.v() == self.v() - o.v()
    S: ensures finv(self.v()) && finv(o.v()) ==> !nanv(r.v())
    { unimplemented!() } }
impl Mul for Fl { type Output = Fl;
    #[verifier::external_body] fn mul(self, o: Fl) -> (r: Fl)
    F: ensures r.v() == self.v() * o.v()
    S: ensures nanv(self.v()) || nanv(o.v()) ==> nanv(r.v()), nnv(self.v()) && nnv(o.v()) && !infv(self.v()) && !infv(o.v()) ==> nnv(r.v()), posv(self.v()) && finv(self.v()) && nnv(o.v()) ==> nnv(r.v()) && (infv(o.v()) ==> infv(r.v())), !nanv(self.v()) && posv(o.v()) && finv(o.v()) ==> !nanv(r.v()), self.v() == o.v() && !nanv(self.v()) ==> nnv(r.v())
    { unimplemented!() } }
impl Div for Fl { type Output = Fl;
    #[verifier::external_body] fn div(self, o: Fl) -> (r: Fl)
    F: ensures o.v() != 0real ==> r.v() == self.v() / o.v()
    { unimplemented!() } }
impl Neg for Fl { type Output = Fl;
    #[verifier::external_body] fn neg(self) -> (r: Fl)
    F: ensures r.v() == -self.v()
    { unimplemented!() } }
impl AddAssign for Fl {
    #[verifier::external_body] fn add_assign(&mut self, o: Fl)
    F: ensures final(self).v() == old(self).v() + o.v()
    { unimplemented!() } }
impl SubAssign for Fl {
    #[verifier::external_body] fn sub_assign(&mut self, o: Fl)
    F: ensures final(self).v() == old(self).v() - o.v()
    { unimplemented!() } }
impl MulAssign for Fl {
    #[verifier::external_body] fn mul_assign(&mut self, o: Fl)
    F: ensures final(self).v() == old(self).v() * o.v()
    { unimplemented!() } }
impl DivAssign for Fl {
    #[verifier::external_body] fn div_assign(&mut self, o: Fl)
    F: ensures o.v() != 0real ==> final(self).v() == old(self).v() / o.v()
    { unimplemented!() } }
impl PartialEq for Fl {
    #[verifier::external_body] fn eq(&self, o: &Fl) -> (r: bool)
    F: ensures r <==> self.v() == o.v()
    { unimplemented!() } }
impl PartialOrd for Fl {
    #[verifier::external_body] fn partial_cmp(&self, o: &Fl) -> (r: Option<core::cmp::Ordering>)
    F: ensures r == Some(cmpv(self.v(), o.v()))
    S: ensures r is None <==> nanv(self.v()) || nanv(o.v()), r is Some ==> r == Some(cmpv(self.v(), o.v()))
    { unimplemented!() }
    #[verifier::external_body] fn lt(&self, o: &Fl) -> (r: bool)
    F: ensures r <==> self.v() < o.v()
    { unimplemented!() }
    #[verifier::external_body] fn le(&self, o: &Fl) -> (r: bool)
    F: ensures r <==> self.v() <= o.v()
    { unimplemented!() }
    #[verifier::external_body] fn gt(&self, o: &Fl) -> (r: bool)
    F: ensures r <==> self.v() > o.v()
    S: ensures r ==> !nanv(self.v()) && !nanv(o.v()) && !(nnv(o.v()) && infv(o.v()))
    { unimplemented!() }
    #[verifier::external_body] fn ge(&self, o: &Fl) -> (r: bool)
    F: ensures r <==> self.v() >= o.v()
    S: ensures nnv(self.v()) && o.v() == 0real ==> r
    { unimplemented!() }
}
impl vstd::std_specs::ops::NegSpecImpl for Fl { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Fl { arbitrary() } }
impl vstd::std_specs::ops::AddSpecImpl<Fl> for Fl { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: Fl) -> bool { true } open spec fn add_spec(self, o: Fl) -> Fl { arbitrary() } }
impl vstd::std_specs::ops::SubSpecImpl<Fl> for Fl { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: Fl) -> bool { true } open spec fn sub_spec(self, o: Fl) -> Fl { arbitrary() } }
impl vstd::std_specs::ops::MulSpecImpl<Fl> for Fl { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: Fl) -> bool { true } open spec fn mul_spec(self, o: Fl) -> Fl { arbitrary() } }
impl vstd::std_specs::ops::DivSpecImpl<Fl> for Fl { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: Fl) -> bool { true } open spec fn div_spec(self, o: Fl) -> Fl { arbitrary() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<Fl> for Fl { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: Fl) -> bool { true } open spec fn add_assign_spec(&self, o: Fl) -> &Fl { arbitrary() } }
impl vstd::std_specs::ops::SubAssignSpecImpl<Fl> for Fl { open spec fn obeys_sub_assign_spec() -> bool { false } open spec fn sub_assign_req(&self, o: Fl) -> bool { true } open spec fn sub_assign_spec(&self, o: Fl) -> &Fl { arbitrary() } }
impl vstd::std_specs::ops::MulAssignSpecImpl<Fl> for Fl { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: Fl) -> bool { true } open spec fn mul_assign_spec(&self, o: Fl) -> &Fl { arbitrary() } }
impl vstd::std_specs::ops::DivAssignSpecImpl<Fl> for Fl { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: Fl) -> bool { true } open spec fn div_assign_spec(&self, o: Fl) -> &Fl { arbitrary() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Fl { open spec fn obeys_eq_spec() -> bool { false } open spec fn eq_spec(&self, o: &Fl) -> bool { arbitrary() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Fl { open spec fn obeys_partial_cmp_spec() -> bool { false } open spec fn partial_cmp_spec(&self, o: &Fl) -> Option<core::cmp::Ordering> { arbitrary() } }
}
