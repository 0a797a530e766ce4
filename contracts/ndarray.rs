// Contracts of the ndarray operations that linfa-linalg calls (assumed, not verified).
use vstd::prelude::*;
use core::ops::*;
use core::marker::PhantomData;
use crate::pre::*;
use crate::std_shim::*;
pub mod prelude { pub use super::*; pub use core::ops::*; }
pub mod linalg { pub use super::{general_mat_mul, general_mat_vec_mul}; }
verus! {
pub trait NdFloat {}
#[derive(Debug)]
pub struct ShapeError;
pub struct OwnedRepr<A> { p: PhantomData<A> }
pub struct ViewRepr<P> { p: PhantomData<P> }
pub trait RawData { type Elem; }
pub trait RawDataClone: RawData {}
pub trait Data: RawData {}
pub trait DataMut: Data {}
impl<A> RawData for OwnedRepr<A> { type Elem = A; }
impl<'a, A> RawData for ViewRepr<&'a A> { type Elem = A; }
impl<'a, A> RawData for ViewRepr<&'a mut A> { type Elem = A; }
impl<A> Data for OwnedRepr<A> {}
impl<'a, A> Data for ViewRepr<&'a A> {}
impl<'a, A> Data for ViewRepr<&'a mut A> {}
impl<A> DataMut for OwnedRepr<A> {}
impl<'a, A> DataMut for ViewRepr<&'a mut A> {}
impl<A> RawDataClone for OwnedRepr<A> {}
pub trait Dimension {}
pub struct Ix1;
pub struct Ix2;
impl Dimension for Ix1 {}
impl Dimension for Ix2 {}
#[derive(Clone, Copy)]
pub struct Axis(pub usize);

#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
#[verifier::reject_recursive_types(D)]
pub struct ArrayBase<S, D> { s: PhantomData<S>, d: PhantomData<D> }
pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<&'a A>, D>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewRepr<&'a mut A>, D>;
pub type Array1<A> = Array<A, Ix1>;
pub type Array2<A> = Array<A, Ix2>;
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
pub type ArrayView2<'a, A> = ArrayView<'a, A, Ix2>;
pub type ArrayViewMut1<'a, A> = ArrayViewMut<'a, A, Ix1>;
pub type ArrayViewMut2<'a, A> = ArrayViewMut<'a, A, Ix2>;

impl<S, D> ArrayBase<S, D> {
    /// shape and elements; fin: those at the end of a mutable view's life
    pub uninterp spec fn m(self) -> M;
    #[verifier::prophetic] pub uninterp spec fn fin(self) -> M;
    /// elements in logical order
    pub uninterp spec fn els(self) -> Seq<real>;
}
/// what a dropped mutable view leaves behind is what it held
pub broadcast axiom fn axiom_res<D>(v: ArrayViewMut<'_, Fl, D>) requires #[trigger] has_resolved(v) ensures v.fin() == v.m();
pub broadcast axiom fn axiom_dims<S: RawData, D>(v: ArrayBase<S, D>) ensures 0 <= (#[trigger] v.m()).nr <= isize::MAX, 0 <= v.m().nc <= isize::MAX;
pub broadcast axiom fn axiom_dim1<S: RawData>(v: ArrayBase<S, Ix1>) ensures (#[trigger] v.m()).nc == 1;
pub broadcast axiom fn axiom_els1<S: RawData>(v: ArrayBase<S, Ix1>) ensures (#[trigger] v.els()).len() == v.m().nr, forall|i: int| 0 <= i < v.m().nr ==> v.els()[i] == #[trigger] v.m().at(i, 0);
/// elements in logical (row-major) order
pub axiom fn axiom_els2<S: RawData>(v: ArrayBase<S, Ix2>) ensures v.els().len() == v.m().nr * v.m().nc, forall|i: int, j: int| inb(v.m(), i, j) ==> #[trigger] v.m().at(i, j) == v.els()[i * v.m().nc + j];
pub broadcast group nd { axiom_res, axiom_dims, axiom_dim1, axiom_els1 }

// ---- slices -------------------------------------------------------------------------------
pub trait SliceArg<D>: Sized { type OutDim;
    spec fn ok(self, m: M) -> bool;
    spec fn get(self, m: M) -> M;
    spec fn put(self, m: M, x: M) -> M;
    /// region of the parent
    spec fn reg(self, m: M) -> (int, int, int, int);
}
pub struct Sl { pub lo: usize, pub hi: Option<usize> }
pub struct SlStep { pub lo: usize, pub hi: Option<usize>, pub step: usize }
pub struct Sx { pub i: usize }
pub open spec fn hi_of(h: Option<usize>, n: int) -> int { match h { Some(x) => x as int, None => n } }
pub open spec fn rok(s: Sl, n: int) -> bool { s.lo <= hi_of(s.hi, n) <= n }
impl SliceArg<Ix1> for Sl { type OutDim = Ix1;
    open spec fn ok(self, m: M) -> bool { rok(self, m.nr) }
    open spec fn get(self, m: M) -> M { subm(m, self.lo as int, hi_of(self.hi, m.nr), 0, 1) }
    open spec fn put(self, m: M, x: M) -> M { paste(m, self.lo as int, hi_of(self.hi, m.nr), 0, 1, x) }
    open spec fn reg(self, m: M) -> (int, int, int, int) { (self.lo as int, hi_of(self.hi, m.nr), 0, 1) }
}
impl SliceArg<Ix2> for (Sl, Sx) { type OutDim = Ix1;
    open spec fn ok(self, m: M) -> bool { rok(self.0, m.nr) && self.1.i < m.nc }
    open spec fn get(self, m: M) -> M { subm(m, self.0.lo as int, hi_of(self.0.hi, m.nr), self.1.i as int, self.1.i + 1) }
    open spec fn put(self, m: M, x: M) -> M { paste(m, self.0.lo as int, hi_of(self.0.hi, m.nr), self.1.i as int, self.1.i + 1, x) }
    open spec fn reg(self, m: M) -> (int, int, int, int) { (self.0.lo as int, hi_of(self.0.hi, m.nr), self.1.i as int, self.1.i + 1) }
}
impl SliceArg<Ix2> for (Sl, Sl) { type OutDim = Ix2;
    open spec fn ok(self, m: M) -> bool { rok(self.0, m.nr) && rok(self.1, m.nc) }
    open spec fn get(self, m: M) -> M { subm(m, self.0.lo as int, hi_of(self.0.hi, m.nr), self.1.lo as int, hi_of(self.1.hi, m.nc)) }
    open spec fn put(self, m: M, x: M) -> M { paste(m, self.0.lo as int, hi_of(self.0.hi, m.nr), self.1.lo as int, hi_of(self.1.hi, m.nc), x) }
    open spec fn reg(self, m: M) -> (int, int, int, int) { (self.0.lo as int, hi_of(self.0.hi, m.nr), self.1.lo as int, hi_of(self.1.hi, m.nc)) }
}
/// number of elements of a stepped range
pub open spec fn stepn(s: SlStep, n: int) -> int { (hi_of(s.hi, n) - s.lo + s.step - 1) / (s.step as int) }
pub open spec fn stepok(s: SlStep, n: int) -> bool { s.lo <= hi_of(s.hi, n) <= n && s.step > 0 }
pub open spec fn onstep(s: SlStep, n: int, i: int) -> bool { s.lo <= i < hi_of(s.hi, n) && (i - s.lo) % (s.step as int) == 0 }
impl SliceArg<Ix2> for (Sl, SlStep) { type OutDim = Ix2;
    open spec fn ok(self, m: M) -> bool { rok(self.0, m.nr) && stepok(self.1, m.nc) }
    open spec fn get(self, m: M) -> M { M { nr: hi_of(self.0.hi, m.nr) - self.0.lo, nc: stepn(self.1, m.nc), f: |i: int, j: int| m.at(self.0.lo + i, self.1.lo + j * self.1.step) } }
    open spec fn put(self, m: M, x: M) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| if self.0.lo <= i < hi_of(self.0.hi, m.nr) && onstep(self.1, m.nc, j) { x.at(i - self.0.lo, (j - self.1.lo) / (self.1.step as int)) } else { m.at(i, j) } } }
    open spec fn reg(self, m: M) -> (int, int, int, int) { (self.0.lo as int, hi_of(self.0.hi, m.nr), self.1.lo as int, hi_of(self.1.hi, m.nc)) }
}
impl SliceArg<Ix2> for (SlStep, Sl) { type OutDim = Ix2;
    open spec fn ok(self, m: M) -> bool { stepok(self.0, m.nr) && rok(self.1, m.nc) }
    open spec fn get(self, m: M) -> M { M { nr: stepn(self.0, m.nr), nc: hi_of(self.1.hi, m.nc) - self.1.lo, f: |i: int, j: int| m.at(self.0.lo + i * self.0.step, self.1.lo + j) } }
    open spec fn put(self, m: M, x: M) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| if onstep(self.0, m.nr, i) && self.1.lo <= j < hi_of(self.1.hi, m.nc) { x.at((i - self.0.lo) / (self.0.step as int), j - self.1.lo) } else { m.at(i, j) } } }
    open spec fn reg(self, m: M) -> (int, int, int, int) { (self.0.lo as int, hi_of(self.0.hi, m.nr), self.1.lo as int, hi_of(self.1.hi, m.nc)) }
}
pub open spec fn disjoint(a: (int, int, int, int), b: (int, int, int, int)) -> bool { a.1 <= b.0 || b.1 <= a.0 || a.3 <= b.2 || b.3 <= a.2 }

// ---- element access -------------------------------------------------------------------------
pub trait NdIndex<D>: Sized { spec fn r(self) -> int; spec fn c(self) -> int; }
impl NdIndex<Ix1> for usize { open spec fn r(self) -> int { self as int } open spec fn c(self) -> int { 0 } }
impl NdIndex<Ix2> for (usize, usize) { open spec fn r(self) -> int { self.0 as int } open spec fn c(self) -> int { self.1 as int } }

pub trait ShapeArg<D>: Sized { spec fn snr(self) -> int; spec fn snc(self) -> int; }
impl ShapeArg<Ix1> for usize { open spec fn snr(self) -> int { self as int } open spec fn snc(self) -> int { 1 } }
impl ShapeArg<Ix2> for (usize, usize) { open spec fn snr(self) -> int { self.0 as int } open spec fn snc(self) -> int { self.1 as int } }

impl<S: Data<Elem = Fl>, D> ArrayBase<S, D> {
    #[verifier::external_body] pub fn get<I: NdIndex<D>>(&self, i: I) -> (r: Option<&Fl>)
        ensures r is Some <==> inb(self.m(), i.r(), i.c()), r matches Some(x) ==> x.v() == self.m().at(i.r(), i.c()) { unimplemented!() }
    #[verifier::external_body] pub fn uget<I: NdIndex<D>>(&self, i: I) -> (r: &Fl)
        requires inb(self.m(), i.r(), i.c()), ensures r.v() == self.m().at(i.r(), i.c()) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<I: NdIndex<D>>(&mut self, i: I) -> (r: Option<&mut Fl>) where S: DataMut
        ensures r is Some <==> inb(old(self).m(), i.r(), i.c()), final(self).fin() == old(self).fin(),
            r is None ==> final(self).m() == old(self).m(),
            r matches Some(x) ==> x.v() == old(self).m().at(i.r(), i.c()) && final(self).m() == set(old(self).m(), i.r(), i.c(), final(x).v()) { unimplemented!() }
    #[verifier::external_body] pub fn uget_mut<I: NdIndex<D>>(&mut self, i: I) -> (r: &mut Fl) where S: DataMut
        requires inb(old(self).m(), i.r(), i.c()),
        ensures r.v() == old(self).m().at(i.r(), i.c()), final(self).fin() == old(self).fin(), final(self).m() == set(old(self).m(), i.r(), i.c(), final(r).v()) { unimplemented!() }
    #[verifier::external_body] pub fn slice<I: SliceArg<D>>(&self, info: I) -> (r: ArrayView<'_, Fl, I::OutDim>)
        requires info.ok(self.m()), ensures r.m() == info.get(self.m()) { unimplemented!() }
    #[verifier::external_body] pub fn slice_mut<I: SliceArg<D>>(&mut self, info: I) -> (r: ArrayViewMut<'_, Fl, I::OutDim>) where S: DataMut
        requires info.ok(old(self).m()),
        ensures r.m() == info.get(old(self).m()), final(self).m() == info.put(old(self).m(), r.fin()), final(self).fin() == old(self).fin() { unimplemented!() }
    #[verifier::external_body] pub fn slice_move<I: SliceArg<D>>(self, info: I) -> (r: ArrayBase<S, I::OutDim>)
        requires info.ok(self.m()),
        ensures r.m() == info.get(self.m()), self.fin() == info.put(self.m(), r.fin()) { unimplemented!() }
    #[verifier::external_body] pub fn multi_slice_mut<I: SliceArg<D>, J: SliceArg<D>>(&mut self, info: (I, J)) -> (r: (ArrayViewMut<'_, Fl, I::OutDim>, ArrayViewMut<'_, Fl, J::OutDim>)) where S: DataMut
        requires info.0.ok(old(self).m()), info.1.ok(old(self).m()), disjoint(info.0.reg(old(self).m()), info.1.reg(old(self).m())),
        ensures r.0.m() == info.0.get(old(self).m()), r.1.m() == info.1.get(old(self).m()), final(self).fin() == old(self).fin(),
            final(self).m() == info.1.put(info.0.put(old(self).m(), r.0.fin()), r.1.fin()) { unimplemented!() }
    #[verifier::external_body] pub fn view(&self) -> (r: ArrayView<'_, Fl, D>) ensures r.m() == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn view_mut(&mut self) -> (r: ArrayViewMut<'_, Fl, D>) where S: DataMut
        ensures r.m() == old(self).m(), final(self).m() == r.fin(), final(self).fin() == old(self).fin() { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: Array<Fl, D>) ensures r.m() == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: Array<Fl, D>) ensures r.m() == self.m(), self.fin() == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: ArrayBase<S, D>) where S: RawDataClone ensures r.m() == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r <==> self.m().nr == 0 || self.m().nc == 0 { unimplemented!() }
    #[verifier::external_body] pub fn fold<'a, B, G: Fn(B, &'a Fl) -> B>(&'a self, init: B, g: G) -> (r: B)
        requires forall|b: B, x: &'a Fl| #[trigger] g.requires((b, x)),
        ensures exists|s: Seq<&'a Fl>, acc: Seq<B>| is_els(s, self.els()) && #[trigger] fold_acc(g, s, acc, init, r),
    { unimplemented!() }
    #[verifier::external_body] pub fn v_iter(&self) -> (r: It<&Fl>) ensures r.pos() == 0, is_els(r.sq(), self.els()) { unimplemented!() }
    #[verifier::external_body] pub fn v_into_iter(self) -> (r: It<Fl>) ensures r.pos() == 0, r.sq().len() == self.els().len(), forall|k: int| 0 <= k < r.sq().len() ==> (#[trigger] r.sq()[k]).v() == self.els()[k] { unimplemented!() }
    #[verifier::external_body] pub fn fill(&mut self, x: Fl) where S: DataMut
        ensures final(self).m() == konst(old(self).m().nr, old(self).m().nc, x.v()), final(self).fin() == old(self).fin() { unimplemented!() }
    #[verifier::external_body] pub fn assign<T: Data<Elem = Fl>>(&mut self, o: &ArrayBase<T, D>) where S: DataMut
        requires shape(old(self).m(), o.m()),
        ensures final(self).m() == o.m(), final(self).fin() == old(self).fin() { unimplemented!() }
    #[verifier::external_body] pub fn scaled_add<T: Data<Elem = Fl>>(&mut self, alpha: Fl, o: &ArrayBase<T, D>) where S: DataMut
        requires shape(old(self).m(), o.m()),
        ensures shape(final(self).m(), old(self).m()), final(self).fin() == old(self).fin(),
    F:      final(self).m() == axpy(old(self).m(), alpha.v(), o.m()),
    { unimplemented!() }
    #[verifier::external_body] pub fn mapv_into<G: Fn(Fl) -> Fl>(self, g: G) -> (r: ArrayBase<S, D>) where S: DataMut
        requires forall|x: Fl| #[trigger] g.requires((x,)),
        ensures shape(r.m(), self.m()), self.fin() == r.fin(),
            forall|i: int, j: int| inb(self.m(), i, j) ==> exists|x: Fl, y: Fl| x.v() == self.m().at(i, j) && y.v() == #[trigger] r.m().at(i, j) && #[trigger] g.ensures((x,), y),
    { unimplemented!() }
    #[verifier::external_body] pub fn mapv<G: Fn(Fl) -> Fl>(&self, g: G) -> (r: Array<Fl, D>)
        requires forall|x: Fl| #[trigger] g.requires((x,)),
        ensures shape(r.m(), self.m()),
            forall|i: int, j: int| inb(self.m(), i, j) ==> exists|x: Fl, y: Fl| x.v() == self.m().at(i, j) && y.v() == #[trigger] r.m().at(i, j) && #[trigger] g.ensures((x,), y),
    { unimplemented!() }
}
pub open spec fn is_els(s: Seq<&Fl>, e: Seq<real>) -> bool { s.len() == e.len() && forall|k: int| #![trigger s[k]] #![trigger e[k]] 0 <= k < s.len() ==> s[k].v() == e[k] }
impl<D> Array<Fl, D> {
    #[verifier::external_body] pub fn zeros<H: ShapeArg<D>>(h: H) -> (r: Array<Fl, D>)
        requires h.snr() <= isize::MAX, h.snc() <= isize::MAX,
        ensures r.m() == konst(h.snr(), h.snc(), 0real) { unimplemented!() }
}
impl Array<Fl, Ix2> {
    #[verifier::external_body] pub fn eye(n: usize) -> (r: Array<Fl, Ix2>) requires n <= isize::MAX,
        ensures r.m().nr == n, r.m().nc == n,
    F:      r.m() == ident(n as int, n as int),
    { unimplemented!() }
    #[verifier::external_body] pub fn from_diag<T: Data<Elem = Fl>>(d: &ArrayBase<T, Ix1>) -> (r: Array<Fl, Ix2>)
        ensures r.m() == (M { nr: d.m().nr, nc: d.m().nr, f: |i: int, j: int| if i == j { d.m().at(i, 0) } else { 0real } }) { unimplemented!() }
    #[verifier::external_body] pub fn from_shape_vec(h: (usize, usize), v: Vec<Fl>) -> (r: core::result::Result<Array<Fl, Ix2>, ShapeError>)
        requires h.0 * h.1 <= isize::MAX,
        ensures r is Ok <==> v@.len() == h.0 * h.1,
            r matches Ok(a) ==> a.m() == (M { nr: h.0 as int, nc: h.1 as int, f: |i: int, j: int| v@[i * h.1 + j].v() }) { unimplemented!() }
}
impl<S: Data<Elem = Fl>> ArrayBase<S, Ix1> {
    /// Some for a standard layout (what eigvals returns), which is the documented precondition of its only caller
    #[verifier::external_body] pub fn as_slice_mut(&mut self) -> (r: Option<&mut [Fl]>) where S: DataMut
        ensures r is Some, shape(final(self).m(), old(self).m()), final(self).fin() == old(self).fin(),
            r->0@.len() == old(self).m().nr, final(r->0)@.len() == old(self).m().nr,
            forall|i: int| 0 <= i < old(self).m().nr ==> (#[trigger] r->0@[i]).v() == old(self).m().at(i, 0),
            forall|i: int| 0 <= i < old(self).m().nr ==> (#[trigger] final(self).m().at(i, 0)) == final(r->0)@[i].v() { unimplemented!() }
    #[verifier::external_body] pub fn v_iter_mut(&mut self) -> (r: It<&mut Fl>) where S: DataMut
        ensures r.pos() == 0, r.len() == old(self).m().nr, shape(final(self).m(), old(self).m()), final(self).fin() == old(self).fin(),
            forall|i: int| 0 <= i < r.len() ==> (*#[trigger] r.sq()[i]).v() == old(self).m().at(i, 0),
            forall|i: int| 0 <= i < r.len() ==> (#[trigger] final(self).m().at(i, 0)) == (*final(r.sq()[i])).v() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.m().nr { unimplemented!() }
    #[verifier::external_body] pub fn insert_axis(self, ax: Axis) -> (r: ArrayBase<S, Ix2>) requires ax.0 < 2,
        ensures ax.0 == 1 ==> r.m() == self.m(), ax.0 == 0 ==> r.m() == tr(self.m()), ax.0 == 1 ==> self.fin() == r.fin(), ax.0 == 0 ==> self.fin() == tr(r.fin()) { unimplemented!() }
}
impl<S: RawData> ArrayBase<S, Ix2> {
    #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self.m().nr { unimplemented!() }
    #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r == self.m().nc { unimplemented!() }
    #[verifier::external_body] pub fn dim(&self) -> (r: (usize, usize)) ensures r.0 == self.m().nr, r.1 == self.m().nc { unimplemented!() }
    #[verifier::external_body] pub fn reversed_axes(self) -> (r: Self) ensures r.m() == tr(self.m()), self.fin() == tr(r.fin()) { unimplemented!() }
}
impl<S: Data<Elem = Fl>> ArrayBase<S, Ix2> {
    #[verifier::external_body] pub fn t(&self) -> (r: ArrayView<'_, Fl, Ix2>) ensures r.m() == tr(self.m()) { unimplemented!() }
    #[verifier::external_body] pub fn column(&self, j: usize) -> (r: ArrayView<'_, Fl, Ix1>) requires j < self.m().nc,
        ensures r.m() == subm(self.m(), 0, self.m().nr, j as int, j + 1) { unimplemented!() }
    #[verifier::external_body] pub fn row(&self, j: usize) -> (r: ArrayView<'_, Fl, Ix1>) requires j < self.m().nr,
        ensures r.m() == tr(subm(self.m(), j as int, j + 1, 0, self.m().nc)) { unimplemented!() }
    #[verifier::external_body] pub fn column_mut(&mut self, j: usize) -> (r: ArrayViewMut<'_, Fl, Ix1>) where S: DataMut requires j < old(self).m().nc,
        ensures r.m() == subm(old(self).m(), 0, old(self).m().nr, j as int, j + 1), final(self).fin() == old(self).fin(),
            final(self).m() == paste(old(self).m(), 0, old(self).m().nr, j as int, j + 1, r.fin()) { unimplemented!() }
    #[verifier::external_body] pub fn diag(&self) -> (r: ArrayView<'_, Fl, Ix1>) ensures r.m() == diagv(self.m()) { unimplemented!() }
    #[verifier::external_body] pub fn diag_mut(&mut self) -> (r: ArrayViewMut<'_, Fl, Ix1>) where S: DataMut
        ensures r.m() == diagv(old(self).m()), final(self).m() == putdiag(old(self).m(), r.fin()), final(self).fin() == old(self).fin() { unimplemented!() }
    #[verifier::external_body] pub fn index_axis(&self, ax: Axis, k: usize) -> (r: ArrayView<'_, Fl, Ix1>)
        requires ax.0 < 2, ax.0 == 0 ==> k < self.m().nr, ax.0 == 1 ==> k < self.m().nc,
        ensures r.m() == (if ax.0 == 1 { subm(self.m(), 0, self.m().nr, k as int, k + 1) } else { tr(subm(self.m(), k as int, k + 1, 0, self.m().nc)) }) { unimplemented!() }
    #[verifier::external_body] pub fn index_axis_mut(&mut self, ax: Axis, k: usize) -> (r: ArrayViewMut<'_, Fl, Ix1>) where S: DataMut
        requires ax.0 < 2, ax.0 == 0 ==> k < old(self).m().nr, ax.0 == 1 ==> k < old(self).m().nc,
        ensures r.m() == (if ax.0 == 1 { subm(old(self).m(), 0, old(self).m().nr, k as int, k + 1) } else { tr(subm(old(self).m(), k as int, k + 1, 0, old(self).m().nc)) }),
            final(self).fin() == old(self).fin(),
            final(self).m() == (if ax.0 == 1 { paste(old(self).m(), 0, old(self).m().nr, k as int, k + 1, r.fin()) } else { paste(old(self).m(), k as int, k + 1, 0, old(self).m().nc, tr(r.fin())) }) { unimplemented!() }
}
// ---- products -------------------------------------------------------------------------------
pub trait Dot<R> { type Output; spec fn dot_req(&self, o: &R) -> bool; fn dot(&self, o: &R) -> (r: Self::Output) requires self.dot_req(o); }
impl<S: Data<Elem = Fl>, T: Data<Elem = Fl>> Dot<ArrayBase<T, Ix1>> for ArrayBase<S, Ix1> { type Output = Fl;
    open spec fn dot_req(&self, o: &ArrayBase<T, Ix1>) -> bool { self.m().nr == o.m().nr }
    #[verifier::external_body] fn dot(&self, o: &ArrayBase<T, Ix1>) -> (r: Fl)
    F:  ensures r.v() == dot(col(self.m(), 0), col(o.m(), 0), 0, self.m().nr),
    { unimplemented!() } }
impl<S: Data<Elem = Fl>, T: Data<Elem = Fl>> Dot<ArrayBase<T, Ix2>> for ArrayBase<S, Ix2> { type Output = Array<Fl, Ix2>;
    open spec fn dot_req(&self, o: &ArrayBase<T, Ix2>) -> bool { self.m().nc == o.m().nr }
    #[verifier::external_body] fn dot(&self, o: &ArrayBase<T, Ix2>) -> (r: Array<Fl, Ix2>)
        ensures r.m().nr == self.m().nr, r.m().nc == o.m().nc,
    F:      r.m() == mm(self.m(), o.m()),
    { unimplemented!() } }
#[verifier::external_body] pub fn general_mat_mul<S: Data<Elem = Fl>, T: Data<Elem = Fl>, U: DataMut<Elem = Fl>>(alpha: Fl, a: &ArrayBase<S, Ix2>, b: &ArrayBase<T, Ix2>, beta: Fl, c: &mut ArrayBase<U, Ix2>)
    requires a.m().nc == b.m().nr, old(c).m().nr == a.m().nr, old(c).m().nc == b.m().nc,
    ensures shape(final(c).m(), old(c).m()), final(c).fin() == old(c).fin(),
F:      final(c).m() == (M { nr: old(c).m().nr, nc: old(c).m().nc, f: |i: int, j: int| alpha.v() * mm(a.m(), b.m()).at(i, j) + beta.v() * old(c).m().at(i, j) }),
{ unimplemented!() }
#[verifier::external_body] pub fn general_mat_vec_mul<S: Data<Elem = Fl>, T: Data<Elem = Fl>, U: DataMut<Elem = Fl>>(alpha: Fl, a: &ArrayBase<S, Ix2>, x: &ArrayBase<T, Ix1>, beta: Fl, y: &mut ArrayBase<U, Ix1>)
    requires a.m().nc == x.m().nr, old(y).m().nr == a.m().nr,
    ensures shape(final(y).m(), old(y).m()), final(y).fin() == old(y).fin(),
F:      final(y).m() == (M { nr: old(y).m().nr, nc: old(y).m().nc, f: |i: int, j: int| alpha.v() * mm(a.m(), x.m()).at(i, j) + beta.v() * old(y).m().at(i, j) }),
{ unimplemented!() }
// ---- operators --------------------------------------------------------------------------------
impl<S: DataMut<Elem = Fl>, D> DivAssign<Fl> for ArrayBase<S, D> {
    #[verifier::external_body] fn div_assign(&mut self, o: Fl)
        ensures shape(final(self).m(), old(self).m()), final(self).fin() == old(self).fin(),
    F:      o.v() != 0real ==> final(self).m() == divs(old(self).m(), o.v()),
    { unimplemented!() } }
impl<S: DataMut<Elem = Fl>, D> MulAssign<Fl> for ArrayBase<S, D> {
    #[verifier::external_body] fn mul_assign(&mut self, o: Fl)
        ensures shape(final(self).m(), old(self).m()), final(self).fin() == old(self).fin(),
    F:      final(self).m() == scale(old(self).m(), o.v()),
    { unimplemented!() } }
impl<S: DataMut<Elem = Fl>, D> vstd::std_specs::ops::DivAssignSpecImpl<Fl> for ArrayBase<S, D> { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: Fl) -> bool { true } open spec fn div_assign_spec(&self, o: Fl) -> &Self { arbitrary() } }
impl<S: DataMut<Elem = Fl>, D> vstd::std_specs::ops::MulAssignSpecImpl<Fl> for ArrayBase<S, D> { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: Fl) -> bool { true } open spec fn mul_assign_spec(&self, o: Fl) -> &Self { arbitrary() } }
impl<S: Data<Elem = Fl>, D: Dimension, I: NdIndex<D>> Index<I> for ArrayBase<S, D> { type Output = Fl;
    #[verifier::external_body] fn index(&self, i: I) -> (r: &Fl) ensures r.v() == self.m().at(i.r(), i.c()) { unimplemented!() } }
impl<S: Data<Elem = Fl>, D: Dimension, I: NdIndex<D>> vstd::std_specs::core::IndexSpecImpl<I> for ArrayBase<S, D> { open spec fn index_req(&self, i: &I) -> bool { inb(self.m(), i.r(), i.c()) } }
impl<S: DataMut<Elem = Fl>, D: Dimension, I: NdIndex<D>> IndexMut<I> for ArrayBase<S, D> {
    #[verifier::external_body] fn index_mut(&mut self, i: I) -> (r: &mut Fl)
        ensures r.v() == old(self).m().at(i.r(), i.c()), final(self).fin() == old(self).fin(), final(self).m() == set(old(self).m(), i.r(), i.c(), final(r).v()) { unimplemented!() } }
}
