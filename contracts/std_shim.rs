// Iterators as finite sequences with a position.
use vstd::prelude::*;
use crate::pre::*;
pub use core::ops;
pub use core::iter;
pub use core::cmp;
verus! {
/// the intermediate values of a fold
pub open spec fn fold_acc<T, B, G: Fn(B, T) -> B>(g: G, s: Seq<T>, acc: Seq<B>, init: B, r: B) -> bool {
    acc.len() == s.len() + 1 && acc[0] == init && acc[s.len() as int] == r && forall|k: int| 0 <= k < s.len() ==> g.ensures((acc[k], #[trigger] s[k]), acc[k + 1])
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { x: core::marker::PhantomData<T> }
impl<T> It<T> {
    pub uninterp spec fn sq(self) -> Seq<T>;
    pub uninterp spec fn pos(self) -> int;
    pub open spec fn len(self) -> int { self.sq().len() as int }
    pub open spec fn wf(self) -> bool { 0 <= self.pos() <= self.len() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).sq() == old(self).sq(), old(self).wf() ==> final(self).wf(),
            old(self).pos() < old(self).len() ==> final(self).pos() == old(self).pos() + 1 && r == Some(old(self).sq()[old(self).pos()]),
            old(self).pos() >= old(self).len() ==> final(self).pos() == old(self).pos() && r is None,
    { unimplemented!() }
    #[verifier::external_body] pub fn map<U, G: Fn(T) -> U>(self, g: G) -> (r: It<U>)
        requires self.pos() == 0, forall|k: int| 0 <= k < self.len() ==> g.requires((#[trigger] self.sq()[k],)),
        ensures r.pos() == 0, r.len() == self.len(), forall|k: int| #![trigger r.sq()[k]] #![trigger self.sq()[k]] 0 <= k < self.len() ==> g.ensures((self.sq()[k],), r.sq()[k]),
    { unimplemented!() }
    #[verifier::external_body] pub fn fold<B, G: Fn(B, T) -> B>(self, init: B, g: G) -> (r: B)
        requires self.pos() == 0, forall|b: B, k: int| 0 <= k < self.len() ==> #[trigger] g.requires((b, self.sq()[k])),
        ensures exists|acc: Seq<B>| fold_acc(g, self.sq(), acc, init, r),
    { unimplemented!() }
    #[verifier::external_body] pub fn enumerate(self) -> (r: It<(usize, T)>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.len() == self.len(), forall|k: int| 0 <= k < self.len() ==> (#[trigger] r.sq()[k]).0 == k && r.sq()[k].1 == self.sq()[k],
    { unimplemented!() }
    #[verifier::external_body] pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        requires self.pos() == 0, o.pos() == 0,
        ensures r.pos() == 0, r.len() == imin(self.len(), o.len()), forall|k: int| #![trigger r.sq()[k]] #![trigger self.sq()[k]] 0 <= k < r.len() ==> (r.sq()[k]).0 == self.sq()[k] && r.sq()[k].1 == o.sq()[k],
    { unimplemented!() }
}
impl<'a> It<&'a Fl> {
    #[verifier::external_body] pub fn copied(self) -> (r: It<Fl>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.len() == self.len(), forall|k: int| 0 <= k < self.len() ==> #[trigger] r.sq()[k] == *self.sq()[k],
    { unimplemented!() }
    #[verifier::external_body] pub fn all<G: Fn(&Fl) -> bool>(self, g: G) -> (r: bool)
        requires self.pos() == 0, forall|k: int| 0 <= k < self.len() ==> g.requires((#[trigger] self.sq()[k],)),
        ensures r ==> forall|k: int| 0 <= k < self.len() ==> g.ensures((#[trigger] self.sq()[k],), true),
            !r ==> exists|k: int| 0 <= k < self.len() && g.ensures((#[trigger] self.sq()[k],), false),
    { unimplemented!() }
}
/// sum of the values of a sequence of elements
pub open spec fn seqsum(s: Seq<Fl>) -> real decreases s.len() { if s.len() == 0 { 0real } else { seqsum(s.drop_last()) + s.last().v() } }
impl It<Fl> {
    #[verifier::external_body] pub fn sum(self) -> (r: Fl)
        requires self.pos() == 0,
    F:  ensures r.v() == seqsum(self.sq()),
    { unimplemented!() }
}
/// a comparator that is a total order of the elements never makes sort_by panic
pub open spec fn preorder<T, G: Fn(&T, &T) -> core::cmp::Ordering>(g: G, s: Seq<T>) -> bool {
    (forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> g.requires((#[trigger] &s[i], #[trigger] &s[j])))
    && (forall|i: int, j: int, o: core::cmp::Ordering, p: core::cmp::Ordering| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] g.ensures((&s[i], &s[j]), o) && #[trigger] g.ensures((&s[j], &s[i]), p) ==> rev_ord(o) == p)
    && (forall|i: int, j: int, k: int, o: core::cmp::Ordering, p: core::cmp::Ordering, q: core::cmp::Ordering| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] g.ensures((&s[i], &s[j]), o) && #[trigger] g.ensures((&s[j], &s[k]), p) && #[trigger] g.ensures((&s[i], &s[k]), q) && o != core::cmp::Ordering::Greater && p != core::cmp::Ordering::Greater ==> q != core::cmp::Ordering::Greater)
}
pub open spec fn rev_ord(o: core::cmp::Ordering) -> core::cmp::Ordering { match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less } }
/// p is a permutation of 0..n
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]) }
pub open spec fn ord_le<T, G: Fn(&T, &T) -> core::cmp::Ordering>(g: G, a: T, b: T) -> bool { exists|o: core::cmp::Ordering| #[trigger] g.ensures((&a, &b), o) && o != core::cmp::Ordering::Greater }
pub open spec fn sorted_by<T, G: Fn(&T, &T) -> core::cmp::Ordering>(s: Seq<T>, g: G) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> ord_le(g, #[trigger] s[i], #[trigger] s[j])
}
pub trait SliceExt<T> {
    spec fn sv(&self) -> Seq<T>;
    fn v_sort_by<G: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, g: G)
        requires preorder(g, old(self).sv()),
        ensures
            sorted_by(final(self).sv(), g), final(self).sv().len() == old(self).sv().len(),
            exists|p: Seq<int>| is_perm(p, old(self).sv().len() as int) && forall|i: int| 0 <= i < old(self).sv().len() ==> #[trigger] final(self).sv()[i] == old(self).sv()[p[i]];
}
impl<T> SliceExt<T> for [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_sort_by<G: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, g: G) { unimplemented!() }
}
pub trait VecExt<T> {
    spec fn sv(&self) -> Seq<T>;
    fn v_sort_by<G: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, g: G)
        requires preorder(g, old(self).sv()),
        ensures
            sorted_by(final(self).sv(), g), final(self).sv().len() == old(self).sv().len(),
            exists|p: Seq<int>| is_perm(p, old(self).sv().len() as int) && forall|i: int| 0 <= i < old(self).sv().len() ==> #[trigger] final(self).sv()[i] == old(self).sv()[p[i]];
    fn v_iter(&self) -> It<&T>;
}
impl<T> VecExt<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_sort_by<G: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, g: G) { unimplemented!() }
    #[verifier::external_body] fn v_iter(&self) -> (r: It<&T>) ensures r.pos() == 0, r.len() == self@.len(), forall|k: int| 0 <= k < r.len() ==> *#[trigger] r.sq()[k] == self@[k] { unimplemented!() }
}
impl<T> It<T> {
    #[verifier::external_body] pub fn v_collect(self) -> (r: Vec<T>) requires self.pos() == 0, ensures r@ == self.sq() { unimplemented!() }
}
pub fn into_it<T>(x: It<T>) -> (r: It<T>) ensures r == x { x }
}
