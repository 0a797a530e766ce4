fn reflection::Reflection::new
@ret r
@spec
  ensures r.axis == axis, r.bias == bias,
fn reflection::Reflection::axis
@ret r
@spec
  ensures *r == self.axis,
fn reflection::Reflection::reflect_cols
@spec
  requires self.axis.m().nr == old(rhs).m().nr || old(rhs).m().nc == 0,
  ensures shape(final(rhs).m(), old(rhs).m()), final(rhs).fin() == old(rhs).fin(),
  F: forall|i: int, j: int| inb(old(rhs).m(), i, j) ==> #[trigger] final(rhs).m().at(i, j) == rf(col(self.axis.m(), 0), self.bias.v(), col(old(rhs).m(), j), old(rhs).m().nr)(i),
@ghost start
  let ghost r0 = rhs.m();
@loop 0
  shape(rhs.m(), r0), rhs.fin() == old(rhs).fin(),
F{
  forall|r: int, c: int| inb(r0, r, c) && c >= i_n ==> #[trigger] rhs.m().at(r, c) == r0.at(r, c),
  forall|r: int, c: int| inb(r0, r, c) && c < i_n ==> #[trigger] rhs.m().at(r, c) == rf(col(self.axis.m(), 0), self.bias.v(), col(r0, c), r0.nr)(r),
F}
F{
@ghost loop 0 start
  let ghost ri = rhs.m();
@ghost loop 0 end
  proof {
    let u = col(self.axis.m(), 0);
    let n = r0.nr;
    let x = col(subm(ri, 0, n, i as int, i + 1), 0);
    assert forall|k: int| 0 <= k < n implies #[trigger] x(k) == col(r0, i as int)(k) by { assert(ri.at(k, i as int) == r0.at(k, i as int)); }
    dot_ext1(u, x, u, col(r0, i as int), 0, n);
    assert((-2int) as real == -2real);
    assert forall|r: int, c: int| inb(r0, r, c) && c < i_n implies #[trigger] rhs.m().at(r, c) == rf(u, self.bias.v(), col(r0, c), r0.nr)(r) by {
      if c == i { assert(ri.at(r, c) == r0.at(r, c)); assert(factor.v() == (dot(u, x, 0, n) - self.bias.v()) * m_two.v()); } else { assert(ri.at(r, c) == rf(u, self.bias.v(), col(r0, c), r0.nr)(r)); }
    }
  }
F}
fn reflection::Reflection::reflect_rows
@spec
  requires self.axis.m().nr == old(lhs).m().nc || old(lhs).m().nr == 0,
  ensures shape(final(lhs).m(), old(lhs).m()), final(lhs).fin() == old(lhs).fin(),
  F: forall|i: int, j: int| inb(old(lhs).m(), i, j) ==> #[trigger] final(lhs).m().at(i, j) == rf(col(self.axis.m(), 0), self.bias.v(), row(old(lhs).m(), i), old(lhs).m().nc)(j),
F{
@ghost start
  let ghost l0 = lhs.m();
@ghost end
  proof {
    assert forall|i: int, j: int| inb(l0, i, j) implies #[trigger] lhs.m().at(i, j) == rf(col(self.axis.m(), 0), self.bias.v(), row(l0, i), l0.nc)(j) by {
      assert(tr(lhs.m()).at(j, i) == rf(col(self.axis.m(), 0), self.bias.v(), col(tr(l0), i), l0.nc)(j));
      assert(col(tr(l0), i) =~= row(l0, i));
    }
  }
F}
