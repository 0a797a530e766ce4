fn givens::GivensRotation::cancel_y
@ret r
@spec
  ensures r is Some <==> y.v() != 0real,
F:  r matches Some(p) ==> p.1.v() > 0real && p.1.v() * p.1.v() == x.v() * x.v() + y.v() * y.v() && p.0.c.v() * p.1.v() == x.v() && p.0.s.v() * p.1.v() == -y.v() && unit2(p.0.c.v(), p.0.s.v()) && p.0.c.v() * x.v() - p.0.s.v() * y.v() == p.1.v() && p.0.s.v() * x.v() + p.0.c.v() * y.v() == 0real,
F{
@ghost after `lets=`
  proof { givens_ok(x.v(), y.v(), r.v()); }
F}
fn givens::GivensRotation::cancel_x
@ret r
@spec
  ensures r is Some <==> x.v() != 0real,
F:  r matches Some(p) ==> p.1.v() > 0real && p.1.v() * p.1.v() == x.v() * x.v() + y.v() * y.v() && p.0.c.v() * p.1.v() == y.v() && p.0.s.v() * p.1.v() == x.v() && unit2(p.0.c.v(), p.0.s.v()) && p.0.c.v() * x.v() - p.0.s.v() * y.v() == 0real && p.0.s.v() * x.v() + p.0.c.v() * y.v() == p.1.v(),
@closure 0 |c_0_0: (GivensRotation<Fl>, Fl)| -> (z: (GivensRotation<Fl>, Fl))
F: ensures z.0.c == c_0_0.0.c && z.0.s.v() == -c_0_0.0.s.v() && z.1 == c_0_0.1,
F{
@bindtail res
@ghost end
  proof { if res is Some { let q = res->0; let (s, n) = (q.0.s.v(), q.1.v()); let t = -s; assert(s * n == -(t * n)) by (nonlinear_arith) requires t == -s; let c = q.0.c.v(); let (a, b) = (x.v(), y.v());
    assert(s * s == t * t) by (nonlinear_arith) requires t == -s; assert(t * b == -(s * b)) by (nonlinear_arith) requires t == -s; assert(t * a == -(s * a)) by (nonlinear_arith) requires t == -s; } }
F}
fn givens::GivensRotation::identity
@ret r
@spec
  ensures r.s.v() == 0real,
F:  r.c.v() == 1real,
fn givens::GivensRotation::try_new
@ret r
@spec
F: ensures r matches Some(p) ==> eps.v() >= 0real ==> p.1.v() > 0real && p.1.v() * p.1.v() == c.v() * c.v() + s.v() * s.v() && p.0.c.v() * p.1.v() == c.v() && p.0.s.v() * p.1.v() == s.v() && unit2(p.0.c.v(), p.0.s.v()),
F:  r is None ==> c.v() * c.v() + s.v() * s.v() <= eps.v() * eps.v(),
F{
@ghost start
  let ghost (c0, s0) = (c.v(), s.v());
@ghost before `norm>eps`
  proof { if eps.v() >= 0real && norm.v() > eps.v() { unit2_ok(c0, s0, norm.v()); }
    let (n, e) = (norm.v(), eps.v());
    if n <= e { assert(n * n <= e * e) by (nonlinear_arith) requires 0real <= n, n <= e; } }
F}
fn givens::GivensRotation::new
@ret r
@spec
F: ensures unit2(r.0.c.v(), r.0.s.v()), r.1.v() >= 0real, r.1.v() * r.1.v() == c.v() * c.v() + s.v() * s.v(), r.0.c.v() * r.1.v() == c.v(), r.0.s.v() * r.1.v() == s.v(),
@closure 0 || -> (z: (GivensRotation<Fl>, Fl))
F: ensures z.0.c.v() == 1real && z.0.s.v() == 0real && z.1.v() == 0real,
F{
@ghost start
  proof { let (a, b) = (c.v(), s.v()); sqr_pos(a); sqr_pos(b); assert(0real * 0real == 0real) by (nonlinear_arith); }
F}
fn givens::GivensRotation::c
@ret r
@spec
  ensures r == self.c,
fn givens::GivensRotation::s
@ret r
@spec
  ensures r == self.s,
fn givens::GivensRotation::inverse
@ret r
@spec
  ensures r.c == self.c,
F:  r.s.v() == -self.s.v(),
fn givens::GivensRotation::rotate_rows
@ret r
@spec
  ensures r is Ok <==> old(lhs).m().nc == 2, shape(final(lhs).m(), old(lhs).m()), final(lhs).fin() == old(lhs).fin(),
    r matches Err(e) ==> final(lhs).m() == old(lhs).m() && e == (LinalgError::WrongColumns { expected: 2, actual: old(lhs).m().nc as usize }),
F:  r is Ok ==> rot_rows(old(lhs).m(), final(lhs).m(), self.c.v(), self.s.v()),
F{
@ghost start
  let ghost m0 = lhs.m();
F}
@loop 0
  shape(lhs.m(), old(lhs).m()), lhs.fin() == old(lhs).fin(), old(lhs).m().nc == 2,
F:  forall|r: int| #![trigger lhs.m().at(r, 0)] #![trigger lhs.m().at(r, 1)] 0 <= r < m0.nr ==> lhs.m().at(r, 0) == (if r < j_n { m0.at(r, 0) * self.c.v() + self.s.v() * m0.at(r, 1) } else { m0.at(r, 0) }) && lhs.m().at(r, 1) == (if r < j_n { -self.s.v() * m0.at(r, 0) + m0.at(r, 1) * self.c.v() } else { m0.at(r, 1) }),
fn givens::GivensRotation::rotate_cols
@ret r
@spec
  ensures r is Ok <==> old(rhs).m().nr == 2, shape(final(rhs).m(), old(rhs).m()), final(rhs).fin() == old(rhs).fin(),
    r matches Err(e) ==> final(rhs).m() == old(rhs).m() && e == (LinalgError::WrongRows { expected: 2, actual: old(rhs).m().nr as usize }),
F:  r is Ok ==> rot_cols(old(rhs).m(), final(rhs).m(), self.c.v(), -self.s.v()),
@closure 0 |err: LinalgError| -> (z: LinalgError) ensures z == (match err { LinalgError::WrongColumns { expected, actual } => LinalgError::WrongRows { expected, actual }, e => e }),
@ghost start
  proof { tr_tr(); }
F{
  let ghost m0 = rhs.m();
@bindtail res
@ghost end
  proof { if m0.nr == 2 { rot_cols_tr(m0, rhs.m(), self.c.v(), -self.s.v()); } }
F}
