fn cholesky::CholeskyInplace[ArrayBase]::cholesky_inplace_dirty
@ret r
@spec
  ensures sq(old(self).m()) || r is Err,
    r matches Err(e) ==> final(self).fin() == old(self).fin() && shape(final(self).m(), old(self).m()) && e == (if sq(old(self).m()) { crate::LinalgError::NotPositiveDefinite } else { not_square(old(self).m()) }),
    r matches Err(e) ==> same_upper(final(self).m(), old(self).m()) && (!sq(old(self).m()) ==> final(self).m() == old(self).m()),
    r matches Ok(q) ==> shape(q.m(), old(self).m()) && *final(self) == *final(q) && q.fin() == old(self).fin() && same_upper(q.m(), old(self).m()),
F{
    sq(old(self).m()) ==> (r is Ok <==> posdef(old(self).m())),
    r matches Ok(q) ==> is_chol(q.m(), old(self).m()),
F}
@ghost start
  let ghost a0 = self.m();
@loop 0
  shape(self.m(), a0), self.fin() == old(self).fin(), n == a0.nr, sq(a0), same_upper(self.m(), a0),
F{
  forall|r: int, c: int| j_n <= r < n && 0 <= c < n ==> #[trigger] self.m().at(r, c) == a0.at(r, c),
  forall|r: int, c: int| 0 <= c <= r < j_n ==> #[trigger] llt(self.m(), r, c) == a0.at(r, c),
  forall|c: int| 0 <= c < j_n ==> #[trigger] self.m().at(c, c) > 0real,
F}
@loop 1
  shape(self.m(), a0), self.fin() == old(self).fin(), same_upper(self.m(), a0),
F{
  forall|r: int, c: int| j < r < n && 0 <= c < n ==> #[trigger] self.m().at(r, c) == a0.at(r, c),
  forall|c: int| k_n <= c < n ==> #[trigger] self.m().at(j as int, c) == a0.at(j as int, c),
  forall|r: int, c: int| 0 <= c <= r < a0.nr && r < j ==> #[trigger] llt(self.m(), r, c) == a0.at(r, c),
  forall|c: int| 0 <= c < k_n ==> #[trigger] llt(self.m(), j as int, c) == a0.at(j as int, c),
  forall|c: int| 0 <= c < j ==> #[trigger] self.m().at(c, c) > 0real,
  d.v() == dot(row(self.m(), j as int), row(self.m(), j as int), 0, k_n as int),
F}
@ghost loop 1 start
  let ghost mk = self.m();
@loop 2
F:  s.v() == dot(row(mk, k as int), row(mk, j as int), 0, i_n as int),
F{
@ghost after `*self.atm((j, k)) = s`
  proof {
    let m1 = self.m();
    assert forall|r: int, c: int| 0 <= c <= r < a0.nr && r < j implies #[trigger] llt(m1, r, c) == a0.at(r, c) by { dot_ext(row(m1, r), row(m1, c), row(mk, r), row(mk, c), 0, c + 1); assert(llt(mk, r, c) == a0.at(r, c)); }
    assert forall|c: int| 0 <= c < k_n implies #[trigger] llt(m1, j as int, c) == a0.at(j as int, c) by {
      dot_ext(row(m1, j as int), row(m1, c), row(mk, j as int), row(mk, c), 0, c);
      if c < k { assert(row(m1, j as int)(c) == row(mk, j as int)(c) && row(m1, c)(c) == row(mk, c)(c)); assert(llt(mk, j as int, c) == a0.at(j as int, c)); }
      else {
        dot_comm(row(mk, k as int), row(mk, j as int), 0, k as int);
        assert(mk.at(k as int, k as int) > 0real);
        assert(mk.at(j as int, k as int) == a0.at(j as int, k as int));
        div_cancel(a0.at(j as int, k as int) - dot(row(mk, j as int), row(mk, k as int), 0, k as int), mk.at(k as int, k as int));
      }
    }
    dot_ext(row(m1, j as int), row(m1, j as int), row(mk, j as int), row(mk, j as int), 0, k as int);
  }
@ghost before `return Err(LinalgError::NotPositiveDefinite)`
  proof {
    let m1 = self.m();
    assert(m1.at(j as int, j as int) == a0.at(j as int, j as int));
    not_posdef(m1, a0, j as int);
  }
@ghost before `if d.is_nan()`
  let ghost mj = self.m();
@ghost loop 0 end
  proof {
    let m1 = self.m();
    assert(mj.at(j as int, j as int) == a0.at(j as int, j as int));
    assert forall|r: int, c: int| 0 <= c <= r < j_n implies #[trigger] llt(m1, r, c) == a0.at(r, c) by {
      dot_ext(row(m1, r), row(m1, c), row(mj, r), row(mj, c), 0, c);
      if c < j { dot_ext(row(m1, r), row(m1, c), row(mj, r), row(mj, c), 0, c + 1); assert(llt(mj, r, c) == a0.at(r, c)); }
    }
    assert(m1.at(j as int, j as int) != 0real) by { let x = m1.at(j as int, j as int); assert(x * x > 0real); if x == 0real { assert(x * x == 0real) by (nonlinear_arith) requires x == 0real; } }
  }
@ghost before `Ok(self)`
  proof { chol_posdef(self.m(), a0); }
F}
fn cholesky::CholeskyInplace[ArrayBase]::cholesky_into_dirty
@ret r
@spec
  ensures sq(self.m()) || r is Err,
    r matches Err(e) ==> e == (if sq(self.m()) { crate::LinalgError::NotPositiveDefinite } else { not_square(self.m()) }),
    r matches Ok(q) ==> shape(q.m(), self.m()) && q.fin() == self.fin() && same_upper(q.m(), self.m()),
F{
    sq(self.m()) ==> (r is Ok <==> posdef(self.m())),
    r matches Ok(q) ==> is_chol(q.m(), self.m()),
F}
fn cholesky::CholeskyInplace[ArrayBase]::cholesky_inplace
@ret r
@spec
  ensures sq(old(self).m()) || r is Err,
    r matches Err(e) ==> final(self).fin() == old(self).fin() && shape(final(self).m(), old(self).m()) && e == (if sq(old(self).m()) { crate::LinalgError::NotPositiveDefinite } else { not_square(old(self).m()) }),
    r matches Ok(q) ==> shape(q.m(), old(self).m()) && *final(self) == *final(q) && q.fin() == old(self).fin() && is_tri(q.m(), false),
F{
    sq(old(self).m()) ==> (r is Ok <==> posdef(old(self).m())),
    r matches Ok(q) ==> clean_chol(q.m(), old(self).m()),
F}
F{
@ghost after `self.cholesky_inplace_dirty()`
  let ghost c0 = self.m();
@ghost before `Ok(self)`
  proof { chol_clean(c0, self.m(), old(self).m()); }
F}
fn cholesky::CholeskyInplace[ArrayBase]::cholesky_into
@ret r
@spec
  ensures sq(self.m()) || r is Err,
    r matches Err(e) ==> e == (if sq(self.m()) { crate::LinalgError::NotPositiveDefinite } else { not_square(self.m()) }),
    r matches Ok(q) ==> shape(q.m(), self.m()) && q.fin() == self.fin() && is_tri(q.m(), false),
F{
    sq(self.m()) ==> (r is Ok <==> posdef(self.m())),
    r matches Ok(q) ==> clean_chol(q.m(), self.m()),
F}
fn cholesky::Cholesky[ArrayBase]::cholesky_dirty
@ret r
@spec
  ensures sq(self.m()) || r is Err,
    r matches Err(e) ==> e == (if sq(self.m()) { crate::LinalgError::NotPositiveDefinite } else { not_square(self.m()) }),
    r matches Ok(q) ==> shape(q.m(), self.m()) && same_upper(q.m(), self.m()),
F{
    sq(self.m()) ==> (r is Ok <==> posdef(self.m())),
    r matches Ok(q) ==> is_chol(q.m(), self.m()),
F}
fn cholesky::Cholesky[ArrayBase]::cholesky
@ret r
@spec
  ensures sq(self.m()) || r is Err,
    r matches Err(e) ==> e == (if sq(self.m()) { crate::LinalgError::NotPositiveDefinite } else { not_square(self.m()) }),
    r matches Ok(q) ==> shape(q.m(), self.m()) && is_tri(q.m(), false),
F{
    sq(self.m()) ==> (r is Ok <==> posdef(self.m())),
    r matches Ok(q) ==> clean_chol(q.m(), self.m()),
F}
fn cholesky::SolveCInplace[ArrayBase]::solvec_inplace
@ret r
@spec
  ensures r is Ok ==> sq(old(self).m()) && old(b).m().nr == old(self).m().nr,
    r is Err ==> final(b).m() == old(b).m() && final(b).fin() == old(b).fin(),
    r matches Err(e) ==> !sq(old(self).m()) ==> e == not_square(old(self).m()),
    r matches Ok(q) ==> shape(q.m(), old(b).m()) && *final(b) == *final(q) && q.fin() == old(b).fin(),
    shape(final(self).m(), old(self).m()), final(self).fin() == old(self).fin(),
F{
    r is Ok <==> sq(old(self).m()) && posdef(old(self).m()) && old(b).m().nr == old(self).m().nr,
    r matches Err(e) ==> sq(old(self).m()) ==> e == if posdef(old(self).m()) { wrong_rows(old(self).m().nr, old(b).m().nr) } else { crate::LinalgError::NotPositiveDefinite },
    r matches Ok(q) ==> same(mm(symlow(old(self).m()), q.m()), old(b).m()),
F}
F{
@ghost start
  let ghost (a0, b0) = (self.m(), b.m());
@ghost after `chol.solve_triangular_inplace(b, UPLO::Lower)`
  let ghost y = b.m();
  proof {
    let c = chol.m();
    assert(regular(c)) by { assert forall|i: int| 0 <= i < c.nr implies #[trigger] dg(c)(i) != 0real by { assert(c.at(i, i) > 0real); } }
    assert(regular(tr(c))) by { assert forall|i: int| 0 <= i < c.nr implies #[trigger] dg(tr(c))(i) != 0real by { assert(c.at(i, i) > 0real); } }
  }
@ghost before `Ok(b)`
  proof { chol_solve(chol.m(), a0, y, b.m(), b0); }
F}
fn cholesky::SolveCInplace[ArrayBase]::solvec_into
@ret r
@spec
  ensures r is Ok ==> sq(old(self).m()) && b.m().nr == old(self).m().nr,
    r matches Err(e) ==> !sq(old(self).m()) ==> e == not_square(old(self).m()),
    r matches Ok(q) ==> shape(q.m(), b.m()) && q.fin() == b.fin(),
    shape(final(self).m(), old(self).m()), final(self).fin() == old(self).fin(),
F{
    r is Ok <==> sq(old(self).m()) && posdef(old(self).m()) && b.m().nr == old(self).m().nr,
    r matches Err(e) ==> sq(old(self).m()) ==> e == if posdef(old(self).m()) { wrong_rows(old(self).m().nr, b.m().nr) } else { crate::LinalgError::NotPositiveDefinite },
    r matches Ok(q) ==> same(mm(symlow(old(self).m()), q.m()), b.m()),
F}
fn cholesky::SolveC[ArrayBase]::solvec
@ret r
@spec
  ensures r is Ok ==> sq(old(self).m()) && b.m().nr == old(self).m().nr,
    r matches Err(e) ==> !sq(old(self).m()) ==> e == not_square(old(self).m()),
    r matches Ok(q) ==> shape(q.m(), b.m()),
    shape(final(self).m(), old(self).m()), final(self).fin() == old(self).fin(),
F{
    r is Ok <==> sq(old(self).m()) && posdef(old(self).m()) && b.m().nr == old(self).m().nr,
    r matches Err(e) ==> sq(old(self).m()) ==> e == if posdef(old(self).m()) { wrong_rows(old(self).m().nr, b.m().nr) } else { crate::LinalgError::NotPositiveDefinite },
    r matches Ok(q) ==> same(mm(symlow(old(self).m()), q.m()), b.m()),
F}
fn cholesky::InverseCInplace[ArrayBase]::invc_inplace
@ret r
@spec
  ensures r is Ok ==> sq(old(self).m()),
    r matches Err(e) ==> !sq(old(self).m()) ==> e == not_square(old(self).m()),
    r matches Ok(q) ==> shape(q.m(), old(self).m()),
    shape(final(self).m(), old(self).m()), final(self).fin() == old(self).fin(),
F{
    r is Ok <==> sq(old(self).m()) && posdef(old(self).m()),
    r matches Err(e) ==> sq(old(self).m()) ==> e == crate::LinalgError::NotPositiveDefinite,
    r matches Ok(q) ==> is_inv(q.m(), symlow(old(self).m())),
F}
F{
@ghost start
  let ghost a0 = self.m();
@ghost before `Ok(res)`
  proof { assert(same(tr(symlow(a0)), symlow(a0))); sym_inv(symlow(a0), res.m()); }
F}
fn cholesky::InverseC[ArrayBase]::invc
@ret r
@spec
  ensures r is Ok ==> sq(self.m()),
    r matches Err(e) ==> !sq(self.m()) ==> e == not_square(self.m()),
    r matches Ok(q) ==> shape(q.m(), self.m()),
F{
    r is Ok <==> sq(self.m()) && posdef(self.m()),
    r matches Err(e) ==> sq(self.m()) ==> e == crate::LinalgError::NotPositiveDefinite,
    r matches Ok(q) ==> is_inv(q.m(), symlow(self.m())),
F}
