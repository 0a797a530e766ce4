fn triangular::IntoTriangular[ArrayBase]::triangular_inplace
@ret r
@spec
  ensures r is Ok <==> sq(old(self).m()),
    r matches Err(e) ==> final(self).m() == old(self).m() && e == not_square(old(self).m()),
    r matches Ok(q) ==> same(q.m(), trim(old(self).m(), is_up(uplo))) && *final(self) == *final(q) && q.fin() == old(self).fin(),
    final(self).fin() == old(self).fin() || r is Ok,
@loop 0
  shape(self.m(), old(self).m()), self.fin() == old(self).fin(),
  forall|r: int, c: int| inb(self.m(), r, c) ==> #[trigger] self.m().at(r, c) == if r < i_n && c < r { 0real } else { old(self).m().at(r, c) },
@loop 1
  shape(self.m(), old(self).m()), self.fin() == old(self).fin(),
  forall|r: int, c: int| inb(self.m(), r, c) ==> #[trigger] self.m().at(r, c) == if (r < i && c < r) || (r == i && c < j_n) { 0real } else { old(self).m().at(r, c) },
@loop 2
  shape(self.m(), old(self).m()), self.fin() == old(self).fin(),
  forall|r: int, c: int| inb(self.m(), r, c) ==> #[trigger] self.m().at(r, c) == if r < i_n && c > r { 0real } else { old(self).m().at(r, c) },
@loop 3
  shape(self.m(), old(self).m()), self.fin() == old(self).fin(),
  forall|r: int, c: int| inb(self.m(), r, c) ==> #[trigger] self.m().at(r, c) == if (r < i && c > r) || (r == i && i < c < j_n) { 0real } else { old(self).m().at(r, c) },
fn triangular::IntoTriangular[ArrayBase]::into_triangular
@ret r
@spec
  ensures r is Ok <==> sq(self.m()),
    r matches Err(e) ==> e == not_square(self.m()),
    r matches Ok(q) ==> same(q.m(), trim(self.m(), is_up(uplo))) && q.fin() == self.fin(),
fn triangular::Triangular[ArrayBase]::is_triangular
@ret r
@spec
  ensures r <==> is_tri(self.m(), is_up(uplo)),
@loop 0
  forall|r: int, c: int| 0 <= r < i_n && 0 <= c < r ==> #[trigger] self.m().at(r, c) == 0real,
@loop 1
  forall|c: int| 0 <= c < j_n ==> #[trigger] self.m().at(i as int, c) == 0real,
@loop 2
  forall|r: int, c: int| 0 <= r < i_n && r < c < n ==> #[trigger] self.m().at(r, c) == 0real,
@loop 3
  forall|c: int| i < c < j_n ==> #[trigger] self.m().at(i as int, c) == 0real,
fn triangular::solve_triangular_system_common__0
@ret r
@spec
  requires sq(a.m()) ==> diag_ok(diag_fn, a.m().nr),
  ensures r is Ok <==> sq(a.m()) && old(b).m().nr == a.m().nr,
    r matches Err(e) ==> final(b).m() == old(b).m() && e == (if sq(a.m()) { wrong_rows(a.m().nr, old(b).m().nr) } else { not_square(a.m()) }),
    shape(final(b).m(), old(b).m()), final(b).fin() == old(b).fin(),
  F: r is Ok ==> forall|d: V| #![trigger diag_is(diag_fn, a.m().nr, d)] #![trigger tri_sol(a.m(), d, true, final(b).m(), old(b).m())] diag_is(diag_fn, a.m().nr, d) && nonzero(d, a.m().nr) ==> tri_sol(a.m(), d, true, final(b).m(), old(b).m()),
@ghost start
  let ghost b0 = b.m();
  let ghost am = a.m();
@loop 0
  shape(b.m(), b0), b.fin() == old(b).fin(), sq(am), am.nr == b0.nr, rows == am.nr, cols == b0.nc,
  F: forall|r: int, c: int| 0 <= r < rows && k_n <= c < cols ==> #[trigger] b.m().at(r, c) == b0.at(r, c),
  F: forall|d: V, r: int, c: int| #[trigger] diag_is(diag_fn, am.nr, d) && nonzero(d, am.nr) && 0 <= r < rows && 0 <= c < k_n ==> #[trigger] tri_row(am, d, true, b.m(), r, c) == b0.at(r, c),
@loop 1
  shape(b.m(), b0), b.fin() == old(b).fin(),
  F: forall|r: int, c: int| 0 <= r < rows && k < c < cols ==> #[trigger] b.m().at(r, c) == b0.at(r, c),
  F: forall|r: int| 0 <= r < i_n ==> #[trigger] b.m().at(r, k as int) == b0.at(r, k as int) - dot(row(am, r), col(b.m(), k as int), i_n as int, rows as int),
  F: forall|d: V, r: int, c: int| #[trigger] diag_is(diag_fn, am.nr, d) && nonzero(d, am.nr) && (0 <= r < rows && 0 <= c < k || i_n <= r < rows && c == k) ==> #[trigger] tri_row(am, d, true, b.m(), r, c) == b0.at(r, c),
F{
@ghost loop 1 start
  let ghost bi = b.m();
@ghost loop 1 end
  proof {
    assert forall|r: int| 0 <= r < i implies #[trigger] b.m().at(r, k as int) == b0.at(r, k as int) - dot(row(am, r), col(b.m(), k as int), i as int, rows as int) by {
      dot_lo(row(am, r), col(b.m(), k as int), i as int, rows as int);
      dot_ext(row(am, r), col(b.m(), k as int), row(am, r), col(bi, k as int), i + 1, rows as int);
      let (x, y) = (coeff.v(), am.at(r, i as int));
      assert((-x) * y == -(y * x)) by (nonlinear_arith);
      assert(bi.at(r, k as int) == b0.at(r, k as int) - dot(row(am, r), col(bi, k as int), i + 1, rows as int));
    }
    assert forall|d: V, r: int, c: int| #[trigger] diag_is(diag_fn, am.nr, d) && nonzero(d, am.nr) && (0 <= r < rows && 0 <= c < k || i <= r < rows && c == k) implies #[trigger] tri_row(am, d, true, b.m(), r, c) == b0.at(r, c) by {
      dot_ext(row(am, r), col(b.m(), c), row(am, r), col(bi, c), r + 1, rows as int);
      if r == i && c == k {
        assert(bi.at(r, c) == b0.at(r, c) - dot(row(am, r), col(bi, c), i + 1, rows as int));
        div_cancel(bi.at(r, c), d(r));
      } else { assert(tri_row(am, d, true, bi, r, c) == b0.at(r, c)); }
    }
  }
F}
fn triangular::solve_triangular_system_common__1
@ret r
@spec
  requires sq(a.m()) ==> diag_ok(diag_fn, a.m().nr),
  ensures r is Ok <==> sq(a.m()) && old(b).m().nr == a.m().nr,
    r matches Err(e) ==> final(b).m() == old(b).m() && e == (if sq(a.m()) { wrong_rows(a.m().nr, old(b).m().nr) } else { not_square(a.m()) }),
    shape(final(b).m(), old(b).m()), final(b).fin() == old(b).fin(),
  F: r is Ok ==> forall|d: V| #![trigger diag_is(diag_fn, a.m().nr, d)] #![trigger tri_sol(a.m(), d, false, final(b).m(), old(b).m())] diag_is(diag_fn, a.m().nr, d) && nonzero(d, a.m().nr) ==> tri_sol(a.m(), d, false, final(b).m(), old(b).m()),
@ghost start
  let ghost b0 = b.m();
  let ghost am = a.m();
@loop 0
  shape(b.m(), b0), b.fin() == old(b).fin(), sq(am), am.nr == b0.nr, rows == am.nr, cols == b0.nc,
  F: forall|r: int, c: int| 0 <= r < rows && k_n <= c < cols ==> #[trigger] b.m().at(r, c) == b0.at(r, c),
  F: forall|d: V, r: int, c: int| #[trigger] diag_is(diag_fn, am.nr, d) && nonzero(d, am.nr) && 0 <= r < rows && 0 <= c < k_n ==> #[trigger] tri_row(am, d, false, b.m(), r, c) == b0.at(r, c),
@loop 1
  shape(b.m(), b0), b.fin() == old(b).fin(),
  F: forall|r: int, c: int| 0 <= r < rows && k < c < cols ==> #[trigger] b.m().at(r, c) == b0.at(r, c),
  F: forall|r: int| i_n <= r < rows ==> #[trigger] b.m().at(r, k as int) == b0.at(r, k as int) - dot(row(am, r), col(b.m(), k as int), 0, i_n as int),
  F: forall|d: V, r: int, c: int| #[trigger] diag_is(diag_fn, am.nr, d) && nonzero(d, am.nr) && (0 <= r < rows && 0 <= c < k || 0 <= r < i_n && c == k) ==> #[trigger] tri_row(am, d, false, b.m(), r, c) == b0.at(r, c),
F{
@ghost loop 1 start
  let ghost bi = b.m();
@ghost loop 1 end
  proof {
    assert forall|r: int| i_n <= r < rows implies #[trigger] b.m().at(r, k as int) == b0.at(r, k as int) - dot(row(am, r), col(b.m(), k as int), 0, i_n as int) by {
      dot_ext(row(am, r), col(b.m(), k as int), row(am, r), col(bi, k as int), 0, i as int);
      let (x, y) = (coeff.v(), am.at(r, i as int));
      assert((-x) * y == -(y * x)) by (nonlinear_arith);
      assert(bi.at(r, k as int) == b0.at(r, k as int) - dot(row(am, r), col(bi, k as int), 0, i as int));
    }
    assert forall|d: V, r: int, c: int| #[trigger] diag_is(diag_fn, am.nr, d) && nonzero(d, am.nr) && (0 <= r < rows && 0 <= c < k || 0 <= r < i_n && c == k) implies #[trigger] tri_row(am, d, false, b.m(), r, c) == b0.at(r, c) by {
      dot_ext(row(am, r), col(b.m(), c), row(am, r), col(bi, c), 0, r);
      if r == i && c == k {
        assert(bi.at(r, c) == b0.at(r, c) - dot(row(am, r), col(bi, c), 0, i as int));
        div_cancel(bi.at(r, c), d(r));
      } else { assert(tri_row(am, d, false, bi, r, c) == b0.at(r, c)); }
    }
  }
F}
fn triangular::solve_triangular_system
@ret r
@spec
  requires sq(a.m()) ==> diag_ok(diag_fn, a.m().nr),
  ensures r is Ok <==> sq(a.m()) && old(b).m().nr == a.m().nr,
    r matches Err(e) ==> final(b).m() == old(b).m() && e == (if sq(a.m()) { wrong_rows(a.m().nr, old(b).m().nr) } else { not_square(a.m()) }),
    shape(final(b).m(), old(b).m()), final(b).fin() == old(b).fin(),
  F: r is Ok ==> forall|d: V| #![trigger diag_is(diag_fn, a.m().nr, d)] #![trigger tri_sol(a.m(), d, is_up(uplo), final(b).m(), old(b).m())] diag_is(diag_fn, a.m().nr, d) && nonzero(d, a.m().nr) ==> tri_sol(a.m(), d, is_up(uplo), final(b).m(), old(b).m()),
fn triangular::SolveTriangularInplace[ArrayBase]::solve_triangular_inplace
@ret r
@spec
  ensures r is Ok <==> sq(self.m()) && old(b).m().nr == self.m().nr,
    r matches Err(e) ==> final(b).m() == old(b).m() && final(b).fin() == old(b).fin() && e == (if sq(self.m()) { wrong_rows(self.m().nr, old(b).m().nr) } else { not_square(self.m()) }),
    r matches Ok(q) ==> shape(q.m(), old(b).m()) && *final(b) == *final(q) && q.fin() == old(b).fin(),
  F: r matches Ok(q) ==> regular(self.m()) ==> same(mm(trim(self.m(), is_up(uplo)), q.m()), old(b).m()),
@closure 0 |i: usize| -> (z: Fl) requires i < self.m().nr && sq(self.m()), ensures z.v() == self.m().at(i as int, i as int),
F{
@ghost before `Ok(b)`
  proof { if regular(self.m()) { tri_sol_mm(self.m(), is_up(uplo), b.m(), old(b).m()); } }
F}
fn triangular::SolveTriangularInplace[ArrayBase]::solve_triangular_into
@ret r
@spec
  ensures r is Ok <==> sq(self.m()) && b.m().nr == self.m().nr,
    r matches Err(e) ==> e == (if sq(self.m()) { wrong_rows(self.m().nr, b.m().nr) } else { not_square(self.m()) }),
    r matches Ok(q) ==> shape(q.m(), b.m()) && q.fin() == b.fin(),
  F: r matches Ok(q) ==> regular(self.m()) ==> same(mm(trim(self.m(), is_up(uplo)), q.m()), b.m()),
fn triangular::SolveTriangular[ArrayBase]::solve_triangular
@ret r
@spec
  ensures r is Ok <==> sq(self.m()) && b.m().nr == self.m().nr,
    r matches Err(e) ==> e == (if sq(self.m()) { wrong_rows(self.m().nr, b.m().nr) } else { not_square(self.m()) }),
    r matches Ok(q) ==> shape(q.m(), b.m()),
  F: r matches Ok(q) ==> regular(self.m()) ==> same(mm(trim(self.m(), is_up(uplo)), q.m()), b.m()),
