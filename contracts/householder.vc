fn householder::reflection_axis_mut
@ret r
@spec
  requires old(col).m().nr >= 1,
  ensures shape(final(col).m(), old(col).m()), final(col).fin() == old(col).fin(),
F:  r matches Some(p) ==> dot(crate::pre::col(final(col).m(), 0), crate::pre::col(final(col).m(), 0), 0, old(col).m().nr) == 1real && p.v() * p.v() == dot(crate::pre::col(old(col).m(), 0), crate::pre::col(old(col).m(), 0), 0, old(col).m().nr) && (forall|k: int| 0 <= k < old(col).m().nr ==> #[trigger] rf(crate::pre::col(final(col).m(), 0), 0real, crate::pre::col(old(col).m(), 0), old(col).m().nr)(k) == if k == 0 { p.v() } else { 0real }),
F:  r is None ==> forall|k: int| #![trigger final(col).m().at(k, 0)] #![trigger old(col).m().at(k, 0)] 0 <= k < old(col).m().nr ==> final(col).m().at(k, 0) == 0real && old(col).m().at(k, 0) == 0real,
@closure 0 |max: Fl, x: &Fl| -> (z: Fl)
F:ensures z.v() == rmax(max.v(), rabs(x.v())),
F{
@ghost start
  let ghost c0 = col.m();
  let ghost e0 = col.els();
  let ghost n = c0.nr;
@ghost before `scale.is_zero`
  proof {
    let acc = choose|acc: Seq<Fl>| #![trigger acc.len()] fold_max(acc, e0, scale);
    max_ok(acc, e0, n);
    assert(e0.subrange(0, n) =~= e0);
    assert forall|k: int| 0 <= k < n implies rabs(#[trigger] c0.at(k, 0)) <= scale.v() by { assert(e0[k] == c0.at(k, 0)); }
    if scale.v() != 0real { let k = choose|k: int| 0 <= k < e0.len() && rabs(#[trigger] e0[k]) == scale.v(); assert(c0.at(k, 0) != 0real); }
  }
@ghost before `col.dot`
  let ghost y = crate::pre::col(col.m(), 0);
  proof {
    dot_self(y, 0, n);
    if scale.v() == 0real { dot_zero(y, y, 0, n); }
    else {
      let k = choose|k: int| 0 <= k < e0.len() && rabs(#[trigger] e0[k]) == scale.v();
      assert(c0.at(k, 0) != 0real);
      div_cancel(c0.at(k, 0), scale.v());
      assert(y(k) != 0real) by { let (a, b) = (y(k), scale.v()); assert(a * b != 0real ==> a != 0real) by (nonlinear_arith); }
      dot_self_pos(y, 0, n, k);
    }
  }
@ghost before `new_norm_sq.is_zero`
  let ghost y1 = crate::pre::col(col.m(), 0);
  proof {
    let (nn, a) = (reflection_norm.v(), rabs(y(0)));
    assert(a * nn >= 0real) by (nonlinear_arith) requires a >= 0real, nn >= 0real;
    if scale.v() == 0real {
      assert(nn == 0real) by (nonlinear_arith) requires nn * nn == 0real;
      assert(a * nn == 0real) by (nonlinear_arith) requires nn == 0real;
      let s = rsgn(y(0));
      assert(s * nn == 0real) by (nonlinear_arith) requires nn == 0real;
    }
  }
@ghost before `Some(`
  proof { if scale.v() != 0real { let r = choose|r: real| is_sqrt(r, new_norm_sq.v()) && forall|k: int| 0 <= k < n ==> #[trigger] col.m().at(k, 0) == y1(k) / r; hh_core(crate::pre::col(c0, 0), scale.v(), y, reflection_norm.v(), signed_norm.v(), y1, r, crate::pre::col(col.m(), 0), n); } }
F}
fn householder::clear_column
@ret r
@spec
  requires icol < old(matrix).m().nc, icol + shift < old(matrix).m().nr,
  ensures shape(final(matrix).m(), old(matrix).m()), final(matrix).fin() == old(matrix).fin(),
    forall|i: int, j: int| inb(old(matrix).m(), i, j) && (j < icol || i < icol + shift) ==> #[trigger] final(matrix).m().at(i, j) == old(matrix).m().at(i, j),
F:  cleared(col(final(matrix).m(), icol as int), r.v(), col(old(matrix).m(), icol as int), icol + shift, old(matrix).m().nr),
F:  forall|i: int, j: int| icol + shift <= i < old(matrix).m().nr && icol < j < old(matrix).m().nc ==> #[trigger] final(matrix).m().at(i, j) == hh(col(final(matrix).m(), icol as int), rsgn(r.v()), col(old(matrix).m(), j), icol + shift, old(matrix).m().nr)(i),
@ghost start
  let ghost m0 = matrix.m();
F{
  let ghost lo = icol + shift;
  let ghost n = m0.nr;
  let ghost c = icol as int;
@ghost before `reflection_axis_mut`
  let ghost ax0 = axis.m();
@ghost after `reflection_axis_mut`
  let ghost ax1 = axis.m();
  let ghost mut rr0 = m0;
  let ghost mut rr1 = m0;
@ghost before `refl.reflect_cols`
  proof { rr0 = refl_rows.m(); }
@ghost after `refl.reflect_cols`
  proof { rr1 = refl_rows.m(); }
@bindtail res
@ghost end
  proof {
    let m1 = matrix.m();
    let u = col(m1, c); let x = col(m0, c);
    let s = rsgn(res.v());
    if refl_norm is Some {
      let p = refl_norm->0.v();
      let u2 = col(ax1, 0); let x2 = col(ax0, 0);
      assert forall|k: int| #![trigger u2(k)] #![trigger x2(k)] 0 <= k < n - lo implies u2(k) == u(lo + k) && x2(k) == x(lo + k) by { assert(m1.at(lo + k, c) == ax1.at(k, 0)); assert(m0.at(lo + k, c) == ax0.at(k, 0)); }
      dot_shift(u, u, u2, u2, lo, n - lo); dot_shift(x, x, x2, x2, lo, n - lo);
      assert forall|i: int| lo <= i < n implies #[trigger] hh(u, s, x, lo, n)(i) == if i == lo { rabs(p) } else { 0real } by {
        rf_hh(u, x, u2, x2, s, lo, n, i);
        assert(rf(u2, 0real, x2, n - lo)(i - lo) == if i == lo { p } else { 0real });
        assert(p * rsgn(p) == rabs(p)) by (nonlinear_arith); assert(0real * s == 0real) by (nonlinear_arith);
      }
      assert forall|i: int, j: int| lo <= i < n && c < j < m0.nc implies #[trigger] m1.at(i, j) == hh(u, s, col(m0, j), lo, n)(i) by {
        let xj = col(rr0, j - c - 1);
        assert forall|k: int| #![trigger u2(k)] #![trigger xj(k)] 0 <= k < n - lo implies u2(k) == u(lo + k) && xj(k) == col(m0, j)(lo + k) by { assert(u2(k) == u(lo + k)); assert(rr0.at(k, j - c - 1) == m0.at(lo + k, c + 1 + (j - c - 1))); }
        rf_hh(u, col(m0, j), u2, xj, s, lo, n, i);
        assert(rr1.at(i - lo, j - c - 1) == rf(u2, 0real, xj, n - lo)(i - lo));
      }
    } else {
      assert forall|k: int| #![trigger u(k)] #![trigger x(k)] lo <= k < n implies u(k) == 0real && x(k) == 0real by { assert(ax1.at(k - lo, 0) == 0real); assert(ax0.at(k - lo, 0) == 0real); assert(m1.at(k, c) == ax1.at(k - lo, 0)); assert(m0.at(k, c) == ax0.at(k - lo, 0)); }
      dot_zero(x, x, lo, n); hh_fix(u, s, x, lo, n);
      assert forall|i: int, j: int| lo <= i < n && c < j < m0.nc implies #[trigger] m1.at(i, j) == hh(u, s, col(m0, j), lo, n)(i) by {
        let xj = col(m0, j);
        dot_zero(u, xj, lo, n); let y = xj(i); let z = u(i);
        assert(m1.at(i, j) == m0.at(i, j));
        assert((y + (0real * (-2real)) * z) * s == y) by (nonlinear_arith) requires s == 1real;
      }
    }
  }
F}
fn householder::clear_row
@ret r
@spec
  requires irow < old(matrix).m().nr, irow + shift < old(matrix).m().nc,
  ensures shape(final(matrix).m(), old(matrix).m()), final(matrix).fin() == old(matrix).fin(),
    forall|i: int, j: int| inb(old(matrix).m(), i, j) && (i < irow || j < irow + shift) ==> #[trigger] final(matrix).m().at(i, j) == old(matrix).m().at(i, j),
F:  cleared(row(final(matrix).m(), irow as int), r.v(), row(old(matrix).m(), irow as int), irow + shift, old(matrix).m().nc),
F:  forall|i: int, j: int| irow + shift <= j < old(matrix).m().nc && irow < i < old(matrix).m().nr ==> #[trigger] final(matrix).m().at(i, j) == hh(row(final(matrix).m(), irow as int), rsgn(r.v()), row(old(matrix).m(), i), irow + shift, old(matrix).m().nc)(j),
@ghost start
  let ghost m0 = matrix.m();
@bindtail res
@ghost end
  proof {
    let m1 = matrix.m();
    let (t0, t1) = (tr(m0), tr(m1));
    assert forall|i: int, j: int| inb(m0, i, j) && (i < irow || j < irow + shift) implies #[trigger] m1.at(i, j) == m0.at(i, j) by { assert(t1.at(j, i) == t0.at(j, i)); }
F{
    let r = irow as int; tr_tr();
    assert(col(t0, r) =~= row(m0, r)); assert(col(t1, r) =~= row(m1, r));
    assert forall|i: int, j: int| irow + shift <= j < m0.nc && irow < i < m0.nr implies #[trigger] m1.at(i, j) == hh(row(m1, r), rsgn(res.v()), row(m0, i), irow + shift, m0.nc)(j) by {
      assert(col(t0, i) =~= row(m0, i));
      assert(t1.at(j, i) == hh(col(t1, r), rsgn(res.v()), col(t0, i), irow + shift, m0.nc)(j));
    }
F}
  }
fn householder::assemble_q
@ret r
@spec
  requires shift <= imin(matrix.m().nr, matrix.m().nc), diag_ok(diag_fn, imin(matrix.m().nr, matrix.m().nc) - shift),
  ensures r.m().nr == matrix.m().nr, r.m().nc == imin(matrix.m().nr, matrix.m().nc),
F:  forall|d: V| #![trigger qm(matrix.m(), d, shift as int)] diag_is(diag_fn, imin(matrix.m().nr, matrix.m().nc) - shift, d) ==> same(r.m(), qm(matrix.m(), d, shift as int)),
@ghost start
  let ghost w = matrix.m();
  let ghost sh = shift as int;
@loop 0
  shape(res.m(), M { nr: w.nr, nc: dim as int, f: w.f }), dim == imin(w.nr, w.nc), sh == shift <= dim, i_hi == dim - shift, w == matrix.m(), diag_ok(diag_fn, dim - shift),
F:  forall|d: V, r: int, c: int| #[trigger] diag_is(diag_fn, dim - shift, d) && inb(res.m(), r, c) ==> #[trigger] res.m().at(r, c) == bk(w, sgv(d), sh, i_n as int, dim - shift, unitv(c))(r),
F{
@ghost before loop 0
  let ghost r0 = res.m();
  proof {
    assert forall|r: int, c: int| inb(r0, r, c) implies #[trigger] r0.at(r, c) == unitv(c)(r) by {}
  }
@ghost loop 0 start
  let ghost p0 = res.m();
  let ghost mut q0 = res.m();
  let ghost mut q1 = res.m();
@ghost before `refl.reflect_cols`
  proof { q0 = res_rows.m(); }
@ghost after `refl.reflect_cols`
  proof { q1 = res_rows.m(); }
@ghost loop 0 end
  proof {
    let n = w.nr; let lo = i + sh; let u = col(w, i as int); let hi = dim - shift;
    let u2 = col(refl.axis.m(), 0);
    assert forall|d: V, r: int, c: int| #[trigger] diag_is(diag_fn, dim - shift, d) && inb(res.m(), r, c) implies #[trigger] res.m().at(r, c) == bk(w, sgv(d), sh, i as int, hi, unitv(c))(r) by {
      let y = bk(w, sgv(d), sh, i + 1, hi, unitv(c)); let s = sgv(d)(i as int);
      assert(p0.at(r, c) == y(r));
      if c < i {
        bk_fix(w, sgv(d), sh, i + 1, hi, unitv(c)); bk_fix(w, sgv(d), sh, i as int, hi, unitv(c));
        assert(y(r) == unitv(c)(r));
        assert(bk(w, sgv(d), sh, i as int, hi, unitv(c))(r) == unitv(c)(r));
        assert(res.m().at(r, c) == p0.at(r, c));
      } else if r < lo {
        assert(res.m().at(r, c) == p0.at(r, c));
      } else {
        let x2 = col(q0, c - i);
        assert forall|k: int| #![trigger u2(k)] #![trigger x2(k)] 0 <= k < n - lo implies u2(k) == u(lo + k) && x2(k) == y(lo + k) by { assert(p0.at(lo + k, c) == y(lo + k)); assert(x2(k) == p0.at(lo + k, i + (c - i))); }
        rf_hh(u, y, u2, x2, s, lo, n, r);
        assert(q1.at(r - lo, c - i) == rf(u2, 0real, x2, n - lo)(r - lo));
      }
    }
  }
F}
