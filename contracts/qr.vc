fn qr::QRInto[ArrayBase]::qr_into
@ret r
@spec
  ensures r is Ok <==> self.m().nr >= self.m().nc,
    r matches Err(e) ==> e == (LinalgError::NotThin { rows: self.m().nr as usize, cols: self.m().nc as usize }),
    r matches Ok(q) ==> shape(q.qr.m(), self.m()) && q.diag.m().nr == self.m().nc,
F:  r matches Ok(q) ==> qr_of(q.qr.m(), col(q.diag.m(), 0), self.m()) && is_qr(self.m(), qm(q.qr.m(), col(q.diag.m(), 0), 0), rmat(q.qr.m(), col(q.diag.m(), 0))),
@ghost start
  let ghost a0 = self_.m();
@loop 0
  shape(self_.m(), a0), diag.m().nr == cols, cols == a0.nc, a0.nr >= a0.nc,
F:  qr_part(self_.m(), col(diag.m(), 0), i_n as int, a0),
F{
@ghost before loop 0
  proof { assert forall|r: int, j: int| inb(a0, r, j) implies #[trigger] part_at(self_.m(), col(diag.m(), 0), 0, a0, r, j) by {} }
@ghost loop 0 start
  let ghost w0 = self_.m();
  let ghost d0 = diag.m();
@ghost loop 0 end
  proof { qr_step(w0, crate::pre::col(d0, 0), self_.m(), crate::pre::col(diag.m(), 0), i as int, a0); }
@ghost end
  proof { qr_main(self_.m(), col(diag.m(), 0), a0); }
F}
fn qr::QR[ArrayBase]::qr
@ret r
@spec
  ensures r is Ok <==> self.m().nr >= self.m().nc,
    r matches Err(e) ==> e == (LinalgError::NotThin { rows: self.m().nr as usize, cols: self.m().nc as usize }),
    r matches Ok(q) ==> shape(q.qr.m(), self.m()) && q.diag.m().nr == self.m().nc,
F:  r matches Ok(q) ==> qr_of(q.qr.m(), col(q.diag.m(), 0), self.m()) && is_qr(self.m(), qm(q.qr.m(), col(q.diag.m(), 0), 0), rmat(q.qr.m(), col(q.diag.m(), 0))),
fn qr::Clone[QRDecomp]::clone
@ret r
@spec
  ensures r.qr.m() == self.qr.m(), r.diag.m() == self.diag.m(),
fn qr::QRDecomp::generate_q
@ret r
@spec
  requires self.qr.m().nr >= self.qr.m().nc, self.diag.m().nr == self.qr.m().nc,
  ensures shape(r.m(), self.qr.m()),
F:  same(r.m(), qm(self.qr.m(), col(self.diag.m(), 0), 0)),
@closure 0 |i: usize| -> (z: Fl) requires i < self.diag.m().nr, ensures z.v() == self.diag.m().at(i as int, 0),
F{
@bindtail res
@ghost end
  proof { let q = qm(self.qr.m(), col(self.diag.m(), 0), 0); assert(same(res.m(), q)); }
F}
fn qr::QRDecomp::into_r
@ret r
@spec
  requires self.qr.m().nr >= self.qr.m().nc, self.diag.m().nr == self.qr.m().nc,
  ensures r.m().nr == self.qr.m().nc, r.m().nc == self.qr.m().nc,
F:  same(r.m(), rmat(self.qr.m(), col(self.diag.m(), 0))),
    is_tri(r.m(), true),
fn qr::QRDecomp::into_decomp
@ret r
@spec
  requires self.qr.m().nr >= self.qr.m().nc, self.diag.m().nr == self.qr.m().nc,
  ensures shape(r.0.m(), self.qr.m()), r.1.m().nr == self.qr.m().nc, r.1.m().nc == self.qr.m().nc,
F:  same(r.0.m(), qm(self.qr.m(), col(self.diag.m(), 0), 0)), same(r.1.m(), rmat(self.qr.m(), col(self.diag.m(), 0))),
F:  forall|a: M| #[trigger] qr_of(self.qr.m(), col(self.diag.m(), 0), a) ==> is_qr(a, r.0.m(), r.1.m()),
@ghost start
  let ghost w = self.qr.m(); let ghost d = col(self.diag.m(), 0);
F{
@bindtail res
@ghost end
  proof {
    assert forall|a: M| #[trigger] qr_of(w, d, a) implies is_qr(a, res.0.m(), res.1.m()) by { qr_main(w, d, a); is_qr_ext(a, qm(w, d, 0), rmat(w, d), res.0.m(), res.1.m()); }
  }
F}
fn qr::QRDecomp::qt_mul
@spec
  requires self.qr.m().nr >= self.qr.m().nc, self.diag.m().nr == self.qr.m().nc, old(b).m().nr == self.qr.m().nr,
  ensures shape(final(b).m(), old(b).m()), final(b).fin() == old(b).fin(),
F:  forall|r: int, c: int| inb(old(b).m(), r, c) ==> #[trigger] final(b).m().at(r, c) == fw(self.qr.m(), sgv(col(self.diag.m(), 0)), 0, 0, self.qr.m().nc, col(old(b).m(), c))(r),
@ghost start
  let ghost b0 = b.m(); let ghost w = self.qr.m(); let ghost sg = sgv(col(self.diag.m(), 0));
@loop 0
  shape(b.m(), b0), b.fin() == old(b).fin(), cols == w.nc, w == self.qr.m(), self.diag.m().nr == w.nc, w.nr >= w.nc, b0.nr == w.nr,
F:  forall|r: int, c: int| inb(b0, r, c) ==> #[trigger] b.m().at(r, c) == fw(w, sg, 0, 0, i_n as int, col(b0, c))(r),
F{
@ghost loop 0 start
  let ghost p0 = b.m();
  let ghost mut q0 = b.m();
  let ghost mut q1 = b.m();
@ghost before `refl.reflect_cols`
  proof { q0 = rows.m(); }
@ghost after `refl.reflect_cols`
  proof { q1 = rows.m(); }
@ghost loop 0 end
  proof {
    let n = w.nr; let lo = i as int; let u = col(w, lo); let u2 = col(refl.axis.m(), 0); let s = sg(lo);
    assert forall|r: int, c: int| inb(b0, r, c) implies #[trigger] b.m().at(r, c) == fw(w, sg, 0, 0, lo + 1, col(b0, c))(r) by {
      let y = fw(w, sg, 0, 0, lo, col(b0, c));
      assert(p0.at(r, c) == y(r));
      if r >= lo {
        let x2 = col(q0, c);
        assert forall|k: int| #![trigger u2(k)] #![trigger x2(k)] 0 <= k < n - lo implies u2(k) == u(lo + k) && x2(k) == y(lo + k) by { assert(p0.at(lo + k, c) == y(lo + k)); assert(x2(k) == p0.at(lo + k, c)); }
        rf_hh(u, y, u2, x2, s, lo, n, r);
        assert(q1.at(r - lo, c) == rf(u2, 0real, x2, n - lo)(r - lo));
      }
    }
  }
F}
fn qr::QRDecomp::is_invertible
@ret r
@spec
  ensures r <==> nonzero(col(self.diag.m(), 0), self.diag.m().nr),
@closure 0 |f: &Fl| -> (z: bool) ensures z <==> f.v() != 0real,
@bindtail res
@ghost end
  proof {
    let (d, e) = (col(self.diag.m(), 0), self.diag.els());
    assert forall|i: int| #![trigger d(i)] #![trigger e[i]] 0 <= i < self.diag.m().nr implies e[i] == d(i) by { assert(e[i] == self.diag.m().at(i, 0)); }
  }
fn qr::QRDecomp::solve_into
@ret r
@spec
  requires self.qr.m().nr >= self.qr.m().nc, self.diag.m().nr == self.qr.m().nc,
  ensures r is Ok <==> b.m().nr == self.qr.m().nr && nonzero(col(self.diag.m(), 0), self.diag.m().nr),
    r matches Err(e) ==> e == (if b.m().nr != self.qr.m().nr { wrong_rows(self.qr.m().nr, b.m().nr) } else { LinalgError::NonInvertible }),
    r matches Ok(x) ==> x.m().nr == self.qr.m().nc && x.m().nc == b.m().nc,
F:  r matches Ok(x) ==> forall|a: M| #![trigger qr_of(self.qr.m(), col(self.diag.m(), 0), a)] qr_of(self.qr.m(), col(self.diag.m(), 0), a) ==> lsq(a, x.m(), b.m()) && (sq(a) ==> same(mm(a, x.m()), b.m())),
@ghost start
  let ghost b0 = b.m(); let ghost w = self.qr.m(); let ghost d = col(self.diag.m(), 0);
@closure 0 |i: usize| -> (z: Fl) requires i < self.diag.m().nr,
F:ensures z.v() == rabs(self.diag.m().at(i as int, 0)),
F{
@ghost before `triangular::solve_triangular_system`
  let ghost bt = b.m();
  let ghost dd = |i: int| rabs(d(i));
  let ghost sub = subm(w, 0, w.nc, 0, w.nc);
@ghost before `Ok(b)`
  proof {
    assert(nonzero(dd, w.nc)) by { assert forall|i: int| 0 <= i < w.nc implies #[trigger] dd(i) != 0real by { assert(d(i) != 0real); } }
    assert(is_up(UPLO::Upper)); assert(tri_sol(sub, dd, is_up(UPLO::Upper), b.m(), bt));
    assert forall|a: M| #![trigger qr_of(w, d, a)] qr_of(w, d, a) implies lsq(a, b.m(), b0) && (sq(a) ==> same(mm(a, b.m()), b0)) by {
      assert forall|c: int| 0 <= c < b0.nc implies #[trigger] minim(a, col(b.m(), c), col(b0, c)) && (sq(a) ==> zerov(resid(a, col(b.m(), c), col(b0, c)), 0, a.nr)) by {
        let x = col(b.m(), c);
        assert forall|r: int| 0 <= r < a.nc implies #[trigger] ry(w, d, x)(r) == fw(w, sgv(d), 0, 0, a.nc, col(b0, c))(r) by { qr_tri(w, d, sub, dd, b.m(), bt, r, c); }
        qr_minim(w, d, a, x, col(b0, c));
      }
      if sq(a) {
        assert forall|c: int| 0 <= c < b0.nc implies zerov(#[trigger] resid(a, col(b.m(), c), col(b0, c)), 0, a.nr) by { assert(minim(a, col(b.m(), c), col(b0, c))); }
        qr_exact(a, b.m(), b0);
      }
    }
  }
F}
fn qr::QRDecomp::solve_tr_into
@ret r
@spec
  requires self.qr.m().nr >= self.qr.m().nc, self.diag.m().nr == self.qr.m().nc,
  ensures r is Ok <==> b.m().nr == self.qr.m().nc && nonzero(col(self.diag.m(), 0), self.diag.m().nr),
    r matches Err(e) ==> e == (if b.m().nr != self.qr.m().nc { wrong_rows(self.qr.m().nc, b.m().nr) } else { LinalgError::NonInvertible }),
    r matches Ok(x) ==> x.m().nr == self.qr.m().nr && x.m().nc == b.m().nc,
F:  r matches Ok(x) ==> forall|a: M| #![trigger qr_of(self.qr.m(), col(self.diag.m(), 0), a)] qr_of(self.qr.m(), col(self.diag.m(), 0), a) ==> lnorm(a, x.m(), b.m()),
@ghost start
  let ghost b0 = b.m(); let ghost w = self.qr.m(); let ghost d = col(self.diag.m(), 0);
@closure 0 |i: usize| -> (z: Fl) requires i < self.diag.m().nr,
F:ensures z.v() == rabs(self.diag.m().at(i as int, 0)),
F{
@ghost before `triangular::solve_triangular_system`
  let ghost dd = |i: int| rabs(d(i));
  let ghost sub = tr(subm(w, 0, w.nc, 0, w.nc));
@bindtail res
@ghost end
  proof {
    assert(nonzero(dd, w.nc)) by { assert forall|i: int| 0 <= i < w.nc implies #[trigger] dd(i) != 0real by { assert(d(i) != 0real); } }
    assert(!is_up(UPLO::Lower)); assert(tri_sol(sub, dd, is_up(UPLO::Lower), b.m(), b0));
    let xm = res->Ok_0.m(); let q = qm(w, d, 0);
    mm_cong(q, b.m());
    assert forall|a: M| #![trigger qr_of(w, d, a)] qr_of(w, d, a) implies lnorm(a, xm, b0) by {
      assert forall|c: int| 0 <= c < b0.nc implies #[trigger] minnorm(a, col(xm, c), col(b0, c)) by {
        let m = col(b.m(), c); let x = col(xm, c);
        assert forall|r: int| 0 <= r < a.nc implies #[trigger] dot(row(tr(rmat(w, d)), r), m, 0, a.nc) == col(b0, c)(r) by { qr_tri_tr(w, d, sub, dd, b.m(), b0, r, c); }
        assert forall|r: int| 0 <= r < a.nr implies #[trigger] x(r) == dot(row(qm(w, d, 0), r), m, 0, a.nc) by { assert(xm.at(r, c) == mm(q, b.m()).at(r, c)); }
        qr_minnorm(w, d, a, m, x, col(b0, c));
      }
    }
  }
F}
fn qr::QRDecomp::solve
@ret r
@spec
  requires self.qr.m().nr >= self.qr.m().nc, self.diag.m().nr == self.qr.m().nc,
  ensures r is Ok <==> b.m().nr == self.qr.m().nr && nonzero(col(self.diag.m(), 0), self.diag.m().nr),
    r matches Err(e) ==> e == (if b.m().nr != self.qr.m().nr { wrong_rows(self.qr.m().nr, b.m().nr) } else { LinalgError::NonInvertible }),
    r matches Ok(x) ==> x.m().nr == self.qr.m().nc && x.m().nc == b.m().nc,
F:  r matches Ok(x) ==> forall|a: M| #![trigger qr_of(self.qr.m(), col(self.diag.m(), 0), a)] qr_of(self.qr.m(), col(self.diag.m(), 0), a) ==> lsq(a, x.m(), b.m()) && (sq(a) ==> same(mm(a, x.m()), b.m())),
fn qr::QRDecomp::solve_tr
@ret r
@spec
  requires self.qr.m().nr >= self.qr.m().nc, self.diag.m().nr == self.qr.m().nc,
  ensures r is Ok <==> b.m().nr == self.qr.m().nc && nonzero(col(self.diag.m(), 0), self.diag.m().nr),
    r matches Err(e) ==> e == (if b.m().nr != self.qr.m().nc { wrong_rows(self.qr.m().nc, b.m().nr) } else { LinalgError::NonInvertible }),
    r matches Ok(x) ==> x.m().nr == self.qr.m().nr && x.m().nc == b.m().nc,
F:  r matches Ok(x) ==> forall|a: M| #![trigger qr_of(self.qr.m(), col(self.diag.m(), 0), a)] qr_of(self.qr.m(), col(self.diag.m(), 0), a) ==> lnorm(a, x.m(), b.m()),
fn qr::QRDecomp::inverse
@ret r
@spec
  requires self.qr.m().nr >= self.qr.m().nc, self.diag.m().nr == self.qr.m().nc,
  ensures r is Ok <==> sq(self.qr.m()) && nonzero(col(self.diag.m(), 0), self.diag.m().nr),
    r matches Err(e) ==> e == (if !sq(self.qr.m()) { not_square(self.qr.m()) } else { LinalgError::NonInvertible }),
    r matches Ok(x) ==> shape(x.m(), self.qr.m()),
F:  r matches Ok(x) ==> forall|a: M| #![trigger qr_of(self.qr.m(), col(self.diag.m(), 0), a)] qr_of(self.qr.m(), col(self.diag.m(), 0), a) ==> is_inv(x.m(), a),
F{
@bindtail res
@ghost end
  proof {
    if res is Ok {
      let (w, d) = (self.qr.m(), col(self.diag.m(), 0)); let xm = res->Ok_0.m();
      assert forall|a: M| #![trigger qr_of(w, d, a)] qr_of(w, d, a) implies is_inv(xm, a) by { qr_inv(w, d, a, xm); }
    }
  }
F}
fn qr::LeastSquaresQrInto[ArrayBase]::least_squares_into
@ret r
@spec
  ensures r matches Err(e) ==> e == (if self.m().nr != b.m().nr { wrong_rows(self.m().nr, b.m().nr) } else { LinalgError::NonInvertible }),
    r is Ok ==> self.m().nr == b.m().nr,
    r matches Ok(x) ==> x.m().nr == self.m().nc && x.m().nc == b.m().nc,
F:  r matches Ok(x) ==> if self.m().nr >= self.m().nc { lsq(self.m(), x.m(), b.m()) } else { lnorm(tr(self.m()), x.m(), b.m()) },
fn qr::LeastSquaresQr[ArrayBase]::least_squares
@ret r
@spec
  ensures r matches Err(e) ==> e == (if self.m().nr != b.m().nr { wrong_rows(self.m().nr, b.m().nr) } else { LinalgError::NonInvertible }),
    r is Ok ==> self.m().nr == b.m().nr,
    r matches Ok(x) ==> x.m().nr == self.m().nc && x.m().nc == b.m().nc,
F:  r matches Ok(x) ==> if self.m().nr >= self.m().nc { lsq(self.m(), x.m(), b.m()) } else { lnorm(tr(self.m()), x.m(), b.m()) },
