fn bidiagonal::Bidiagonal[ArrayBase]::bidiagonal
@ret r
@spec
  ensures r is Ok <==> self.m().nr >= 1 && self.m().nc >= 1,
    r matches Err(e) ==> e == LinalgError::EmptyMatrix,
    r matches Ok(q) ==> shape(q.uv.m(), self.m()) && q.diagonal.m().nr == imin(self.m().nr, self.m().nc) && q.off_diagonal.m().nr == q.diagonal.m().nr - 1 && (q.upper_diag <==> self.m().nr >= self.m().nc),
F:  r matches Ok(q) ==> bi_of(q.uv.m(), col(q.diagonal.m(), 0), col(q.off_diagonal.m(), 0), q.upper_diag, self.m()) && is_bidiag(self.m(), bi_u(q.uv.m(), col(q.diagonal.m(), 0), col(q.off_diagonal.m(), 0), q.upper_diag), bmat(col(q.diagonal.m(), 0), col(q.off_diagonal.m(), 0), q.diagonal.m().nr, q.upper_diag), bi_vt(q.uv.m(), col(q.diagonal.m(), 0), col(q.off_diagonal.m(), 0), q.upper_diag)),
@ghost start
  let ghost a0 = self_.m();
@loop 0
  shape(self_.m(), a0), diagonal.m().nr == min_dim, off_diagonal.m().nr == min_dim - 1, min_dim == a0.nc, a0.nr >= a0.nc >= 1,
F:  bi_part(self_.m(), col(diagonal.m(), 0), col(off_diagonal.m(), 0), i_n as int, i_n as int, a0),
@loop 1
  shape(self_.m(), a0), diagonal.m().nr == min_dim, off_diagonal.m().nr == min_dim - 1, min_dim == a0.nr, a0.nc >= a0.nr >= 1,
F:  bi_part(tr(self_.m()), col(diagonal.m(), 0), col(off_diagonal.m(), 0), i_n as int, i_n as int, tr(a0)),
F{
@ghost before loop 0
  proof { bi_none(a0, col(diagonal.m(), 0), col(off_diagonal.m(), 0)); }
@ghost loop 0 start
  let ghost w0 = self_.m(); let ghost d0 = col(diagonal.m(), 0); let ghost e0 = col(off_diagonal.m(), 0);
@ghost after `clear_column` #1
  proof { bi_col(w0, d0, self_.m(), col(diagonal.m(), 0), e0, i as int, a0); }
  let ghost w1 = self_.m(); let ghost d1 = col(diagonal.m(), 0);
@ghost loop 0 end
  proof { tr_col(); bi_row(w1, d1, e0, self_.m(), col(off_diagonal.m(), 0), i as int, a0); }
@ghost after loop 0
  let ghost w0 = self_.m(); let ghost d0 = col(diagonal.m(), 0); let ghost e0 = col(off_diagonal.m(), 0);
@ghost after `clear_column` #2
  proof { bi_col(w0, d0, self_.m(), col(diagonal.m(), 0), e0, min_dim - 1, a0); }
@ghost before loop 1
  proof { bi_none(tr(a0), col(diagonal.m(), 0), col(off_diagonal.m(), 0)); }
@ghost loop 1 start
  let ghost w0 = self_.m(); let ghost d0 = col(diagonal.m(), 0); let ghost e0 = col(off_diagonal.m(), 0);
@ghost after `clear_row` #2
  proof { tr_col(); bi_col(tr(w0), d0, tr(self_.m()), col(diagonal.m(), 0), e0, i as int, tr(a0)); }
  let ghost w1 = self_.m(); let ghost d1 = col(diagonal.m(), 0);
@ghost loop 1 end
  proof { tr_col(); tr_tr(); bi_row(tr(w1), d1, e0, tr(self_.m()), col(off_diagonal.m(), 0), i as int, tr(a0)); }
@ghost after loop 1
  let ghost w0 = self_.m(); let ghost d0 = col(diagonal.m(), 0); let ghost e0 = col(off_diagonal.m(), 0);
@ghost after `clear_row` #3
  proof { tr_col(); bi_col(tr(w0), d0, tr(self_.m()), col(diagonal.m(), 0), e0, min_dim - 1, tr(a0)); }
@ghost end
  proof { bi_main(self_.m(), col(diagonal.m(), 0), col(off_diagonal.m(), 0), upper_diag, a0); }
F}
fn bidiagonal::Clone[BidiagonalDecomp]::clone
@ret r
@spec
  ensures r.uv.m() == self.uv.m(), r.diagonal.m() == self.diagonal.m(), r.off_diagonal.m() == self.off_diagonal.m(), r.upper_diag == self.upper_diag,
fn bidiagonal::BidiagonalDecomp::is_upper_diag
@ret r
@spec
  ensures r == self.upper_diag,
fn bidiagonal::BidiagonalDecomp::generate_u
@ret r
@spec
  requires bi_shape(self.uv.m(), self.diagonal.m(), self.off_diagonal.m(), self.upper_diag),
  ensures r.m().nr == self.uv.m().nr, r.m().nc == self.diagonal.m().nr,
F:  same(r.m(), bi_u(self.uv.m(), col(self.diagonal.m(), 0), col(self.off_diagonal.m(), 0), self.upper_diag)),
@closure 0 |i: usize| -> (z: Fl) requires i < self.diagonal.m().nr, ensures z.v() == self.diagonal.m().at(i as int, 0),
@closure 1 |i: usize| -> (z: Fl) requires i < self.off_diagonal.m().nr, ensures z.v() == self.off_diagonal.m().at(i as int, 0),
F{
@bindtail res
@ghost end
  proof { let q = if self.upper_diag { qm(self.uv.m(), col(self.diagonal.m(), 0), 0) } else { qm(self.uv.m(), col(self.off_diagonal.m(), 0), 1) }; assert(same(res.m(), q)); }
F}
fn bidiagonal::BidiagonalDecomp::generate_vt
@ret r
@spec
  requires bi_shape(self.uv.m(), self.diagonal.m(), self.off_diagonal.m(), self.upper_diag),
  ensures r.m().nr == self.diagonal.m().nr, r.m().nc == self.uv.m().nc,
F:  same(r.m(), bi_vt(self.uv.m(), col(self.diagonal.m(), 0), col(self.off_diagonal.m(), 0), self.upper_diag)),
@closure 0 |i: usize| -> (z: Fl) requires i < self.off_diagonal.m().nr, ensures z.v() == self.off_diagonal.m().at(i as int, 0),
@closure 1 |i: usize| -> (z: Fl) requires i < self.diagonal.m().nr, ensures z.v() == self.diagonal.m().at(i as int, 0),
F{
@bindtail res
@ghost end
  proof { let t = tr(self.uv.m()); let q = if self.upper_diag { qm(t, col(self.off_diagonal.m(), 0), 1) } else { qm(t, col(self.diagonal.m(), 0), 0) }; assert(same(tr(res.m()), q)); }
F}
fn bidiagonal::BidiagonalDecomp::into_b
@ret r
@spec
  requires bi_shape(self.uv.m(), self.diagonal.m(), self.off_diagonal.m(), self.upper_diag),
  ensures r.m().nr == self.diagonal.m().nr, r.m().nc == self.diagonal.m().nr,
F:  same(r.m(), bmat(col(self.diagonal.m(), 0), col(self.off_diagonal.m(), 0), self.diagonal.m().nr, self.upper_diag)),
fn bidiagonal::BidiagonalDecomp::into_diagonals
@ret r
@spec
  ensures shape(r.0.m(), self.diagonal.m()), shape(r.1.m(), self.off_diagonal.m()),
F:  forall|i: int| 0 <= i < self.diagonal.m().nr ==> #[trigger] r.0.m().at(i, 0) == rabs(self.diagonal.m().at(i, 0)),
F:  forall|i: int| 0 <= i < self.off_diagonal.m().nr ==> #[trigger] r.1.m().at(i, 0) == rabs(self.off_diagonal.m().at(i, 0)),
