fn tridiagonal::SymmetricTridiagonal[ArrayBase]::sym_tridiagonal
@ret r
@spec
  ensures r is Ok <==> sq(self.m()) && self.m().nr >= 1,
    r matches Err(e) ==> e == (if sq(self.m()) { LinalgError::EmptyMatrix } else { not_square(self.m()) }),
    r matches Ok(q) ==> shape(q.diag_matrix.m(), self.m()) && q.off_diagonal.m().nr == self.m().nr - 1,
F:  r matches Ok(q) ==> same(tr(self.m()), self.m()) ==> tri_of(q.diag_matrix.m(), col(q.off_diagonal.m(), 0), self.m()) && is_tridiag(self.m(), qm(q.diag_matrix.m(), col(q.off_diagonal.m(), 0), 1), tdm(q.diag_matrix.m(), col(q.off_diagonal.m(), 0))),
@ghost start
  let ghost a0 = self_.m();
  let ghost issym = same(tr(a0), a0);
@loop 0
  shape(self_.m(), a0), sq(a0), n == a0.nr, n >= 1, off_diagonal.m().nr == n - 1, p.m().nr == n - 1, issym == same(tr(a0), a0),
F:  issym ==> tri_part(self_.m(), col(off_diagonal.m(), 0), i_n as int, a0),
F{
@ghost before loop 0
  proof { if issym { tri_none(a0, col(off_diagonal.m(), 0)); } }
@ghost loop 0 start
  let ghost w0 = self_.m(); let ghost o0 = col(off_diagonal.m(), 0); let ghost k = i as int; let ghost lo = i + 1; let ghost nn = n as int;
@ghost after `.slice_mut`
  let ghost b0 = m.m();
@ghost before `reflection_axis_mut`
  let ghost x0 = axis.m(); let ghost m0 = m.m();
@ghost after `reflection_axis_mut`
  let ghost x1 = axis.m(); let ghost mut m1 = m.m(); let ghost mut pp = m.m();
@ghost after `letdot`
  proof { pp = p.m(); }
@ghost after `dot+dot`
  proof { m1 = m.m(); }
@ghost loop 0 end
  proof {
    let w1 = self_.m(); let o1 = col(off_diagonal.m(), 0); let u = col(w1, k); let x = col(w0, k); let s = rsgn(o1(k));
    let u2 = col(x1, 0); let x2 = col(x0, 0);
    assert forall|t: int| #![trigger u2(t)] #![trigger x2(t)] 0 <= t < nn - lo implies u2(t) == u(lo + t) && x2(t) == x(lo + t) by { assert(w1.at(lo + t, k) == x1.at(t, 0)); assert(w0.at(lo + t, k) == x0.at(t, 0)); }
    dot_shift(u, u, u2, u2, lo, nn - lo); dot_shift(x, x, x2, x2, lo, nn - lo);
    if norm is Some {
      let q = norm->0.v();
      assert forall|t: int| lo <= t < nn implies #[trigger] hh(u, s, x, lo, nn)(t) == if t == lo { rabs(q) } else { 0real } by {
        rf_hh(u, x, u2, x2, s, lo, nn, t);
        assert(rf(u2, 0real, x2, nn - lo)(t - lo) == if t == lo { q } else { 0real });
        assert(q * rsgn(q) == rabs(q)) by (nonlinear_arith); assert(0real * s == 0real) by (nonlinear_arith);
      }
      if issym {
        let pw = pv(u, w0, lo); let p2 = col(pp, 0);
        assert forall|t: int| #![trigger p2(t)] 0 <= t < nn - lo implies p2(t) == pw(lo + t) by {
          let y2 = row(m0, t); let y = row(w0, lo + t);
          assert forall|j: int| #![trigger y2(j)] #![trigger u2(j)] 0 <= j < nn - lo implies y2(j) == y(lo + j) && u2(j) == u(lo + j) by { assert(u2(j) == u(lo + j)); assert(b0.at(t, lo + j) == w0.at(lo + t, lo + j)); }
          dot_shift(y, u, y2, u2, lo, nn - lo);
          assert(mm(m0, x1).at(t, 0) == dot(y2, u2, 0, nn - lo));
        }
        assert forall|t: int| #![trigger u2(t)] #![trigger p2(t)] 0 <= t < nn - lo implies u2(t) == u(lo + t) && p2(t) == pw(lo + t) by { assert(p2(t) == pw(lo + t)); }
        dot_shift(u, pw, u2, p2, lo, nn - lo);
        assert forall|c: int, j: int| k < c < nn && k < j < nn implies #[trigger] w1.at(c, j) == both(u, w0, lo, c, j) by {
          let (a, b) = (c - lo, j - lo);
          assert(w1.at(c, j) == m1.at(a, b));
          assert(b0.at(a, lo + b) == w0.at(c, j));
          assert(p2(a) == pw(lo + a)); assert(p2(b) == pw(lo + b)); assert(u2(a) == u(lo + a)); assert(u2(b) == u(lo + b));
          let d = dot(u, pw, lo, nn);
          tri_outer(m0.at(a, b), d, p2(a), p2(b), u2(a), u2(b));
          tri_mm1(pp, x1, a, b); tri_mm1(x1, pp, a, b); tri_mm1(x1, x1, a, b);
        }
        tri_step(w0, o0, w1, o1, k, a0);
      }
    } else {
      assert forall|t: int| #![trigger u(t)] #![trigger x(t)] lo <= t < nn implies u(t) == 0real && x(t) == 0real by { assert(x1.at(t - lo, 0) == 0real); assert(x0.at(t - lo, 0) == 0real); assert(w1.at(t, k) == x1.at(t - lo, 0)); assert(w0.at(t, k) == x0.at(t - lo, 0)); }
      dot_zero(x, x, lo, nn); hh_fix(u, s, x, lo, nn);
      if issym {
        assert forall|c: int, j: int| k < c < nn && k < j < nn implies #[trigger] w1.at(c, j) == both(u, w0, lo, c, j) by {
          assert(u(c) == 0real); assert(u(j) == 0real);
          let pw = pv(u, w0, lo); dot_zero(u, pw, lo, nn);
          let (pc, pj) = (pw(c), pw(j));
          assert(pc * 0real == 0real) by (nonlinear_arith); assert(0real * pj == 0real) by (nonlinear_arith);
          assert(w1.at(c, j) == w0.at(c, j));
        }
        tri_step(w0, o0, w1, o1, k, a0);
      }
    }
  }
@ghost end
  proof { if issym { tri_main(self_.m(), col(off_diagonal.m(), 0), a0); } }
F}
fn tridiagonal::Clone[TridiagonalDecomp]::clone
@ret r
@spec
  ensures r.diag_matrix.m() == self.diag_matrix.m(), r.off_diagonal.m() == self.off_diagonal.m(),
fn tridiagonal::TridiagonalDecomp::generate_q
@ret r
@spec
  requires tri_shape(self.diag_matrix.m(), self.off_diagonal.m()),
  ensures shape(r.m(), self.diag_matrix.m()),
F:  same(r.m(), qm(self.diag_matrix.m(), col(self.off_diagonal.m(), 0), 1)),
@closure 0 |i: usize| -> (z: Fl) requires i < self.off_diagonal.m().nr, ensures z.v() == self.off_diagonal.m().at(i as int, 0),
F{
@bindtail res
@ghost end
  proof { let q = qm(self.diag_matrix.m(), col(self.off_diagonal.m(), 0), 1); assert(same(res.m(), q)); }
F}
fn tridiagonal::TridiagonalDecomp::into_diagonals
@ret r
@spec
  requires tri_shape(self.diag_matrix.m(), self.off_diagonal.m()),
  ensures r.0.m().nr == self.diag_matrix.m().nr, shape(r.1.m(), self.off_diagonal.m()),
F:  forall|i: int| 0 <= i < self.diag_matrix.m().nr ==> #[trigger] r.0.m().at(i, 0) == self.diag_matrix.m().at(i, i),
F:  forall|i: int| 0 <= i < self.off_diagonal.m().nr ==> #[trigger] r.1.m().at(i, 0) == rabs(self.off_diagonal.m().at(i, 0)),
fn tridiagonal::TridiagonalDecomp::into_tridiag_matrix
@ret r
@spec
  requires tri_shape(self.diag_matrix.m(), self.off_diagonal.m()),
  ensures shape(r.m(), self.diag_matrix.m()),
F:  same(r.m(), tdm(self.diag_matrix.m(), col(self.off_diagonal.m(), 0))),
@ghost start
  let ghost w0 = self.diag_matrix.m(); let ghost o0 = self.off_diagonal.m(); let ghost n = w0.nr;
@loop 0
  shape(self_.diag_matrix.m(), w0), tri_shape(w0, o0), n == w0.nr, it_0.len() == n - 1, forall|t: int| 0 <= t < it_0.len() ==> (#[trigger] it_0.sq()[t]).0 == t && it_0.sq()[t].1.v() == o0.at(t, 0),
F:  forall|r: int, c: int| inb(w0, r, c) ==> #[trigger] self_.diag_matrix.m().at(r, c) == (if r == c { w0.at(r, c) } else if r == c + 1 && c < it_0.pos() { rabs(o0.at(c, 0)) } else if c == r + 1 && r < it_0.pos() { rabs(o0.at(r, 0)) } else { 0real }),
