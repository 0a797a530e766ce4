fn eigh::symmetric_eig
@ret r
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::allow_complex_invariants]
@attr #[verifier::rlimit(200)]
@spec
F: requires eps.v() == 0real,
S: requires posv(eps.v()), finv(eps.v()),
  ensures r is Ok <==> sq(matrix.m()), r matches Err(e) ==> e == not_square(matrix.m()),
    r matches Ok(p) ==> p.0.m().nr == matrix.m().nr && (p.1 is Some <==> eigenvectors) && (p.1 matches Some(q) ==> shape(q.m(), matrix.m())),
F:  r matches Ok(p) ==> same(tr(matrix.m()), matrix.m()) ==> exists|q: M| #[trigger] is_eig(matrix.m(), col(p.0.m(), 0), q) && (p.1 matches Some(v) ==> v.m() == q),
@closure 0 |f: &Fl| -> (z: Fl)
F: ensures z.v() == rabs(f.v()),
@closure 1 |a: Fl, b: Fl| -> (z: Fl)
F: ensures z.v() == rmax(a.v(), b.v()),
F{
@ghost start
  let ghost a0 = matrix.m(); let ghost issym = same(tr(a0), a0); let ghost el0 = matrix.els(); let ghost nn = a0.nr;
  proof { crate::ndarray::axiom_els2(matrix); }
@ghost before `returnOk((Array1`
  proof { assert(is_eig(a0, col(konst(0, 1, 0real), 0), konst(0, 0, 0real))); }
@ghost after `letamax`
  proof { let acc = choose|acc: Seq<Fl>| #![trigger acc.len()] fold_up(acc, el0, amax); up_all(acc, el0, amax); }
@ghost before `lettridiag_decomp`
  let ghost a1 = matrix.m(); let ghost k1 = amax.v();
  proof { scaled(a0, a1, el0, k1); }
@ghost before `into_diagonals`
  let ghost dm = tridiag_decomp.diag_matrix.m(); let ghost om = col(tridiag_decomp.off_diagonal.m(), 0); let ghost qz = qm(dm, om, 1); let ghost mut qg = if q_mat is Some { q_mat->0.m() } else { qz };
@ghost after `into_diagonals`
  let ghost dz = col(diag.m(), 0); let ghost oz = col(off_diag.m(), 0);
  proof { if issym {
    let x = tb(dz, oz, nn - 1, nn, -2, 0real);
    assert forall|i: int, j: int| 0 <= i < nn && 0 <= j < nn implies #[trigger] x.at(i, j) == tdm(dm, om).at(i, j) by { assert(diag.m().at(i, 0) == dm.at(i, i)); if i == j + 1 { assert(off_diag.m().at(j, 0) == rabs(om(j))); } if j == i + 1 { assert(off_diag.m().at(i, 0) == rabs(om(i))); } }
    assert(same(x, tdm(dm, om)));
    two_mid(qz, x, tdm(dm, om), a1);
    assert(same(qz, qz));
    two_q(qg, qz, x, a1);
  } }
@ghost before `returnOk((diag`
  proof { if issym { eig_main(a1, dz, oz, qg, a0, k1, col(diag.m(), 0)); } }
@ghost before loop 0
  proof { if issym { let o1 = col(off_diag.m(), 0); assert forall|k: int| #![trigger o1(k)] 0 <= k < nn - 1 implies o1(k) == oz(k) && (end <= k ==> o1(k) == 0real) by { assert(off_diag.m().at(k, 0) == o1(k)); }
    tb_cut(dz, oz, o1, nn - 1, end as int, nn); two_mid(qg, tb(dz, o1, end as int, nn, -2, 0real), tb(dz, oz, nn - 1, nn, -2, 0real), a1); } }
F}
@loop 0
  diag.m().nr == matrix_nr, off_diag.m().nr == matrix_nr - 1, matrix_nr >= 2, start <= end < matrix_nr, end == 0 ==> start == 0, end > 0 ==> start < end,
  q_mat is Some <==> eigenvectors, q_mat matches Some(q) ==> q.m().nr == matrix_nr && q.m().nc == matrix_nr,
S:  end > 0 ==> finv(diag.m().at(end as int, 0)) && finv(diag.m().at(end - 1, 0)) && !nanv(off_diag.m().at(end - 1, 0)),
F:  issym ==> eig_part(qg, col(diag.m(), 0), col(off_diag.m(), 0), end as int, a1) && (q_mat matches Some(q) ==> q.m() == qg),
F:  end > 0 ==> off_diag.m().at(end - 1, 0) != 0real, start > 0 ==> off_diag.m().at(start - 1, 0) == 0real,
@ghost start
  let ghost matrix_nr = matrix.m().nr;
F{
@ghost before loop 1
  let ghost mut by = 0real; let ghost mut bi = start - 1;
  proof { if issym { let (d, o) = (col(diag.m(), 0), col(off_diag.m(), 0)); assert(same(tb(d, o, end as int, nn, bi, 0real), tb(d, o, end as int, nn, -2, 0real))); two_mid(qg, tb(d, o, end as int, nn, bi, 0real), tb(d, o, end as int, nn, -2, 0real), a1); } }
F}
@loop 1
  diag.m().nr == matrix_nr, off_diag.m().nr == matrix_nr - 1, i_lo == start, i_hi == n, n == end, m == end - 1, start + 2 <= end < matrix_nr,
  q_mat is Some <==> eigenvectors, q_mat matches Some(q) ==> q.m().nr == matrix_nr && q.m().nc == matrix_nr,
F:  issym ==> orth(qg) && shape(qg, a1) && same(two(qg, tb(col(diag.m(), 0), col(off_diag.m(), 0), end as int, nn, bi, by), qg), a1) && (q_mat matches Some(q) ==> q.m() == qg),
F:  i_n == start || i_n >= n ==> by == 0real,
F:  bi == i_n - 1,
F:  start < i_n < n ==> by == y.v() && (by != 0real ==> x.v() == off_diag.m().at(i_n - 1, 0)),
F:  start > 0 ==> off_diag.m().at(start - 1, 0) == 0real,
F:  ensures by == 0real,
F{
@ghost loop 1 start
  let ghost d0 = col(diag.m(), 0); let ghost o0 = col(off_diag.m(), 0); let ghost q0 = qg; let ghost by0 = by; let ghost ii = i as int;
@ghost before `break`
  proof { bi = ii; if issym { let (d, o) = (col(diag.m(), 0), col(off_diag.m(), 0)); assert(same(tb(d, o, end as int, nn, ii, by), tb(d, o, end as int, nn, ii - 1, by))); two_mid(qg, tb(d, o, end as int, nn, ii, by), tb(d, o, end as int, nn, ii - 1, by), a1); } }
@ghost after `ifletSome(q)=&mutq_mat`
  proof {
    let (c, s) = (rot.c.v(), rot.s.v()); let t = -s;
    let (d1, o1) = (col(diag.m(), 0), col(off_diag.m(), 0));
    let by1 = if ii + 1 < end { y.v() } else { 0real };
    if issym {
      assert(c * 0real == 0real) by (nonlinear_arith); assert(s * 0real == 0real) by (nonlinear_arith);
      assert(t * t == s * s) by (nonlinear_arith) requires t == -s;
      assert(chased(d0, o0, d1, o1, end as int, nn, ii, c, s, by0, by1));
      chase_step(d0, o0, d1, o1, end as int, nn, ii, c, s, by0, by1);
      qg = if q_mat is Some { q_mat->0.m() } else { rotc(q0, ii, c, t) };
      if q_mat is Some { rot_in(q0, qg, ii, c, t); } else { assert(same(qg, rotc(q0, ii, c, t))); }
      step_on(q0, qg, tb(d0, o0, end as int, nn, ii - 1, by0), tb(d1, o1, end as int, nn, ii, by1), a1, ii, c, t);
    }
    by = by1; bi = ii;
  }
@ghost before `ifoff_diag[m].abs()`
  proof { if issym { let (d, o) = (col(diag.m(), 0), col(off_diag.m(), 0)); assert(same(tb(d, o, end as int, nn, -2, 0real), tb(d, o, end as int, nn, bi, by))); two_mid(qg, tb(d, o, end as int, nn, -2, 0real), tb(d, o, end as int, nn, bi, by), a1); } }
@ghost before `end-=1` #1
  proof { if issym { let (d, o) = (col(diag.m(), 0), col(off_diag.m(), 0)); by_zero(eps.v(), rabs(d(m as int)) + rabs(d(n as int))); assert(rabs(o(end - 1)) <= 0real); assert(o(end - 1) == 0real); tb_cut(d, o, o, end as int, end - 1, nn); two_mid(qg, tb(d, o, end - 1, nn, -2, 0real), tb(d, o, end as int, nn, -2, 0real), a1); } }
@ghost before `leteigvals`
  let ghost d0 = col(diag.m(), 0); let ghost o0 = col(off_diag.m(), 0); let ghost q0 = qg; let ghost ii = start as int;
  let ghost mut did = false; let ghost mut uc = 0real; let ghost mut us = 0real; let ghost mut un = 0real;
  proof { sqr_pos((d0(ii) - d0(ii + 1)) / 2real); sqr_pos(o0(ii)); }
@ghost before `rotate_rows` #2
  proof { did = true; uc = rot.c.v(); us = rot.s.v(); let w = choose|w: Fl| #![trigger w.v()] w.v() > 0real && rot.c.v() * w.v() == basis.0.v() && rot.s.v() * w.v() == basis.1.v(); un = w.v(); }
@ghost before `end-=1` #2
  proof {
    if issym {
      let (x, y) = (basis.0.v(), basis.1.v());
      let (d1, o1) = (col(diag.m(), 0), col(off_diag.m(), 0));
      let (l1, a, o, b) = (d1(ii), d0(ii), o0(ii), d0(ii + 1));
      assert(o != 0real);
      if !did { if q_mat is Some { sqr_pos(x); sqr_pos(y); assert(false); } let u = unit_along(x, y); uc = u.0; us = u.1; un = u.2; }
      eig2_ok(a, o, b, l1, x, y, uc, us, un);
      block_step(d0, o0, d1, o1, end as int, nn, ii, uc, us);
      qg = if q_mat is Some { q_mat->0.m() } else { rotc(q0, ii, uc, us) };
      if q_mat is Some { rot_in(q0, qg, ii, uc, us); } else { assert(same(qg, rotc(q0, ii, uc, us))); }
      step_on(q0, qg, tb(d0, o0, end as int, nn, -2, 0real), tb(d1, o1, ii, nn, -2, 0real), a1, ii, uc, us);
    }
  }
@ghost before `letsub=`
  let ghost e2 = end as int; let ghost o2 = col(off_diag.m(), 0); let ghost d2 = col(diag.m(), 0);
@ghost after `letsub=`
  proof { if issym { let o3 = col(off_diag.m(), 0); assert forall|k: int| #![trigger o3(k)] 0 <= k < nn - 1 implies o3(k) == o2(k) && (sub.1 <= k < e2 ==> o3(k) == 0real) by { assert(off_diag.m().at(k, 0) == o3(k)); }
    tb_cut(d2, o2, o3, e2, sub.1 as int, nn); two_mid(qg, tb(d2, o3, sub.1 as int, nn, -2, 0real), tb(d2, o2, e2, nn, -2, 0real), a1); } }
@ghost after loop 0
  let ghost d9 = col(diag.m(), 0); let ghost o9 = col(off_diag.m(), 0);
@ghost end
  proof { if issym { eig_main(a1, d9, o9, qg, a0, k1, col(diag.m(), 0)); } }
F}
fn eigh::delimit_subproblem
@attr #[verifier::allow_complex_invariants]
@ret r
@spec
  requires end < diag.m().nr, old(off_diag).m().nr == diag.m().nr - 1,
S:  posv(eps.v()), finv(eps.v()),
F:  eps.v() == 0real,
  ensures shape(final(off_diag).m(), old(off_diag).m()), r.0 <= r.1 <= end, r.1 == 0 ==> r.0 == 0, r.1 > 0 ==> r.0 < r.1,
S:  r.1 > 0 ==> finv(diag.m().at(r.1 as int, 0)) && finv(diag.m().at(r.1 - 1, 0)) && !nanv(final(off_diag).m().at(r.1 - 1, 0)),
F:  forall|k: int| #![trigger final(off_diag).m().at(k, 0)] 0 <= k < old(off_diag).m().nr ==> final(off_diag).m().at(k, 0) == old(off_diag).m().at(k, 0),
F:  forall|k: int| #![trigger final(off_diag).m().at(k, 0)] r.1 <= k < end ==> final(off_diag).m().at(k, 0) == 0real,
F:  r.1 > 0 ==> final(off_diag).m().at(r.1 - 1, 0) != 0real,
F:  r.0 > 0 ==> final(off_diag).m().at(r.0 - 1, 0) == 0real,
@loop 0
  n <= end, off_diag.m() == old(off_diag).m(),
F:  forall|k: int| #![trigger off_diag.m().at(k, 0)] n <= k < end ==> off_diag.m().at(k, 0) == 0real,
  ensures true,
S:  n > 0 ==> finv(diag.m().at(n as int, 0)) && finv(diag.m().at(n - 1, 0)) && !nanv(off_diag.m().at(n - 1, 0)),
F:  n > 0 ==> off_diag.m().at(n - 1, 0) != 0real,
  decreases n,
@loop 1
  new_start < n <= end, off_diag.m().nr == old(off_diag).m().nr, off_diag.m().nc == 1, off_diag.m().at(n - 1, 0) == old(off_diag).m().at(n - 1, 0),
F:  forall|k: int| #![trigger off_diag.m().at(k, 0)] 0 <= k < old(off_diag).m().nr ==> off_diag.m().at(k, 0) == old(off_diag).m().at(k, 0),
F:  forall|k: int| #![trigger off_diag.m().at(k, 0)] n <= k < end ==> off_diag.m().at(k, 0) == 0real,
F:  ensures new_start > 0 ==> off_diag.m().at(new_start - 1, 0) == 0real,
  decreases new_start,
fn eigh::compute_2x2_eigvals
@ret r
@spec
S:  ensures h10.v() == h01.v() && finv(h00.v()) && finv(h11.v()) && !nanv(h10.v()) ==> r is Some,
F:  ensures r is Some <==> ((h00.v() - h11.v()) / 2real) * ((h00.v() - h11.v()) / 2real) + h10.v() * h01.v() >= 0real,
F:  r matches Some(p) ==> p.0.v() + p.1.v() == h00.v() + h11.v() && p.0.v() >= p.1.v() && (p.0.v() - h00.v()) * (p.0.v() - h11.v()) == h10.v() * h01.v(),
F{
@ghost start
  proof { eigs2(h00.v(), h11.v(), h10.v() * h01.v()); }
F}
fn eigh::EighInto[ArrayBase]::eigh_into
@ret r
@spec
  ensures r is Ok <==> sq(self.m()), r matches Err(e) ==> e == not_square(self.m()),
    r matches Ok(p) ==> p.0.m().nr == self.m().nr && shape(p.1.m(), self.m()),
F:  r matches Ok(p) ==> same(tr(self.m()), self.m()) ==> is_eig(self.m(), col(p.0.m(), 0), p.1.m()),
fn eigh::Eigh[ArrayBase]::eigh
@ret r
@spec
  ensures r is Ok <==> sq(self.m()), r matches Err(e) ==> e == not_square(self.m()),
    r matches Ok(p) ==> p.0.m().nr == self.m().nr && shape(p.1.m(), self.m()),
F:  r matches Ok(p) ==> same(tr(self.m()), self.m()) ==> is_eig(self.m(), col(p.0.m(), 0), p.1.m()),
fn eigh::EigValshInto[ArrayBase]::eigvalsh_into
@ret r
@spec
  ensures r is Ok <==> sq(self.m()), r matches Err(e) ==> e == not_square(self.m()),
    r matches Ok(p) ==> p.m().nr == self.m().nr,
F:  r matches Ok(p) ==> same(tr(self.m()), self.m()) ==> exists|q: M| #[trigger] is_eig(self.m(), col(p.m(), 0), q),
@closure 0 |c_0_0: (Array1<Fl>, Option<Array2<Fl>>)| -> (z: Array1<Fl>) ensures z == c_0_0.0,
fn eigh::EigValsh[ArrayBase]::eigvalsh
@ret r
@spec
  ensures r is Ok <==> sq(self.m()), r matches Err(e) ==> e == not_square(self.m()),
    r matches Ok(p) ==> p.m().nr == self.m().nr,
F:  r matches Ok(p) ==> same(tr(self.m()), self.m()) ==> exists|q: M| #[trigger] is_eig(self.m(), col(p.m(), 0), q),
fn eigh::cmp_floats
@ret r
@spec
S: requires !nanv(a.v()), !nanv(b.v()),
  ensures r == cmpv(a.v(), b.v()),
fn eigh::trait EigSort
@item
  spec fn sort_ok(&self) -> bool;
fn eigh::trait EigSort::sort_eig
@spec
  requires self.sort_ok()
fn eigh::trait EigSort::sort_eig_asc
@spec
  requires self.sort_ok()
fn eigh::trait EigSort::sort_eig_desc
@spec
  requires self.sort_ok()
fn eigh::EigSort[Array1]
@item
  open spec fn sort_ok(&self) -> bool { nan_free(self.m()) }
fn eigh::EigSort[tuple2]
@item
  open spec fn sort_ok(&self) -> bool { self.0.m().nr == self.1.m().nc && nan_free(self.0.m()) }
fn eigh::EigSort[Array1]::sort_eig
@ret r
@spec
  ensures r.m().nr == self.m().nr, ordered(col(r.m(), 0), r.m().nr, order), exists|p: Seq<int>| is_perm(p, self.m().nr) && #[trigger] taken(r.m(), self.m(), p),
@closure 0 |a: &Fl, b: &Fl| -> (o: core::cmp::Ordering)
S: requires !nanv(a.v()), !nanv(b.v()),
  ensures o == cmpv(b.v(), a.v()),
@closure 1 |a: &Fl, b: &Fl| -> (o: core::cmp::Ordering)
S: requires !nanv(a.v()), !nanv(b.v()),
  ensures o == cmpv(a.v(), b.v()),
@ghost start
  let ghost m0 = self.m();
@ghost after `letslice`
  let ghost s0 = slice@;
@ghost after `matchorder`
  let ghost s1 = slice@;
  let ghost p = choose|p: Seq<int>| is_perm(p, s0.len() as int) && forall|i: int| 0 <= i < s0.len() ==> #[trigger] s1[i] == s0[p[i]];
  proof {
    assert(is_perm(p, s0.len() as int) && forall|i: int| 0 <= i < s0.len() ==> #[trigger] s1[i] == s0[p[i]]);
    assert forall|i: int, j: int| 0 <= i < j < s1.len() implies (if order is Largest { ordv(#[trigger] s1[i].v()) >= ordv(#[trigger] s1[j].v()) } else { ordv(s1[i].v()) <= ordv(s1[j].v()) }) by { }
  }
@ghost end
  proof {
    assert(self_.m().nr == m0.nr);
    assert forall|i: int| 0 <= i < m0.nr implies #[trigger] self_.m().at(i, 0) == s1[i].v() && self_.m().at(i, 0) == m0.at(p[i], 0) by { }
    assert(taken(self_.m(), m0, p));
  }
fn eigh::EigSort[Array1]::sort_eig_asc
@ret r
@spec
  ensures r.m().nr == self.m().nr, ordered(col(r.m(), 0), r.m().nr, Order::Smallest), exists|p: Seq<int>| is_perm(p, self.m().nr) && #[trigger] taken(r.m(), self.m(), p),
fn eigh::EigSort[Array1]::sort_eig_desc
@ret r
@spec
  ensures r.m().nr == self.m().nr, ordered(col(r.m(), 0), r.m().nr, Order::Largest), exists|p: Seq<int>| is_perm(p, self.m().nr) && #[trigger] taken(r.m(), self.m(), p),
fn eigh::EigSort[tuple2]::sort_eig
@ret r
@spec
  ensures shape(r.0.m(), self.0.m()), shape(r.1.m(), self.1.m()), ordered(col(r.0.m(), 0), r.0.m().nr, order), exists|p: Seq<int>| is_perm(p, self.0.m().nr) && #[trigger] taken(r.0.m(), self.0.m(), p) && taken(tr(r.1.m()), tr(self.1.m()), p),
@closure 0 |a: &(usize, Fl), b: &(usize, Fl)| -> (o: core::cmp::Ordering)
S: requires !nanv(a.1.v()), !nanv(b.1.v()),
  ensures o == cmpv(b.1.v(), a.1.v()),
@closure 1 |a: &(usize, Fl), b: &(usize, Fl)| -> (o: core::cmp::Ordering)
S: requires !nanv(a.1.v()), !nanv(b.1.v()),
  ensures o == cmpv(a.1.v(), b.1.v()),
@ghost start
  let ghost (v0, w0) = (self.0.m(), self.1.m()); let ghost nn = v0.nr;
@ghost after `letmutvalue_idx`
  let ghost x0 = value_idx@;
  proof { assert forall|k: int| 0 <= k < nn implies (#[trigger] x0[k]).0 == k && x0[k].1.v() == v0.at(k, 0) by { } }
@ghost before `letmutout`
  let ghost x1 = value_idx@;
  let ghost p = choose|p: Seq<int>| is_perm(p, x0.len() as int) && forall|i: int| 0 <= i < x0.len() ==> #[trigger] x1[i] == x0[p[i]];
  proof {
    assert(is_perm(p, x0.len() as int) && forall|i: int| 0 <= i < x0.len() ==> #[trigger] x1[i] == x0[p[i]]);
    assert forall|i: int, j: int| 0 <= i < j < x1.len() implies (if order is Largest { ordv(#[trigger] x1[i].1.v()) >= ordv(#[trigger] x1[j].1.v()) } else { ordv(x1[i].1.v()) <= ordv(x1[j].1.v()) }) by { }
    assert forall|k: int| 0 <= k < nn implies (#[trigger] x1[k]).0 == p[k] && x1[k].1.v() == v0.at(p[k], 0) && 0 <= p[k] < nn by { }
  }
@ghost end
  proof {
    assert forall|i: int| 0 <= i < nn implies #[trigger] vals.m().at(i, 0) == x1[i].1.v() && vals.m().at(i, 0) == v0.at(p[i], 0) by {
      assert(x1[i].1.v() == v0.at(p[i], 0));
    }
    assert(taken(vals.m(), v0, p));
    assert forall|i: int, c: int| 0 <= i < p.len() && 0 <= c < w0.nr implies #[trigger] tr(out.m()).at(i, c) == tr(w0).at(p[i], c) by { }
    assert(taken(tr(out.m()), tr(w0), p));
  }
@loop 0
  shape(out.m(), w0), it_0.len() == nn, forall|k: int| 0 <= k < nn ==> (#[trigger] it_0.sq()[k]).0 == k && *it_0.sq()[k].1 == value_idx@[k],
  forall|r: int, c: int| 0 <= r < w0.nr && 0 <= c < it_0.pos() ==> #[trigger] out.m().at(r, c) == w0.at(r, p[c]),
@loop 1
  it_1.len() == nn, forall|k: int| 0 <= k < nn ==> *(#[trigger] it_1.sq()[k]).1 == value_idx@[k],
  forall|k: int| 0 <= k < it_1.pos() ==> *final((#[trigger] it_1.sq()[k]).0) == value_idx@[k].1,
fn eigh::EigSort[tuple2]::sort_eig_asc
@ret r
@spec
  ensures shape(r.0.m(), self.0.m()), shape(r.1.m(), self.1.m()), ordered(col(r.0.m(), 0), r.0.m().nr, Order::Smallest), exists|p: Seq<int>| is_perm(p, self.0.m().nr) && #[trigger] taken(r.0.m(), self.0.m(), p) && taken(tr(r.1.m()), tr(self.1.m()), p),
fn eigh::EigSort[tuple2]::sort_eig_desc
@ret r
@spec
  ensures shape(r.0.m(), self.0.m()), shape(r.1.m(), self.1.m()), ordered(col(r.0.m(), 0), r.0.m().nr, Order::Largest), exists|p: Seq<int>| is_perm(p, self.0.m().nr) && #[trigger] taken(r.0.m(), self.0.m(), p) && taken(tr(r.1.m()), tr(self.1.m()), p),
