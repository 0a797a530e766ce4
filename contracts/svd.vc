fn svd::svd
@ret r
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::allow_complex_invariants]
@attr #[verifier::rlimit(600)]
@attr #[verifier::spinoff_prover]
@spec
F: requires eps.v() == 0real,
  ensures r is Ok <==> matrix.m().nr >= 1 && matrix.m().nc >= 1, r matches Err(e) ==> e == LinalgError::EmptyMatrix,
    r matches Ok(p) ==> svd_shape(matrix.m(), p.0, p.1.m(), p.2, compute_u, compute_v),
F:  r matches Ok(p) ==> has_svd(matrix.m(), p.0, p.1.m(), p.2),
@closure 0 |f: &Fl| -> (z: Fl)
F: ensures z.v() == rabs(f.v()),
@closure 1 |a: Fl, b: Fl| -> (z: Fl)
F: ensures z.v() == rmax(a.v(), b.v()),
@closure 2 || -> (z: Array2<Fl>) requires bi_shape(bidiag.uv.m(), bidiag.diagonal.m(), bidiag.off_diagonal.m(), bidiag.upper_diag),
  ensures z.m().nr == bidiag.uv.m().nr, z.m().nc == bidiag.diagonal.m().nr,
F:  same(z.m(), bi_u(bidiag.uv.m(), col(bidiag.diagonal.m(), 0), col(bidiag.off_diagonal.m(), 0), bidiag.upper_diag)),
@closure 3 || -> (z: Array2<Fl>) requires bi_shape(bidiag.uv.m(), bidiag.diagonal.m(), bidiag.off_diagonal.m(), bidiag.upper_diag),
  ensures z.m().nr == bidiag.diagonal.m().nr, z.m().nc == bidiag.uv.m().nc,
F:  same(z.m(), bi_vt(bidiag.uv.m(), col(bidiag.diagonal.m(), 0), col(bidiag.off_diagonal.m(), 0), bidiag.upper_diag)),
@ghost start
  let ghost a0 = matrix.m(); let ghost nn = imin(a0.nr, a0.nc);
F{
  let ghost el0 = matrix.els();
  proof { crate::ndarray::axiom_els2(matrix); }
@ghost after `letamax`
  proof { let acc = choose|acc: Seq<Fl>| #![trigger acc.len()] fold_up(acc, el0, amax); up_all(acc, el0, amax); el_idx(0, 0, a0.nr, a0.nc); assert(rabs(el0[0]) <= amax.v()); }
@ghost before `letbidiag`
  let ghost a1 = matrix.m(); let ghost k1 = amax.v();
  proof { scaled(a0, a1, el0, k1); }
@ghost before `into_diagonals`
  let ghost ul = bi_u(bidiag.uv.m(), col(bidiag.diagonal.m(), 0), col(bidiag.off_diagonal.m(), 0), bidiag.upper_diag); let ghost vl = bi_vt(bidiag.uv.m(), col(bidiag.diagonal.m(), 0), col(bidiag.off_diagonal.m(), 0), bidiag.upper_diag);
  let ghost bm = bmat(col(bidiag.diagonal.m(), 0), col(bidiag.off_diagonal.m(), 0), nn, bidiag.upper_diag); let ghost (dq, oq) = (bidiag.diagonal.m(), bidiag.off_diagonal.m());
@ghost after `into_diagonals`
  let ghost (zd, zo, zu, zv) = (diag.m(), off_diag.m(), u, vt); let ghost bz = ub0(col(zd, 0), col(zo, 0), nn);
  proof {
    let (x, y) = (ub0(col(zd, 0), col(zo, 0), nn), if is_upper_diag { bm } else { tr(bm) });
    assert forall|i: int, j: int| 0 <= i < nn && 0 <= j < nn implies #[trigger] x.at(i, j) == y.at(i, j) by { assert(zd.at(i, 0) == rabs(dq.at(i, 0))); if j == i + 1 { assert(zo.at(i, 0) == rabs(oq.at(i, 0))); } }
    assert(same(x, y));
  }
F}
@loop 0
  svd_st(a0, diag.m(), off_diag.m(), u, vt, compute_u, compute_v), start <= end < nn, start == end ==> end == 0,
F:  went(zd, zo, zu, zv, diag.m(), off_diag.m(), u, vt, is_upper_diag), ocut(col(off_diag.m(), 0), end as int, nn), start > 0 ==> off_diag.m().at(start - 1, 0) == 0real,
F:  start < end ==> off_diag.m().at(end - 1, 0) != 0real && diag.m().at(end - 1, 0) != 0real && diag.m().at(end as int, 0) != 0real,
F{
@ghost loop 0 start
  let ghost (gd, go, gu, gv) = (diag.m(), off_diag.m(), u, vt); let ghost mut zz = 0real; let ghost mut jj = start - 1;
@ghost before loop 1
  proof { assert forall|t: int| #![trigger off_diag.m().at(t, 0)] end <= t < nn - 1 implies off_diag.m().at(t, 0) == 0real by { assert(col(go, 0)(t) == 0real); }
    let (d, o) = (col(gd, 0), col(go, 0)); ub_none(d, o, nn, jj, jj + 2); reach_mid(bz, zu, zv, ub0(d, o, nn), u, vt, is_upper_diag, ub(d, o, nn, jj, jj + 2, zz)); }
F}
@loop 1
  svd_st(a0, diag.m(), off_diag.m(), u, vt, compute_u, compute_v), start + 2 <= end < nn, n == end,
F:  reach(bz, zu, zv, ub(col(diag.m(), 0), col(off_diag.m(), 0), nn, jj, jj + 2, zz), u, vt, is_upper_diag), jj == k_n - 1,
F:  k_n == start ==> zz == 0real, k_n >= n ==> zz == 0real, start < k_n < n ==> zz == vec.1.v() && (zz != 0real ==> vec.0.v() == off_diag.m().at(k_n - 1, 0)),
F:  start > 0 ==> off_diag.m().at(start - 1, 0) == 0real, forall|t: int| #![trigger off_diag.m().at(t, 0)] end <= t < nn - 1 ==> off_diag.m().at(t, 0) == 0real,
F:  ensures zz == 0real,
F{
@ghost loop 1 start
  let ghost d0 = col(diag.m(), 0); let ghost o0 = col(off_diag.m(), 0); let ghost (u0, v0) = (u, vt); let ghost z0 = zz; let ghost ii = k as int;
@ghost before `break`
  proof { let (d, o) = (col(diag.m(), 0), col(off_diag.m(), 0)); ub_none(d, o, nn, jj, jj + 2); ub_none(d, o, nn, jj + 1, jj + 3); same_trans(ub(d, o, nn, jj + 1, jj + 3, 0real), ub0(d, o, nn), ub(d, o, nn, jj, jj + 2, zz)); reach_mid(bz, zu, zv, ub(d, o, nn, jj, jj + 2, zz), u, vt, is_upper_diag, ub(d, o, nn, jj + 1, jj + 3, 0real)); jj = jj + 1; }
@ghost before `rot1.inverse()` #1
  let ghost s0 = subm.m();
@ghost after `rot1.inverse()` #1
  let ghost s1 = subm.m();
  proof { assert(gk_win(d0, o0, ii, k == n - 1, s0)); assert(gk_cols(s0, s1, rot1.c.v(), rot1.s.v())); }
@ghost after `vec.1=`
  proof {
    let (c, s) = (rot1.c.v(), rot1.s.v()); let (d2, o2) = (col(diag.m(), 0), col(off_diag.m(), 0)); let s2 = subm.m(); let has = rot2 is Some; let (e, f) = if has { (rot2->0.c.v(), rot2->0.s.v()) } else { (1real, 0real) };
    assert(gk_rows(s1, s2, has, e, f));
    zmul(c); zmul(s);
    assert(ii > 0 ==> c * z0 + s * o0(ii - 1) == 0real && o2(ii - 1) == c * o0(ii - 1) - s * z0) by { if start > 0 { assert(off_diag.m().at(start - 1, 0) == o0(start - 1)); } }
    if ii + 2 < nn { assert(off_diag.m().at(ii + 1, 0) == o2(ii + 1)); }
    if is_upper_diag { assert(trr(v0, vt, ii, ii + 1, c, -s)); assert(if has { trc(u0, u, ii, ii + 1, e, -f) } else { u == u0 }); } else { assert(trc(u0, u, ii, ii + 1, c, -s)); assert(if has { trr(v0, vt, ii, ii + 1, e, -f) } else { vt == v0 }); }
    gk_step(bz, zu, zv, d0, o0, d2, o2, nn, k == n - 1, ii, z0, s0, s1, s2, c, s, has, e, f, u0, v0, u, vt, is_upper_diag);
    jj = ii; zz = s2.at(0, 2);
  }
@ghost after loop 1
  proof { let (d, o) = (col(diag.m(), 0), col(off_diag.m(), 0)); ub_none(d, o, nn, jj, jj + 2); reach_mid(bz, zu, zv, ub(d, o, nn, jj, jj + 2, zz), u, vt, is_upper_diag, ub0(d, o, nn)); }
@ghost after `let(rot_u,rot_v)`
  let ghost (ru, rv) = if is_upper_diag { (rot_u, rot_v) } else { (rot_v, rot_u) };
  let ghost (gcu, gsu, gc, gs) = choose|cu: real, su: real, c: real, s: real| #[trigger] svd2(gd.at(start as int, 0), go.at(start as int, 0), gd.at(start + 1, 0), diag.m().at(start as int, 0), diag.m().at(start + 1, 0), cu, su, c, s) && rot_is(ru, cu, su) && rot_is(rv, c, s);
@ghost before `end-=1`
  proof {
    let ii = start as int; let (d0, o0, d1, o1) = (col(gd, 0), col(go, 0), col(diag.m(), 0), col(off_diag.m(), 0));
    if ii + 2 < nn { assert(o0(ii + 1) == 0real); }
    if is_upper_diag { assert(trc(gu, u, ii, ii + 1, gcu, gsu)); assert(trr(gv, vt, ii, ii + 1, gc, gs)); } else { assert(trc(gu, u, ii, ii + 1, gc, gs)); assert(trr(gv, vt, ii, ii + 1, gcu, gsu)); }
    blk_reach(bz, zu, zv, d0, o0, d1, o1, nn, ii, gcu, gsu, gc, gs, gu, gv, u, vt, is_upper_diag);
    assert(off_diag.m().at(ii, 0) == 0real);
  }
@ghost before `letsub=`
  let ghost (hd, ho, hu, hv) = (diag.m(), off_diag.m(), u, vt);
  proof { let o = col(ho, 0); assert forall|k: int| end <= k < nn - 1 implies #[trigger] o(k) == 0real by { assert(ho.at(k, 0) == o(k)); assert(col(go, 0)(k) == 0real || k == end); } }
@ghost after `letsub=`
  proof { went_join(zd, zo, zu, zv, hd, ho, hu, hv, diag.m(), off_diag.m(), u, vt, is_upper_diag); }
@ghost after loop 0
  let ghost (d9, o9, u9) = (diag.m(), off_diag.m(), u);
@ghost end
  proof { if u is Some { assert(same(u->0.m(), colsg(u9->0.m(), sgf(col(d9, 0), k1)))); } svd_fin(a0, a1, k1, ul, bm, vl, is_upper_diag, zd, zo, zu, zv, d9, o9, u9, vt, diag.m(), u); }
F}
@loop 2
  svd_st(a0, diag.m(), off_diag.m(), u, vt, compute_u, compute_v),
F:  forall|t: int| #![trigger diag.m().at(t, 0)] 0 <= t < nn ==> diag.m().at(t, 0) == (if t < i_n { rabs(d9.at(t, 0) * k1) } else { d9.at(t, 0) * k1 }),
F:  u matches Some(x) ==> (forall|r: int, c: int| #![trigger x.m().at(r, c)] 0 <= r < a0.nr && 0 <= c < nn ==> x.m().at(r, c) == u9->0.m().at(r, c) * (if c < i_n { sgf(col(d9, 0), k1)(c) } else { 1real })),
fn svd::delimit_subproblem
@ret r
@attr #[verifier::allow_complex_invariants]
@spec
  requires diag_st(old(diag).m(), old(off_diag).m(), *old(u), *old(v_t)), end < old(diag).m().nr,
F:  eps.v() == 0real, ocut(col(old(off_diag).m(), 0), end as int, old(diag).m().nr),
  ensures shape(final(diag).m(), old(diag).m()), shape(final(off_diag).m(), old(off_diag).m()), same_opt(*final(u), *old(u)), same_opt(*final(v_t), *old(v_t)),
    final(diag).fin() == old(diag).fin(), final(off_diag).fin() == old(off_diag).fin(),
    r.0 <= r.1 <= end, r.0 == r.1 ==> r.1 == 0,
F:  went(old(diag).m(), old(off_diag).m(), *old(u), *old(v_t), final(diag).m(), final(off_diag).m(), *final(u), *final(v_t), is_upper_diag),
F:  ocut(col(final(off_diag).m(), 0), r.1 as int, old(diag).m().nr), r.0 > 0 ==> final(off_diag).m().at(r.0 - 1, 0) == 0real,
F:  r.0 < r.1 ==> final(off_diag).m().at(r.1 - 1, 0) != 0real && final(diag).m().at(r.1 - 1, 0) != 0real && final(diag).m().at(r.1 as int, 0) != 0real,
@loop 0
  shape(diag.m(), old(diag).m()), shape(off_diag.m(), old(off_diag).m()), same_opt(*u, *old(u)), same_opt(*v_t, *old(v_t)), diag.fin() == old(diag).fin(), off_diag.fin() == old(off_diag).fin(),
  n <= end,
F:  went(zd, zo, zu, zv, diag.m(), off_diag.m(), *u, *v_t, is_upper_diag), forall|k: int| #![trigger off_diag.m().at(k, 0)] n <= k < nn - 1 ==> off_diag.m().at(k, 0) == 0real,
F:  ensures n > 0 ==> off_diag.m().at(n - 1, 0) != 0real && diag.m().at(n - 1, 0) != 0real && diag.m().at(n as int, 0) != 0real,
  decreases n,
@loop 1
  shape(diag.m(), old(diag).m()), shape(off_diag.m(), old(off_diag).m()), same_opt(*u, *old(u)), same_opt(*v_t, *old(v_t)), diag.fin() == old(diag).fin(), off_diag.fin() == old(off_diag).fin(),
  new_start < n <= end,
F:  went(zd, zo, zu, zv, diag.m(), off_diag.m(), *u, *v_t, is_upper_diag), forall|k: int| #![trigger off_diag.m().at(k, 0)] n <= k < nn - 1 ==> off_diag.m().at(k, 0) == 0real,
F:  off_diag.m().at(n - 1, 0) != 0real && diag.m().at(n - 1, 0) != 0real && diag.m().at(n as int, 0) != 0real,
F:  ensures new_start > 0 ==> off_diag.m().at(new_start - 1, 0) == 0real,
  decreases new_start,
F{
@ghost start
  let ghost (zd, zo, zu, zv) = (diag.m(), off_diag.m(), *u, *v_t); let ghost nn = zd.nr;
  proof { went_none(zd, zo, zu, zv, is_upper_diag); assert forall|k: int| #![trigger off_diag.m().at(k, 0)] end <= k < nn - 1 implies off_diag.m().at(k, 0) == 0real by { assert(col(zo, 0)(k) == 0real); } }
@ghost loop 0 start
  let ghost mut gd = diag.m(); let ghost mut go = off_diag.m(); let ghost mut gu = *u; let ghost mut gv = *v_t;
  proof { by_zero(eps.v(), rabs(gd.at(n as int, 0)) + rabs(gd.at(n - 1, 0))); }
@ghost after `*off_diag.atm(m)=` #1
  proof { went_mid(zd, zo, zu, zv, gd, go, gu, gv, is_upper_diag, diag.m(), off_diag.m()); }
@ghost after `*diag.atm(m)=` #1
  proof { went_mid(zd, zo, zu, zv, gd, go, gu, gv, is_upper_diag, diag.m(), off_diag.m()); gd = diag.m(); }
@ghost after `cancel_horizontal` #1
  proof { went_join(zd, zo, zu, zv, gd, go, gu, gv, diag.m(), off_diag.m(), *u, *v_t, is_upper_diag); gd = diag.m(); go = off_diag.m(); gu = *u; gv = *v_t; }
@ghost after `cancel_vertical` #1
  proof { went_join(zd, zo, zu, zv, gd, go, gu, gv, diag.m(), off_diag.m(), *u, *v_t, is_upper_diag); }
@ghost after `*diag.atm(n)=` #1
  proof { went_mid(zd, zo, zu, zv, gd, go, gu, gv, is_upper_diag, diag.m(), off_diag.m()); gd = diag.m(); }
@ghost after `cancel_vertical` #2
  proof { went_join(zd, zo, zu, zv, gd, go, gu, gv, diag.m(), off_diag.m(), *u, *v_t, is_upper_diag); }
@ghost loop 1 start
  let ghost mut gd = diag.m(); let ghost mut go = off_diag.m(); let ghost mut gu = *u; let ghost mut gv = *v_t;
  proof { by_zero(eps.v(), rabs(gd.at(new_start as int, 0)) + rabs(gd.at(new_start - 1, 0))); }
@ghost after `*off_diag.atm(m)=` #3
  proof { went_mid(zd, zo, zu, zv, gd, go, gu, gv, is_upper_diag, diag.m(), off_diag.m()); }
@ghost after `*diag.atm(m)=` #3
  proof { went_mid(zd, zo, zu, zv, gd, go, gu, gv, is_upper_diag, diag.m(), off_diag.m()); gd = diag.m(); }
@ghost after `cancel_horizontal` #3
  proof { went_join(zd, zo, zu, zv, gd, go, gu, gv, diag.m(), off_diag.m(), *u, *v_t, is_upper_diag); gd = diag.m(); go = off_diag.m(); gu = *u; gv = *v_t; }
@ghost after `cancel_vertical` #4
  proof { went_join(zd, zo, zu, zv, gd, go, gu, gv, diag.m(), off_diag.m(), *u, *v_t, is_upper_diag); }
F}
fn svd::cancel_horizontal_off_diagonal_elt
@spec
  requires diag_st(old(diag).m(), old(off_diag).m(), *old(u), *old(v_t)), i < end < old(diag).m().nr,
F:  old(diag).m().at(i as int, 0) == 0real, end < old(diag).m().nr - 1 ==> old(off_diag).m().at(end as int, 0) == 0real,
  ensures shape(final(diag).m(), old(diag).m()), shape(final(off_diag).m(), old(off_diag).m()), same_opt(*final(u), *old(u)), same_opt(*final(v_t), *old(v_t)),
    final(diag).fin() == old(diag).fin(), final(off_diag).fin() == old(off_diag).fin(),
F:  went(old(diag).m(), old(off_diag).m(), *old(u), *old(v_t), final(diag).m(), final(off_diag).m(), *final(u), *final(v_t), is_upper_diag), ch_done(old(diag).m(), old(off_diag).m(), final(diag).m(), final(off_diag).m(), i as int, end as int),
F{
@ghost start
  let ghost nn = diag.m().nr; let ghost dd = col(diag.m(), 0); let ghost oo = col(off_diag.m(), 0); let ghost b0 = ub0(dd, oo, nn); let ghost (uz, vz) = (*u, *v_t);
  let ghost mut pg = ident(nn, nn); let ghost mut qg = ident(nn, nn); let ghost mut zz = oo(i as int); let ghost mut jj = i + 1;
@ghost before loop 0
  proof { steps_none(b0); lk_none(uz, vz, is_upper_diag, nn); steps_mid(pg, qg, b0, b0, ub(col(diag.m(), 0), col(off_diag.m(), 0), nn, i as int, jj, zz)); }
F}
@loop 0
  shape(diag.m(), old(diag).m()), shape(off_diag.m(), old(off_diag).m()), same_opt(*u, *old(u)), same_opt(*v_t, *old(v_t)), diag.fin() == old(diag).fin(), off_diag.fin() == old(off_diag).fin(),
F:  steps(pg, qg, b0, ub(col(diag.m(), 0), col(off_diag.m(), 0), nn, i as int, jj, zz)), lk(uz, vz, *u, *v_t, is_upper_diag, pg, qg), jj == k_n + 1,
F:  diag.m().at(i as int, 0) == 0real, off_diag.m().at(i as int, 0) == 0real, k_n < end ==> zz == v.0.v() && (zz != 0real ==> v.1.v() == diag.m().at(k_n + 1, 0)), k_n >= end ==> zz == 0real,
F:  forall|k: int| #![trigger diag.m().at(k, 0)] 0 <= k < nn && (k <= i || k > k_n) ==> diag.m().at(k, 0) == dd(k),
F:  forall|k: int| #![trigger off_diag.m().at(k, 0)] 0 <= k < nn - 1 && (k < i || k > k_n || k >= end) ==> off_diag.m().at(k, 0) == oo(k),
F:  forall|k: int| #![trigger diag.m().at(k, 0)] i < k < nn && dd(k) != 0real ==> diag.m().at(k, 0) != 0real,
F:  forall|k: int| #![trigger off_diag.m().at(k, 0)] i < k < end && dd(k) != 0real && oo(k) != 0real ==> off_diag.m().at(k, 0) != 0real,
@ghost loop 0 start
  proof { step_two(k - i + 1); }
F{
  let ghost d0 = col(diag.m(), 0); let ghost o0 = col(off_diag.m(), 0); let ghost (u0, v0) = (*u, *v_t); let ghost z0 = v.0.v();
@ghost before `break`
  proof { let (d, o) = (col(diag.m(), 0), col(off_diag.m(), 0)); assert(same(ub(d, o, nn, i as int, jj + 1, 0real), ub(d, o, nn, i as int, jj, zz))); steps_mid(pg, qg, b0, ub(d, o, nn, i as int, jj, zz), ub(d, o, nn, i as int, jj + 1, 0real)); jj = jj + 1; zz = 0real; }
@ghost after `ifk+1!=end`
  proof {
    let (c, s) = (rot.c.v(), rot.s.v()); let (d1, o1) = (col(diag.m(), 0), col(off_diag.m(), 0)); let t = -s; let j = k + 1;
    assert(t * t == s * s) by (nonlinear_arith) requires t == -s;
    if j < nn - 1 { assert(off_diag.m().at(j, 0) == o1(j)); let a = o0(j); assert(t * a == -(s * a)) by (nonlinear_arith) requires t == -s; assert(a * c == c * a) by (nonlinear_arith); zmul(c); zmul(s); if d0(j) != 0real { let (w, e) = (norm.v(), d0(j)); if c == 0real { assert(c * w == 0real) by (nonlinear_arith) requires c == 0real; } if a != 0real { mul_nz(c, a); } } }
    let z1 = if j < end { -(s * o0(j)) } else { 0real };
    ch_step(d0, o0, d1, o1, nn, i as int, j, z0, z1, c, s);
    step_p(pg, qg, b0, ub(d0, o0, nn, i as int, j, z0), ub(d1, o1, nn, i as int, j + 1, z1), i as int, j, c, t);
    if is_upper_diag { if *u is Some { assert(turned(u0->0.m(), (*u)->0.m(), i as int, j, c, t)); } lkc_turn(u0, uz, pg, *u, i as int, j, c, t); }
    else { if *v_t is Some { assert(turned(tr(v0->0.m()), tr((*v_t)->0.m()), i as int, j, c, t)); } lkr_turn(v0, vz, pg, *v_t, i as int, j, c, t); }
    pg = pc(pg, i as int, j, c, t); zz = z1; jj = jj + 1;
  }
@ghost end
  proof { let (d, o) = (col(diag.m(), 0), col(off_diag.m(), 0)); ub_none(d, o, nn, i as int, jj); steps_mid(pg, qg, b0, ub(d, o, nn, i as int, jj, 0real), ub0(d, o, nn)); reach_in(pg, qg, b0, uz, vz, ub0(d, o, nn), *u, *v_t, is_upper_diag); }
F}
fn svd::cancel_vertical_off_diagonal_elt
@spec
  requires diag_st(old(diag).m(), old(off_diag).m(), *old(u), *old(v_t)), i + 1 < old(diag).m().nr,
F:  old(diag).m().at(i + 1, 0) == 0real,
  ensures shape(final(diag).m(), old(diag).m()), shape(final(off_diag).m(), old(off_diag).m()), same_opt(*final(u), *old(u)), same_opt(*final(v_t), *old(v_t)),
    final(diag).fin() == old(diag).fin(), final(off_diag).fin() == old(off_diag).fin(),
F:  went(old(diag).m(), old(off_diag).m(), *old(u), *old(v_t), final(diag).m(), final(off_diag).m(), *final(u), *final(v_t), is_upper_diag), cv_done(old(diag).m(), old(off_diag).m(), final(diag).m(), final(off_diag).m(), i as int),
F{
@ghost start
  let ghost nn = diag.m().nr; let ghost dd = col(diag.m(), 0); let ghost oo = col(off_diag.m(), 0); let ghost b0 = ub0(dd, oo, nn); let ghost (uz, vz) = (*u, *v_t);
  let ghost mut pg = ident(nn, nn); let ghost mut qg = ident(nn, nn); let ghost mut zz = oo(i as int); let ghost mut jj = i as int;
@ghost before loop 0
  proof { steps_none(b0); lk_none(uz, vz, is_upper_diag, nn); steps_mid(pg, qg, b0, b0, ub(col(diag.m(), 0), col(off_diag.m(), 0), nn, jj, i + 1, zz)); }
F}
@loop 0
  shape(diag.m(), old(diag).m()), shape(off_diag.m(), old(off_diag).m()), same_opt(*u, *old(u)), same_opt(*v_t, *old(v_t)), diag.fin() == old(diag).fin(), off_diag.fin() == old(off_diag).fin(),
F:  steps(pg, qg, b0, ub(col(diag.m(), 0), col(off_diag.m(), 0), nn, jj, i + 1, zz)), lk(uz, vz, *u, *v_t, is_upper_diag, pg, qg), jj == k_n - 1,
F:  diag.m().at(i + 1, 0) == 0real, off_diag.m().at(i as int, 0) == 0real, k_n > 0 ==> zz == v.1.v() && (zz != 0real ==> v.0.v() == diag.m().at(k_n - 1, 0)), k_n <= 0 ==> zz == 0real,
F:  forall|k: int| #![trigger diag.m().at(k, 0)] 0 <= k < nn && k > i ==> diag.m().at(k, 0) == dd(k),
F:  forall|k: int| #![trigger off_diag.m().at(k, 0)] 0 <= k < nn - 1 && k > i ==> off_diag.m().at(k, 0) == oo(k),
@ghost loop 0 start
  proof { step_two(i - k + 1); }
F{
  let ghost d0 = col(diag.m(), 0); let ghost o0 = col(off_diag.m(), 0); let ghost (u0, v0) = (*u, *v_t); let ghost z0 = v.1.v();
@ghost before `break`
  proof { let (d, o) = (col(diag.m(), 0), col(off_diag.m(), 0)); assert(same(ub(d, o, nn, jj - 1, i + 1, 0real), ub(d, o, nn, jj, i + 1, zz))); steps_mid(pg, qg, b0, ub(d, o, nn, jj, i + 1, zz), ub(d, o, nn, jj - 1, i + 1, 0real)); jj = jj - 1; zz = 0real; }
@ghost after `ifk>0`
  proof {
    let (c, s) = (rot.c.v(), rot.s.v()); let (d1, o1) = (col(diag.m(), 0), col(off_diag.m(), 0)); let t = -s; let j = i + 1;
    assert(t * t == s * s) by (nonlinear_arith) requires t == -s;
    if k > 0 { assert(off_diag.m().at(k - 1, 0) == o1(k - 1)); let a = o0(k - 1); assert(a * c == c * a) by (nonlinear_arith); }
    let z1 = if k > 0 { s * o0(k - 1) } else { 0real };
    cv_step(d0, o0, d1, o1, nn, k as int, j, z0, z1, c, s);
    step_q(pg, qg, b0, ub(d0, o0, nn, k as int, j, z0), ub(d1, o1, nn, k - 1, j, z1), k as int, j, c, t);
    if is_upper_diag { if *v_t is Some { assert(turned(tr(v0->0.m()), tr((*v_t)->0.m()), k as int, j, c, t)); } lkr_turn(v0, vz, qg, *v_t, k as int, j, c, t); }
    else { if *u is Some { assert(turned(u0->0.m(), (*u)->0.m(), k as int, j, c, t)); } lkc_turn(u0, uz, qg, *u, k as int, j, c, t); }
    qg = pc(qg, k as int, j, c, t); zz = z1; jj = jj - 1;
  }
@ghost end
  proof { let (d, o) = (col(diag.m(), 0), col(off_diag.m(), 0)); ub_none(d, o, nn, jj, i + 1); steps_mid(pg, qg, b0, ub(d, o, nn, jj, i + 1, 0real), ub0(d, o, nn)); reach_in(pg, qg, b0, uz, vz, ub0(d, o, nn), *u, *v_t, is_upper_diag); }
F}
fn svd::compute_2x2_uptrig_svd
@ret r
@spec
F: requires m11.v() != 0real, m12.v() != 0real, m22.v() != 0real,
  ensures r.2 is Some <==> compute_u, r.3 is Some <==> compute_v,
F:  exists|cu: real, su: real, c: real, s: real| #[trigger] svd2(m11.v(), m12.v(), m22.v(), r.0.v(), r.1.v(), cu, su, c, s) && rot_is(r.2, cu, su) && rot_is(r.3, c, s),
F{
@ghost start
  let ghost (ga, go, gb) = (m11.v(), m12.v(), m22.v()); let ghost mut did = false; let ghost (mut gcu, mut gsu, mut gc, mut gs) = (0real, 0real, 0real, 0real);
@ghost before `letmutu=`
  proof {
    let (h1, h2) = choose|h1: real, h2: real| #[trigger] is_sqrt(h1, (ga + gb) * (ga + gb) + go * go) && #[trigger] is_sqrt(h2, (ga - gb) * (ga - gb) + go * go) && denom.v() == h1 + h2;
    hyp_pos(h1, ga + gb, go); hyp_pos(h2, ga - gb, go);
    vals2(ga, go, gb, h1, h2, v1.v(), v2.v()); mul_nz(ga, go);
  }
@ghost after `let(csv,_)`
  let ghost (x, y) = (cv.v(), sv.v());
  proof { sqr_pos(x); sqr_pos(y); mneg(ga, go); }
@ghost after `let(csu,_)`
  proof {
    did = true; gc = csv.c.v(); gs = csv.s.v(); gcu = cu.v(); gsu = su.v();
    let w = choose|w: Fl| #![trigger w.v()] w.v() >= 0real && w.v() * w.v() == x * x + y * y && csv.c.v() * w.v() == x && csv.s.v() * w.v() == y; let n = w.v();
    if n == 0real { assert(n * n == 0real) by (nonlinear_arith) requires n == 0real; }
    div_cancel(gb * gc, v2.v()); div_cancel(ga * gs - go * gc, v2.v());
    svd2_ok(ga, go, gb, v1.v(), v2.v(), x, y, gc, gs, n, gcu, gsu);
    let w2 = choose|w: Fl| #![trigger w.v()] w.v() >= 0real && w.v() * w.v() == gcu * gcu + gsu * gsu && csu.c.v() * w.v() == gcu && csu.s.v() * w.v() == gsu; let n2 = w2.v();
    assert(n2 == 1real) by (nonlinear_arith) requires n2 >= 0real, n2 * n2 == 1real;
    let (p, q) = (csu.c.v(), csu.s.v()); assert(p * n2 == p && q * n2 == q) by (nonlinear_arith) requires n2 == 1real;
    assert(csu.c.v() == gcu && csu.s.v() == gsu);
  }
@bindtail res
@ghost end
  proof { if !did {
    let (x, y) = (ga * go, v1.v() * v1.v() - ga * ga); let w = unit_along(x, y); gc = w.0; gs = w.1; gcu = gb * gc / v2.v(); gsu = (ga * gs - go * gc) / v2.v();
    div_cancel(gb * gc, v2.v()); div_cancel(ga * gs - go * gc, v2.v());
    svd2_ok(ga, go, gb, v1.v(), v2.v(), x, y, gc, gs, w.2, gcu, gsu);
  }
    assert(svd2(ga, go, gb, v1.v(), v2.v(), gcu, gsu, gc, gs)); 
  assert(svd2(m11.v(), m12.v(), m22.v(), res.0.v(), res.1.v(), gcu, gsu, gc, gs) && rot_is(res.2, gcu, gsu) && rot_is(res.3, gc, gs)); }
F}
fn svd::SVDInto[ArrayBase]::svd_into
@ret r
@spec
  ensures r is Ok <==> self.m().nr >= 1 && self.m().nc >= 1, r matches Err(e) ==> e == LinalgError::EmptyMatrix,
    r matches Ok(p) ==> svd_shape(self.m(), p.0, p.1.m(), p.2, calc_u, calc_vt),
F:  r matches Ok(p) ==> has_svd(self.m(), p.0, p.1.m(), p.2),
fn svd::SVD[ArrayBase]::svd
@ret r
@spec
  ensures r is Ok <==> self.m().nr >= 1 && self.m().nc >= 1, r matches Err(e) ==> e == LinalgError::EmptyMatrix,
    r matches Ok(p) ==> svd_shape(self.m(), p.0, p.1.m(), p.2, calc_u, calc_vt),
F:  r matches Ok(p) ==> has_svd(self.m(), p.0, p.1.m(), p.2),
fn svd::trait SvdSort
@item
  spec fn sort_ok(&self) -> bool;
fn svd::trait SvdSort::sort_svd
@spec
  requires self.sort_ok()
fn svd::trait SvdSort::sort_svd_asc
@spec
  requires self.sort_ok()
fn svd::trait SvdSort::sort_svd_desc
@spec
  requires self.sort_ok()
fn svd::SvdSort[tuple3]
@item
  open spec fn sort_ok(&self) -> bool { nan_free(self.1.m()) && (self.0 matches Some(u) ==> u.m().nc == self.1.m().nr) && (self.2 matches Some(v) ==> v.m().nr == self.1.m().nr) }
fn svd::SvdSort[tuple3]::sort_svd
@ret r
@spec
  ensures svd_sorted(self.0, self.1.m(), self.2, r.0, r.1.m(), r.2, order),
@closure 0 |a: &(usize, Fl), b: &(usize, Fl)| -> (o: core::cmp::Ordering)
S: requires !nanv(a.1.v()), !nanv(b.1.v()),
  ensures o == cmpv(b.1.v(), a.1.v()),
@closure 1 |a: &(usize, Fl), b: &(usize, Fl)| -> (o: core::cmp::Ordering)
S: requires !nanv(a.1.v()), !nanv(b.1.v()),
  ensures o == cmpv(a.1.v(), b.1.v()),
@closure 2 |arr: &Array2<Fl>, ax: Axis, values_idx: &Vec<(usize, Fl)>| -> (z: Array2<Fl>)
  requires ax.0 < 2, values_idx@.len() == (if ax.0 == 0 { arr.m().nr } else { arr.m().nc }), forall|k: int| 0 <= k < values_idx@.len() ==> (#[trigger] values_idx@[k]).0 < values_idx@.len(),
  ensures shape(z.m(), arr.m()), moved(z.m(), arr.m(), values_idx@, ax.0 == 0),
@closure 3 |u: Array2<Fl>| -> (z: Array2<Fl>)
  requires u.m().nc == nn,
  ensures shape(z.m(), u.m()), moved(z.m(), u.m(), x1, false),
@closure 4 |vt: Array2<Fl>| -> (z: Array2<Fl>)
  requires vt.m().nr == nn,
  ensures shape(z.m(), vt.m()), moved(z.m(), vt.m(), x1, true),
@ghost start
  let ghost s0 = self.1.m(); let ghost nn = s0.nr;
@ghost after `letmutvalue_idx`
  let ghost x0 = value_idx@;
  proof { assert forall|k: int| 0 <= k < nn implies (#[trigger] x0[k]).0 == k && x0[k].1.v() == s0.at(k, 0) by { } }
@ghost before `letapply_ordering`
  let ghost x1 = value_idx@;
  let ghost p = choose|p: Seq<int>| is_perm(p, x0.len() as int) && forall|i: int| 0 <= i < x0.len() ==> #[trigger] x1[i] == x0[p[i]];
  proof {
    assert(is_perm(p, x0.len() as int) && forall|i: int| 0 <= i < x0.len() ==> #[trigger] x1[i] == x0[p[i]]);
    assert forall|i: int, j: int| 0 <= i < j < x1.len() implies (if order is Largest { ordv(#[trigger] x1[i].1.v()) >= ordv(#[trigger] x1[j].1.v()) } else { ordv(x1[i].1.v()) <= ordv(x1[j].1.v()) }) by { }
    assert forall|k: int| 0 <= k < nn implies (#[trigger] x1[k]).0 == p[k] && x1[k].1.v() == s0.at(p[k], 0) && 0 <= p[k] < nn by { }
  }
@ghost end
  proof {
    assert forall|i: int| 0 <= i < nn implies #[trigger] s.m().at(i, 0) == x1[i].1.v() && s.m().at(i, 0) == s0.at(p[i], 0) by { assert(x1[i].1.v() == s0.at(p[i], 0)); }
    assert(taken(s.m(), s0, p));
    if u is Some { let (a, b) = (u->0.m(), self.0->0.m()); assert forall|i: int, c: int| 0 <= i < p.len() && 0 <= c < b.nr implies #[trigger] tr(a).at(i, c) == tr(b).at(p[i], c) by { assert(a.at(c, i) == b.at(c, x1[i].0 as int)); } assert(taken(tr(a), tr(b), p)); }
    if vt is Some { let (a, b) = (vt->0.m(), self.2->0.m()); assert forall|i: int, c: int| 0 <= i < p.len() && 0 <= c < b.nc implies #[trigger] a.at(i, c) == b.at(p[i], c) by { assert(x1[i].0 == p[i]); } assert(taken(a, b, p)); }
  }
@loop 0
  shape(out.m(), arr.m()), it_0.len() == values_idx@.len(), forall|k: int| 0 <= k < it_0.len() ==> (#[trigger] it_0.sq()[k]).0 == k && *it_0.sq()[k].1 == values_idx@[k],
  forall|r: int, c: int| ax.0 == 1 && 0 <= r < arr.m().nr && 0 <= c < it_0.pos() ==> #[trigger] out.m().at(r, c) == arr.m().at(r, values_idx@[c].0 as int),
  forall|r: int, c: int| ax.0 == 0 && 0 <= r < it_0.pos() && 0 <= c < arr.m().nc ==> #[trigger] out.m().at(r, c) == arr.m().at(values_idx@[r].0 as int, c),
@loop 1
  it_1.len() == nn, forall|k: int| 0 <= k < nn ==> *(#[trigger] it_1.sq()[k]).1 == value_idx@[k],
  forall|k: int| 0 <= k < it_1.pos() ==> *final((#[trigger] it_1.sq()[k]).0) == value_idx@[k].1,
fn svd::SvdSort[tuple3]::sort_svd_asc
@ret r
@spec
  ensures svd_sorted(self.0, self.1.m(), self.2, r.0, r.1.m(), r.2, Order::Smallest),
fn svd::SvdSort[tuple3]::sort_svd_desc
@ret r
@spec
  ensures svd_sorted(self.0, self.1.m(), self.2, r.0, r.1.m(), r.2, Order::Largest),
