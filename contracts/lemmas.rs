// Lemmas over the ghost model.
use vstd::prelude::*;
use crate::pre::*;
use crate::LinalgError;
verus! {
pub open spec fn not_square(m: M) -> LinalgError { LinalgError::NotSquare { rows: m.nr as usize, cols: m.nc as usize } }
pub open spec fn wrong_rows(e: int, a: int) -> LinalgError { LinalgError::WrongRows { expected: e as usize, actual: a as usize } }

pub open spec fn is_up(u: crate::triangular::UPLO) -> bool { u == crate::triangular::UPLO::Upper }
pub proof fn div_cancel(b: real, d: real) requires d != 0real ensures (b / d) * d == b, d * (b / d) == b { assert((b / d) * d == b) by (nonlinear_arith) requires d != 0real; }
pub proof fn dot_ext(x: V, y: V, x2: V, y2: V, lo: int, hi: int)
    requires forall|k: int| lo <= k < hi ==> #[trigger] x(k) == x2(k) && y(k) == y2(k)
    ensures dot(x, y, lo, hi) == dot(x2, y2, lo, hi) decreases hi - lo
{ if lo < hi { assert(x(hi - 1) == x2(hi - 1)); assert forall|k: int| lo <= k < hi - 1 implies #[trigger] x(k) == x2(k) && y(k) == y2(k) by { assert(x(k) == x2(k)); } dot_ext(x, y, x2, y2, lo, hi - 1); } }
pub proof fn dot_split(x: V, y: V, lo: int, mid: int, hi: int) requires lo <= mid <= hi
    ensures dot(x, y, lo, hi) == dot(x, y, lo, mid) + dot(x, y, mid, hi) decreases hi - mid
{ if mid < hi { dot_split(x, y, lo, mid, hi - 1); } }
pub proof fn dot_lo(x: V, y: V, lo: int, hi: int) requires lo < hi
    ensures dot(x, y, lo, hi) == x(lo) * y(lo) + dot(x, y, lo + 1, hi)
{ dot_split(x, y, lo, lo + 1, hi); assert(dot(x, y, lo, lo + 1) == dot(x, y, lo, lo) + x(lo) * y(lo)); }
pub proof fn dot_zero(x: V, y: V, lo: int, hi: int) requires forall|k: int| lo <= k < hi ==> #[trigger] x(k) == 0real || y(k) == 0real
    ensures dot(x, y, lo, hi) == 0real decreases hi - lo
{ if lo < hi { dot_zero(x, y, lo, hi - 1); assert(x(hi - 1) == 0real || y(hi - 1) == 0real); let (a, b) = (x(hi - 1), y(hi - 1)); assert(a * b == 0real) by (nonlinear_arith) requires a == 0real || b == 0real; } }
pub proof fn dot_comm(x: V, y: V, lo: int, hi: int) ensures dot(x, y, lo, hi) == dot(y, x, lo, hi) decreases hi - lo
{ if lo < hi { dot_comm(x, y, lo, hi - 1); let (a, b) = (x(hi - 1), y(hi - 1)); assert(a * b == b * a) by (nonlinear_arith); } }
/// dot(x + c z, y) = dot(x, y) + c dot(z, y)
pub proof fn dot_axpy(w: V, x: V, c: real, z: V, y: V, lo: int, hi: int)
    requires forall|k: int| lo <= k < hi ==> #[trigger] w(k) == x(k) + c * z(k)
    ensures dot(w, y, lo, hi) == dot(x, y, lo, hi) + c * dot(z, y, lo, hi) decreases hi - lo
{
    if lo < hi {
        dot_axpy(w, x, c, z, y, lo, hi - 1);
        let k = hi - 1;
        assert(w(k) == x(k) + c * z(k));
        let (a, b, d, s) = (x(k), z(k), y(k), dot(z, y, lo, hi - 1));
        assert((a + c * b) * d == a * d + c * (b * d)) by (nonlinear_arith);
        assert(c * (s + b * d) == c * s + c * (b * d)) by (nonlinear_arith);
    } else { assert(c * 0real == 0real) by (nonlinear_arith); }
}

// ---- triangular systems ---------------------------------------------------------------------------
/// the diagonal function returns d
pub open spec fn diag_is<G: Fn(usize) -> Fl>(g: G, n: int, d: V) -> bool {
    forall|i: usize, x: Fl| i < n && #[trigger] g.ensures((i,), x) ==> x.v() == d(i as int)
}
pub open spec fn diag_ok<G: Fn(usize) -> Fl>(g: G, n: int) -> bool { forall|i: usize| i < n ==> #[trigger] g.requires((i,)) }
pub open spec fn nonzero(d: V, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] d(i) != 0real }
/// x solves the triangle of a (diagonal replaced by d) for rows lo..hi of column k
pub open spec fn tri_row(a: M, d: V, up: bool, x: M, r: int, k: int) -> real { d(r) * x.at(r, k) + if up { dot(row(a, r), col(x, k), r + 1, a.nr) } else { dot(row(a, r), col(x, k), 0, r) } }
pub open spec fn tri_sol(a: M, d: V, up: bool, x: M, b: M) -> bool { shape(x, b) && forall|r: int, k: int| 0 <= r < a.nr && 0 <= k < b.nc ==> #[trigger] tri_row(a, d, up, x, r, k) == b.at(r, k) }
pub open spec fn dg(a: M) -> V { |i: int| a.at(i, i) }
pub open spec fn regular(a: M) -> bool { nonzero(dg(a), a.nr) }
pub proof fn tri_row_mm(a: M, up: bool, x: M, r: int, k: int) requires sq(a), x.nr == a.nr, 0 <= r < a.nr
    ensures mm(trim(a, up), x).at(r, k) == tri_row(a, dg(a), up, x, r, k)
{
    let t = trim(a, up); let n = a.nr; let (u, y) = (row(t, r), col(x, k));
    dot_split(u, y, 0, r, n); dot_lo(u, y, r, n);
    if up { dot_zero(u, y, 0, r); dot_ext(u, y, row(a, r), y, r + 1, n); } else { dot_zero(u, y, r + 1, n); dot_ext(u, y, row(a, r), y, 0, r); }
}
pub proof fn tri_sol_mm(a: M, up: bool, x: M, b: M) requires sq(a), a.nr == b.nr, tri_sol(a, dg(a), up, x, b)
    ensures same(mm(trim(a, up), x), b)
{
    assert forall|r: int, k: int| 0 <= r < b.nr && 0 <= k < b.nc implies #[trigger] mm(trim(a, up), x).at(r, k) == b.at(r, k) by { tri_row_mm(a, up, x, r, k); assert(tri_row(a, dg(a), up, x, r, k) == b.at(r, k)); }
}

// ---- sums over two indices --------------------------------------------------------------------------
/// sum_r x_r (sum_i M_ri y_i) = sum_i (sum_r x_r M_ri) y_i
pub proof fn dot_assoc(x: V, m: M, y: V, n: int, p: int) requires 0 <= n
    ensures dot(x, |r: int| dot(row(m, r), y, 0, p), 0, n) == dot(|i: int| dot(x, col(m, i), 0, n), y, 0, p) decreases n
{
    let g = |r: int| dot(row(m, r), y, 0, p);
    let h = |i: int| dot(x, col(m, i), 0, n);
    if n == 0 { dot_zero(h, y, 0, p); } else {
        dot_assoc(x, m, y, n - 1, p);
        let h1 = |i: int| dot(x, col(m, i), 0, n - 1);
        let w = row(m, n - 1);
        assert forall|i: int| 0 <= i < p implies #[trigger] h(i) == h1(i) + x(n - 1) * w(i) by {}
        dot_axpy(h, h1, x(n - 1), w, y, 0, p);
    }
}
pub proof fn dot_ext1(x: V, y: V, x2: V, y2: V, lo: int, hi: int)
    requires forall|k: int| #![trigger x(k)] #![trigger y(k)] lo <= k < hi ==> x(k) == x2(k) && y(k) == y2(k)
    ensures dot(x, y, lo, hi) == dot(x2, y2, lo, hi)
{ dot_ext(x, y, x2, y2, lo, hi); }
pub proof fn sqr_pos(a: real) ensures a * a >= 0real, a != 0real ==> a * a > 0real { assert(a * a >= 0real) by (nonlinear_arith); if a != 0real { assert(a * a > 0real) by (nonlinear_arith) requires a != 0real; } }
pub proof fn dot_self(x: V, lo: int, hi: int) ensures dot(x, x, lo, hi) >= 0real decreases hi - lo
{ if lo < hi { dot_self(x, lo, hi - 1); sqr_pos(x(hi - 1)); } }
pub proof fn dot_self_pos(x: V, lo: int, hi: int, p: int) requires lo <= p < hi, x(p) != 0real ensures dot(x, x, lo, hi) > 0real decreases hi - lo
{ sqr_pos(x(hi - 1)); dot_self(x, lo, hi - 1); if p < hi - 1 { dot_self_pos(x, lo, hi - 1, p); } }

// ---- positive definiteness --------------------------------------------------------------------------
/// the symmetric matrix described by the lower triangle
pub open spec fn symlow(m: M) -> M { M { nr: m.nr, nc: m.nc, f: |i: int, j: int| if i >= j { m.at(i, j) } else { m.at(j, i) } } }
pub open spec fn mv(a: M, x: V) -> V { |r: int| dot(row(a, r), x, 0, a.nc) }
pub open spec fn quad(a: M, x: V) -> real { dot(x, mv(a, x), 0, a.nr) }
pub open spec fn posdef(a: M) -> bool { forall|x: V, p: int| 0 <= p < a.nr && #[trigger] x(p) != 0real ==> #[trigger] quad(symlow(a), x) > 0real }
/// entry (r, c), c <= r, of l l^T
pub open spec fn llt(l: M, r: int, c: int) -> real { dot(row(l, r), row(l, c), 0, c + 1) }
pub open spec fn is_chol(l: M, a: M) -> bool {
    shape(l, a) && (forall|r: int, c: int| 0 <= c <= r < a.nr ==> #[trigger] llt(l, r, c) == a.at(r, c)) && (forall|c: int| 0 <= c < a.nr ==> #[trigger] l.at(c, c) > 0real)
}
/// quad of a matrix that is l l^T plus d at (j, j)
pub proof fn quad_llt(a: M, l: M, x: V, n: int, j: int, d: real)
    requires sq(a), 0 <= n <= a.nr, l.nc == n, forall|r: int| n <= r < a.nr ==> #[trigger] x(r) == 0real,
        forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] a.at(r, c) == dot(row(l, r), row(l, c), 0, n) + if r == j && c == j { d } else { 0real },
    ensures ({ let y = |i: int| dot(x, col(l, i), 0, n); quad(a, x) == dot(y, y, 0, n) + if 0 <= j < n { d * (x(j) * x(j)) } else { 0real } })
{
    let y = |i: int| dot(x, col(l, i), 0, n);
    let ax = mv(a, x);
    dot_split(x, ax, 0, n, a.nr); dot_zero(x, ax, n, a.nr);
    let ly = |r: int| dot(row(l, r), y, 0, n);
    let e = |r: int| if r == j { d * x(j) } else { 0real };
    assert forall|r: int| 0 <= r < n implies #[trigger] ax(r) == ly(r) + e(r) by {
        let ar = row(a, r);
        dot_split(ar, x, 0, n, a.nr); dot_zero(ar, x, n, a.nr);
        let lr = |c: int| dot(row(l, r), row(l, c), 0, n);
        let ej = |c: int| if c == j && r == j { d } else { 0real };
        assert forall|c: int| 0 <= c < n implies #[trigger] ar(c) == lr(c) + 1real * ej(c) by { assert(a.at(r, c) == dot(row(l, r), row(l, c), 0, n) + if r == j && c == j { d } else { 0real }); }
        dot_axpy(ar, lr, 1real, ej, x, 0, n);
        if 0 <= j < n { unit_sum(ej, x, j, n); } else { dot_zero(ej, x, 0, n); }
        assert(dot(ej, x, 0, n) == e(r)) by { if r != j || j < 0 || j >= n { dot_zero(ej, x, 0, n); } }
        // dot(lr, x) = dot(row l r, y)
        dot_assoc(row(l, r), tr(l), x, n, n);
        let yy = |i: int| dot(row(tr(l), i), x, 0, n);
        assert forall|i: int| 0 <= i < n implies #[trigger] yy(i) == y(i) by { dot_comm(x, col(l, i), 0, n); dot_ext(row(tr(l), i), x, col(l, i), x, 0, n); }
        dot_ext1(row(l, r), yy, row(l, r), y, 0, n);
        let zz = |c: int| dot(row(l, r), col(tr(l), c), 0, n);
        assert forall|c: int| 0 <= c < n implies #[trigger] zz(c) == lr(c) by { dot_ext(row(l, r), col(tr(l), c), row(l, r), row(l, c), 0, n); }
        dot_ext1(zz, x, lr, x, 0, n);
    }
    dot_comm(x, ax, 0, n);
    assert forall|r: int| 0 <= r < n implies #[trigger] ax(r) == ly(r) + 1real * e(r) by {}
    dot_axpy(ax, ly, 1real, e, x, 0, n);
    dot_comm(ly, x, 0, n);
    dot_assoc(x, l, y, n, n);
    if 0 <= j < n { unit_sum(e, x, j, n); let (u, v) = (d, x(j)); assert((u * v) * v == u * (v * v)) by (nonlinear_arith); } else { dot_zero(e, x, 0, n); }
}
/// a vector with one non-zero entry
pub proof fn unit_sum(e: V, x: V, j: int, n: int) requires 0 <= j < n, forall|k: int| 0 <= k < n && k != j ==> #[trigger] e(k) == 0real
    ensures dot(e, x, 0, n) == e(j) * x(j)
{ dot_split(e, x, 0, j, n); dot_lo(e, x, j, n); dot_zero(e, x, 0, j); dot_zero(e, x, j + 1, n); }
/// products of rows of a lower-triangular matrix
pub proof fn llt_full(l: M, r: int, c: int, n: int) requires 0 <= c < n, 0 <= r < n
    ensures dot(row(trim(l, false), r), row(trim(l, false), c), 0, n) == if c <= r { llt(l, r, c) } else { llt(l, c, r) }
{
    let t = trim(l, false);
    dot_comm(row(t, r), row(t, c), 0, n);
    let (hi, lo) = if c <= r { (r, c) } else { (c, r) };
    dot_split(row(t, hi), row(t, lo), 0, lo + 1, n);
    dot_zero(row(t, hi), row(t, lo), lo + 1, n);
    dot_ext(row(t, hi), row(t, lo), row(l, hi), row(l, lo), 0, lo + 1);
}
pub proof fn last_nonzero(x: V, n: int, p: int) -> (q: int) requires 0 <= p < n, x(p) != 0real
    ensures p <= q < n, x(q) != 0real, forall|k: int| q < k < n ==> #[trigger] x(k) == 0real decreases n
{ if x(n - 1) != 0real { n - 1 } else { last_nonzero(x, n - 1, p) } }
pub proof fn chol_posdef(l: M, a: M) requires sq(a), is_chol(l, a) ensures posdef(a)
{
    let t = trim(l, false); let n = a.nr; let s = symlow(a);
    assert forall|x: V, p: int| 0 <= p < a.nr && #[trigger] x(p) != 0real implies #[trigger] quad(s, x) > 0real by {
        assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] s.at(r, c) == dot(row(t, r), row(t, c), 0, n) + if r == -1 && c == -1 { 0real } else { 0real } by {
            llt_full(l, r, c, n);
            if c <= r { assert(llt(l, r, c) == a.at(r, c)); } else { assert(llt(l, c, r) == a.at(c, r)); }
        }
        quad_llt(s, t, x, n, -1, 0real);
        let y = |i: int| dot(x, col(t, i), 0, n);
        let q = last_nonzero(x, n, p);
        let cq = col(t, q);
        dot_split(x, cq, 0, q, n); dot_lo(x, cq, q, n); dot_zero(x, cq, 0, q); dot_zero(x, cq, q + 1, n);
        assert(l.at(q, q) > 0real);
        let (u, v) = (x(q), l.at(q, q));
        assert(u * v != 0real) by (nonlinear_arith) requires u != 0real, v != 0real;
        dot_self_pos(y, 0, n, q);
    }
}
/// back substitution: sum_{r>=i} l_ri z_r = -w_i for i in lo..j
pub open spec fn backs(l: M, w: V, lo: int, j: int) -> V decreases j - lo {
    if lo >= j { |r: int| 0real } else { let z = backs(l, w, lo + 1, j); |r: int| if r == lo { (-w(lo) - dot(col(l, lo), z, lo + 1, j)) / l.at(lo, lo) } else { z(r) } }
}
pub proof fn backs_ok(l: M, w: V, lo: int, j: int) requires 0 <= lo, forall|c: int| 0 <= c < j ==> #[trigger] l.at(c, c) > 0real
    ensures forall|i: int| lo <= i < j ==> #[trigger] dot(col(l, i), backs(l, w, lo, j), i, j) == -w(i) decreases j - lo
{
    if lo < j {
        backs_ok(l, w, lo + 1, j);
        let (z, z1) = (backs(l, w, lo, j), backs(l, w, lo + 1, j));
        assert forall|i: int| lo <= i < j implies #[trigger] dot(col(l, i), z, i, j) == -w(i) by {
            if i == lo {
                dot_lo(col(l, i), z, i, j); dot_ext(col(l, i), z, col(l, i), z1, i + 1, j);
                assert(l.at(lo, lo) > 0real);
                div_cancel(-w(lo) - dot(col(l, lo), z1, lo + 1, j), l.at(lo, lo));
            } else { assert(dot(col(l, i), z1, i, j) == -w(i)); dot_ext(col(l, i), z, col(l, i), z1, i, j); }
        }
    }
}
/// a non-positive pivot: not positive definite
pub proof fn not_posdef(l: M, a: M, j: int)
    requires sq(a), shape(l, a), 0 <= j < a.nr, forall|r: int, c: int| 0 <= c <= r < a.nr && r < j ==> #[trigger] llt(l, r, c) == a.at(r, c),
        forall|c: int| 0 <= c < j ==> #[trigger] llt(l, j, c) == a.at(j, c), forall|c: int| 0 <= c < j ==> #[trigger] l.at(c, c) > 0real,
        a.at(j, j) - dot(row(l, j), row(l, j), 0, j) <= 0real,
    ensures !posdef(a)
{
    let n = j + 1; let d = a.at(j, j) - dot(row(l, j), row(l, j), 0, j); let s = symlow(a);
    let t0 = trim(l, false);
    let t = M { nr: n, nc: n, f: |r: int, c: int| if r == j && c == j { 0real } else { t0.at(r, c) } };
    let w = row(l, j);
    let z = backs(t0, w, 0, j);
    backs_ok(t0, w, 0, j);
    let x = |r: int| if r < j { z(r) } else if r == j { 1real } else { 0real };
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] s.at(r, c) == dot(row(t, r), row(t, c), 0, n) + if r == j && c == j { d } else { 0real } by {
        llt_full(l, r, c, n);
        let p = row(t, r)(j) * row(t, c)(j);
        assert(p == 0real) by (nonlinear_arith) requires row(t, r)(j) == 0real, p == row(t, r)(j) * row(t, c)(j);
        dot_ext(row(t, r), row(t, c), row(t0, r), row(t0, c), 0, j);
        let q = row(t0, r)(j) * row(t0, c)(j);
        if r < j || c < j {
            assert(q == 0real) by (nonlinear_arith) requires row(t0, r)(j) == 0real || row(t0, c)(j) == 0real, q == row(t0, r)(j) * row(t0, c)(j);
            if c <= r { assert(llt(l, r, c) == a.at(r, c)); } else { assert(llt(l, c, r) == a.at(c, r)); }
        } else { dot_ext(row(t0, j), row(t0, j), row(l, j), row(l, j), 0, j); }
    }
    quad_llt(s, t, x, n, j, d);
    let y = |i: int| dot(x, col(t, i), 0, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] y(i) == 0real by {
        if i == j { dot_zero(x, col(t, i), 0, n); assert(y(i) == 0real); } else {
            let ci = col(t, i);
            dot_split(x, ci, 0, i, j); dot_zero(x, ci, 0, i);
            dot_comm(x, ci, i, j); dot_ext(ci, x, col(t0, i), z, i, j);
            assert(dot(col(t0, i), z, i, j) == -w(i));
            assert(dot(x, ci, 0, n) == dot(x, ci, 0, j) + x(j) * ci(j));
            assert(ci(j) == w(i) && x(j) == 1real);
            assert(dot(x, ci, 0, i) == 0real);
            assert(dot(x, ci, i, j) == -w(i));
            assert(x(j) * ci(j) == ci(j)) by (nonlinear_arith) requires x(j) == 1real;
            assert(dot(x, ci, 0, n) == 0real);
            assert(y(i) == dot(x, col(t, i), 0, n));
        }
    }
    dot_zero(y, y, 0, n);
    assert(x(j) == 1real);
    assert(d * (x(j) * x(j)) == d) by (nonlinear_arith) requires x(j) == 1real;
    assert(quad(s, x) == d);
}
/// the factor depends on the lower triangle only
pub proof fn chol_unique(l: M, a: M, k: M, b: M) requires sq(a), is_chol(l, a), is_chol(k, b), shape(a, b), forall|r: int, c: int| 0 <= c <= r < a.nr ==> #[trigger] a.at(r, c) == b.at(r, c)
    ensures forall|r: int, c: int| 0 <= c <= r < a.nr ==> #[trigger] l.at(r, c) == k.at(r, c)
{ assert forall|r: int, c: int| 0 <= c <= r < a.nr implies #[trigger] l.at(r, c) == k.at(r, c) by { chol_unique_at(l, a, k, b, r, c); } }
proof fn chol_unique_at(l: M, a: M, k: M, b: M, r: int, c: int) requires sq(a), is_chol(l, a), is_chol(k, b), shape(a, b), forall|r: int, c: int| 0 <= c <= r < a.nr ==> #[trigger] a.at(r, c) == b.at(r, c), 0 <= c <= r < a.nr
    ensures l.at(r, c) == k.at(r, c) decreases r, c
{
    assert forall|i: int| 0 <= i < c implies #[trigger] row(l, r)(i) == row(k, r)(i) && row(l, c)(i) == row(k, c)(i) by { chol_unique_at(l, a, k, b, r, i); if c < r { chol_unique_at(l, a, k, b, c, i); } }
    dot_ext(row(l, r), row(l, c), row(k, r), row(k, c), 0, c);
    assert(llt(l, r, c) == a.at(r, c) && llt(k, r, c) == b.at(r, c) && a.at(r, c) == b.at(r, c));
    assert(l.at(c, c) > 0real && k.at(c, c) > 0real);
    if c < r { chol_unique_at(l, a, k, b, c, c); let (x, y, z) = (l.at(r, c), k.at(r, c), l.at(c, c)); assert(x == y) by (nonlinear_arith) requires x * z == y * z, z > 0real; }
    else { let (x, y) = (l.at(c, c), k.at(c, c)); assert(x == y) by (nonlinear_arith) requires x * x == y * y, x > 0real, y > 0real; }
}

pub open spec fn same_upper(l: M, a: M) -> bool { forall|r: int, c: int| 0 <= r < c < a.nc && r < a.nr ==> #[trigger] l.at(r, c) == a.at(r, c) }
/// l lower triangular with positive diagonal and l l^T the symmetric matrix described by a's lower triangle
pub open spec fn clean_chol(l: M, a: M) -> bool { is_chol(l, a) && is_tri(l, false) && same(mm(l, tr(l)), symlow(a)) }
pub proof fn chol_clean(c: M, l: M, a: M) requires sq(a), is_chol(c, a), same(l, trim(c, false)) ensures clean_chol(l, a)
{
    let n = a.nr;
    assert forall|r: int, k: int| 0 <= k <= r < n implies #[trigger] llt(l, r, k) == a.at(r, k) by { dot_ext(row(l, r), row(l, k), row(c, r), row(c, k), 0, k + 1); assert(llt(c, r, k) == a.at(r, k)); }
    assert forall|k: int| 0 <= k < n implies #[trigger] l.at(k, k) > 0real by { assert(c.at(k, k) > 0real); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] mm(l, tr(l)).at(i, j) == symlow(a).at(i, j) by {
        let t = trim(l, false);
        llt_full(l, i, j, n);
        dot_ext(row(l, i), col(tr(l), j), row(t, i), row(t, j), 0, n);
        if j <= i { assert(llt(l, i, j) == a.at(i, j)); } else { assert(llt(l, j, i) == a.at(j, i)); }
    }
}

// ---- matrix products ------------------------------------------------------------------------------------
pub proof fn mm_ext(a: M, b: M, a2: M, b2: M) requires same(a, a2), same(b, b2), a.nc == b.nr ensures same(mm(a, b), mm(a2, b2))
{ assert forall|i: int, j: int| 0 <= i < a.nr && 0 <= j < b.nc implies #[trigger] mm(a, b).at(i, j) == mm(a2, b2).at(i, j) by {
    assert forall|k: int| 0 <= k < a.nc implies #[trigger] row(a, i)(k) == row(a2, i)(k) && col(b, j)(k) == col(b2, j)(k) by { assert(a.at(i, k) == a2.at(i, k)); assert(b.at(k, j) == b2.at(k, j)); }
    dot_ext(row(a, i), col(b, j), row(a2, i), col(b2, j), 0, a.nc); } }
pub proof fn mm_assoc(a: M, b: M, c: M) requires a.nc == b.nr, b.nc == c.nr, a.nc >= 0 ensures same(mm(mm(a, b), c), mm(a, mm(b, c)))
{ assert forall|i: int, j: int| 0 <= i < a.nr && 0 <= j < c.nc implies #[trigger] mm(mm(a, b), c).at(i, j) == mm(a, mm(b, c)).at(i, j) by {
    dot_assoc(row(a, i), b, col(c, j), a.nc, b.nc);
    let h = |k: int| dot(row(a, i), col(b, k), 0, a.nc);
    let g = |r: int| dot(row(b, r), col(c, j), 0, b.nc);
    dot_ext1(row(mm(a, b), i), col(c, j), h, col(c, j), 0, b.nc);
    dot_ext1(row(a, i), col(mm(b, c), j), row(a, i), g, 0, a.nc); } }
/// (a b)^T = b^T a^T
pub proof fn mm_tr(a: M, b: M) requires a.nc == b.nr ensures same(tr(mm(a, b)), mm(tr(b), tr(a)))
{ assert forall|i: int, j: int| 0 <= i < b.nc && 0 <= j < a.nr implies #[trigger] tr(mm(a, b)).at(i, j) == mm(tr(b), tr(a)).at(i, j) by {
    dot_comm(row(a, j), col(b, i), 0, a.nc); dot_ext1(col(b, i), row(a, j), row(tr(b), i), col(tr(a), j), 0, a.nc); } }
pub proof fn mm_ident_l(a: M, n: int) requires n == a.nr ensures same(mm(ident(n, n), a), a)
{ assert forall|i: int, j: int| 0 <= i < a.nr && 0 <= j < a.nc implies #[trigger] mm(ident(n, n), a).at(i, j) == a.at(i, j) by { unit_sum(row(ident(n, n), i), col(a, j), i, n); } }
pub proof fn mm_ident_r(a: M, n: int) requires n == a.nc ensures same(mm(a, ident(n, n)), a)
{ assert forall|i: int, j: int| 0 <= i < a.nr && 0 <= j < a.nc implies #[trigger] mm(a, ident(n, n)).at(i, j) == a.at(i, j) by { dot_comm(row(a, i), col(ident(n, n), j), 0, n); unit_sum(col(ident(n, n), j), row(a, i), j, n); } }
pub proof fn same_trans(a: M, b: M, c: M) requires same(a, b), same(b, c) ensures same(a, c)
{ assert forall|i: int, j: int| 0 <= i < a.nr && 0 <= j < a.nc implies #[trigger] a.at(i, j) == c.at(i, j) by { assert(a.at(i, j) == b.at(i, j)); } }
pub proof fn same_sym(a: M, b: M) requires same(a, b) ensures same(b, a)
{ assert forall|i: int, j: int| 0 <= i < b.nr && 0 <= j < b.nc implies #[trigger] b.at(i, j) == a.at(i, j) by { assert(a.at(i, j) == b.at(i, j)); } }
pub proof fn same_tr(a: M, b: M) requires same(a, b) ensures same(tr(a), tr(b))
{ assert forall|i: int, j: int| 0 <= i < a.nc && 0 <= j < a.nr implies #[trigger] tr(a).at(i, j) == tr(b).at(i, j) by { assert(a.at(j, i) == b.at(j, i)); } }
/// solving with the factor and its transpose solves the system
pub proof fn chol_solve(c: M, a: M, y: M, x: M, b: M)
    requires sq(a), is_chol(c, a), a.nr >= 0, b.nr == a.nr, shape(x, b), same(mm(trim(c, false), y), b), shape(y, b), same(mm(trim(tr(c), true), x), y)
    ensures same(mm(symlow(a), x), b)
{
    let t = trim(c, false); let u = trim(tr(c), true);
    chol_clean(c, t, a);
    assert(same(tr(t), u));
    mm_ext(tr(t), x, u, x);
    same_trans(mm(tr(t), x), mm(u, x), y);
    mm_ext(t, mm(tr(t), x), t, y);
    mm_assoc(t, tr(t), x);
    mm_ext(mm(t, tr(t)), x, symlow(a), x);
    same_sym(mm(mm(t, tr(t)), x), mm(symlow(a), x));
    same_trans(mm(symlow(a), x), mm(mm(t, tr(t)), x), mm(t, mm(tr(t), x)));
    same_trans(mm(symlow(a), x), mm(t, mm(tr(t), x)), mm(t, y));
    same_trans(mm(symlow(a), x), mm(t, y), b);
}
pub open spec fn is_inv(x: M, a: M) -> bool { same(mm(a, x), ident(a.nr, a.nr)) && same(mm(x, a), ident(a.nr, a.nr)) }
/// a right inverse of a symmetric matrix is its inverse
pub proof fn sym_inv(a: M, x: M) requires sq(a), a.nr >= 0, same(tr(a), a), shape(x, a), same(mm(a, x), ident(a.nr, a.nr)) ensures is_inv(x, a)
{
    let n = a.nr; let i = ident(n, n); let z = tr(x);
    // z a = i
    mm_tr(a, x); same_tr(mm(a, x), i); mm_ext(z, tr(a), z, a);
    same_sym(mm(z, tr(a)), mm(z, a)); same_sym(tr(mm(a, x)), mm(z, tr(a)));
    assert(same(tr(i), i));
    same_trans(mm(z, a), mm(z, tr(a)), tr(mm(a, x))); same_trans(mm(z, a), tr(mm(a, x)), tr(i)); same_trans(mm(z, a), tr(i), i);
    // x = z
    mm_assoc(z, a, x); mm_ext(mm(z, a), x, i, x); mm_ident_l(x, n); mm_ext(z, mm(a, x), z, i); mm_ident_r(z, n);
    same_trans(mm(z, mm(a, x)), mm(z, i), z);
    same_trans(mm(mm(z, a), x), mm(z, mm(a, x)), z);
    same_sym(mm(mm(z, a), x), mm(i, x)); same_trans(mm(i, x), mm(mm(z, a), x), z);
    same_sym(mm(i, x), x); same_trans(x, mm(i, x), z);
    mm_ext(x, a, z, a); same_trans(mm(x, a), mm(z, a), i);
}

// ---- reflections ------------------------------------------------------------------------------------
/// x - 2 (u.x - b) u
pub open spec fn rf(u: V, b: real, x: V, n: int) -> V { |i: int| x(i) + ((dot(u, x, 0, n) - b) * (-2real)) * u(i) }
pub proof fn dot_scale(w: V, c: real, x: V, y: V, lo: int, hi: int) requires forall|k: int| lo <= k < hi ==> #[trigger] w(k) == c * x(k)
    ensures dot(w, y, lo, hi) == c * dot(x, y, lo, hi)
{
    let z = |k: int| 0real;
    dot_axpy(w, z, c, x, y, lo, hi); dot_zero(z, y, lo, hi);
}
pub proof fn dot_shift(x: V, y: V, x2: V, y2: V, o: int, m: int) requires forall|k: int| 0 <= k < m ==> #[trigger] x2(k) == x(o + k) && y2(k) == y(o + k)
    ensures dot(x2, y2, 0, m) == dot(x, y, o, o + m) decreases m
{ if 0 < m { assert(x2(m - 1) == x(o + m - 1)); assert forall|k: int| 0 <= k < m - 1 implies #[trigger] x2(k) == x(o + k) && y2(k) == y(o + k) by { assert(x2(k) == x(o + k)); } dot_shift(x, y, x2, y2, o, m - 1); } }
/// dot(x, w) for w = y + c z
pub proof fn dot_axpy_r(x: V, w: V, y: V, c: real, z: V, lo: int, hi: int)
    requires forall|k: int| lo <= k < hi ==> #[trigger] w(k) == y(k) + c * z(k)
    ensures dot(x, w, lo, hi) == dot(x, y, lo, hi) + c * dot(x, z, lo, hi)
{ dot_axpy(w, y, c, z, x, lo, hi); dot_comm(w, x, lo, hi); dot_comm(y, x, lo, hi); dot_comm(z, x, lo, hi); }
proof fn iso_arith(xy: real, a: real, b: real, uu: real) requires uu == 1real
    ensures (xy + (a * (-2real)) * b) + (b * (-2real)) * (a + (a * (-2real)) * uu) == xy
{
    assert(a * (-2real) * uu == a * (-2real)) by (nonlinear_arith) requires uu == 1real;
    assert((b * (-2real)) * (-a) == 2real * (a * b)) by (nonlinear_arith);
    assert((a * (-2real)) * b == -2real * (a * b)) by (nonlinear_arith);
}
/// reflections about planes through the origin preserve inner products
pub proof fn rf_iso(u: V, x: V, y: V, n: int) requires dot(u, u, 0, n) == 1real
    ensures dot(rf(u, 0real, x, n), rf(u, 0real, y, n), 0, n) == dot(x, y, 0, n)
{
    let (rx, ry) = (rf(u, 0real, x, n), rf(u, 0real, y, n));
    let (a, b) = (dot(u, x, 0, n), dot(u, y, 0, n));
    dot_axpy(rx, x, (a - 0real) * (-2real), u, ry, 0, n);
    dot_axpy_r(x, ry, y, (b - 0real) * (-2real), u, 0, n);
    dot_axpy_r(u, ry, y, (b - 0real) * (-2real), u, 0, n);
    dot_comm(x, u, 0, n);
    iso_arith(dot(x, y, 0, n), b, a, dot(u, u, 0, n));
    let uu = dot(u, u, 0, n);
    let xy = dot(x, y, 0, n);
    assert(dot(rx, ry, 0, n) == (xy + (b * (-2real)) * a) + (a * (-2real)) * (b + (b * (-2real)) * uu));
}
/// reflecting twice is the identity
pub proof fn rf_invol(u: V, b: real, x: V, n: int, i: int) requires dot(u, u, 0, n) == 1real
    ensures rf(u, b, rf(u, b, x, n), n)(i) == x(i)
{
    let rx = rf(u, b, x, n);
    let a = dot(u, x, 0, n);
    let f = (a - b) * (-2real);
    dot_axpy_r(u, rx, x, f, u, 0, n);
    assert(f * dot(u, u, 0, n) == f) by (nonlinear_arith) requires dot(u, u, 0, n) == 1real;
    assert(dot(u, rx, 0, n) - b == -(a - b));
    let (p, q) = (a - b, u(i));
    assert((p * (-2real)) * q + ((-p) * (-2real)) * q == 0real) by (nonlinear_arith);
}
/// the distance of two reflected points
pub proof fn rf_dist(u: V, b: real, x: V, y: V, n: int) requires dot(u, u, 0, n) == 1real
    ensures ({ let d = |i: int| rf(u, b, x, n)(i) - rf(u, b, y, n)(i); let e = |i: int| x(i) - y(i); dot(d, d, 0, n) == dot(e, e, 0, n) })
{
    let d = |i: int| rf(u, b, x, n)(i) - rf(u, b, y, n)(i); let e = |i: int| x(i) - y(i);
    let re = rf(u, 0real, e, n);
    dot_axpy_r(u, e, x, -1real, y, 0, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] d(i) == re(i) by {
        let (p, q, z) = (dot(u, x, 0, n) - b, dot(u, y, 0, n) - b, u(i));
        assert(dot(u, e, 0, n) - 0real == p - q);
        assert((p * (-2real)) * z - (q * (-2real)) * z == ((p - q) * (-2real)) * z) by (nonlinear_arith);
    }
    dot_ext1(d, d, re, re, 0, n);
    rf_iso(u, e, e, n);
}

// ---- norms --------------------------------------------------------------------------------------------
pub open spec fn sum1(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { sum1(s.drop_last()) + rabs(s.last()) } }
pub open spec fn sum2(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { sum2(s.drop_last()) + s.last() * s.last() } }
/// r is the largest absolute value, zero when there is none
pub open spec fn is_max(r: real, s: Seq<real>) -> bool {
    r >= 0real && (forall|k: int| 0 <= k < s.len() ==> rabs(#[trigger] s[k]) <= r) && (r == 0real || exists|k: int| 0 <= k < s.len() && rabs(#[trigger] s[k]) == r)
}
pub open spec fn fold_max(acc: Seq<Fl>, s: Seq<real>, r: Fl) -> bool {
    acc.len() == s.len() + 1 && acc[0].v() == 0real && acc[s.len() as int] == r && forall|k: int| 0 <= k < s.len() ==> acc[k + 1].v() == rmax(rabs(#[trigger] s[k]), acc[k].v())
}
pub proof fn sum1_ok(t: Seq<Fl>, s: Seq<real>) requires t.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] t[k]).v() == rabs(s[k])
    ensures crate::std_shim::seqsum(t) == sum1(s) decreases s.len()
{ if s.len() > 0 { sum1_ok(t.drop_last(), s.drop_last()); assert(t[t.len() - 1].v() == rabs(s.last())); } }
pub proof fn sum2_ok(t: Seq<Fl>, s: Seq<real>) requires t.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] t[k]).v() == s[k] * s[k]
    ensures crate::std_shim::seqsum(t) == sum2(s), sum2(s) >= 0real decreases s.len()
{ if s.len() > 0 { sum2_ok(t.drop_last(), s.drop_last()); assert(t[t.len() - 1].v() == s.last() * s.last()); sqr_pos(s.last()); } }
pub proof fn max_ok(acc: Seq<Fl>, s: Seq<real>, n: int) requires acc.len() == s.len() + 1, 0 <= n <= s.len(), acc[0].v() == 0real,
        forall|k: int| 0 <= k < s.len() ==> acc[k + 1].v() == rmax(rabs(#[trigger] s[k]), acc[k].v()),
    ensures is_max(acc[n].v(), s.subrange(0, n)) decreases n
{
    if n > 0 {
        max_ok(acc, s, n - 1);
        let (t, t1) = (s.subrange(0, n), s.subrange(0, n - 1));
        assert(t[n - 1] == s[n - 1]);
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] t[k] == t1[k] by {}
        assert forall|k: int| 0 <= k < n implies rabs(#[trigger] t[k]) <= acc[n].v() by { if k < n - 1 { assert(t[k] == t1[k]); } }
        if acc[n].v() != 0real {
            if acc[n].v() == rabs(s[n - 1]) { assert(rabs(t[n - 1]) == acc[n].v()); }
            else { let k = choose|k: int| 0 <= k < t1.len() && rabs(#[trigger] t1[k]) == acc[n - 1].v(); assert(t[k] == t1[k]); }
        }
    }
}

// ---- householder transformations ------------------------------------------------------------------------
pub open spec fn eqv(x: V, y: V, lo: int, hi: int) -> bool { forall|i: int| #![trigger x(i)] #![trigger y(i)] lo <= i < hi ==> x(i) == y(i) }
/// s (x - 2 (u.x) u) on rows lo..n, x above
pub open spec fn hh(u: V, s: real, x: V, lo: int, n: int) -> V { |i: int| if lo <= i < n { (x(i) + (dot(u, x, lo, n) * (-2real)) * u(i)) * s } else { x(i) } }
/// a unit vector or zero
pub open spec fn uz(u: V, lo: int, n: int) -> bool { dot(u, u, lo, n) == 1real || forall|i: int| lo <= i < n ==> #[trigger] u(i) == 0real }
pub open spec fn pm1(s: real) -> bool { s == 1real || s == -1real }
pub open spec fn zerov(x: V, lo: int, hi: int) -> bool { forall|i: int| lo <= i < hi ==> #[trigger] x(i) == 0real }
pub proof fn hh_ext(u: V, s: real, x: V, u2: V, x2: V, lo: int, n: int) requires 0 <= lo, eqv(u, u2, lo, n), eqv(x, x2, 0, n)
    ensures eqv(hh(u, s, x, lo, n), hh(u2, s, x2, lo, n), 0, n)
{ dot_ext1(u, x, u2, x2, lo, n); }
pub proof fn hh_fix(u: V, s: real, x: V, lo: int, n: int) requires 0 <= lo, zerov(x, lo, n) ensures eqv(hh(u, s, x, lo, n), x, 0, n)
{
    dot_zero(u, x, lo, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] hh(u, s, x, lo, n)(i) == x(i) by {
        if lo <= i { let w = u(i); assert((0real + (0real * (-2real)) * w) * s == 0real) by (nonlinear_arith); }
    }
}
pub open spec fn ax(x: V, c: real, u: V) -> V { |i: int| x(i) + c * u(i) }
proof fn uz_dot(u: V, x: V, lo: int, n: int) requires uz(u, lo, n) ensures dot(u, u, lo, n) == 1real || (dot(u, x, lo, n) == 0real && dot(u, u, lo, n) == 0real)
{ if dot(u, u, lo, n) != 1real { dot_zero(u, x, lo, n); dot_zero(u, u, lo, n); } }
pub proof fn hh_invol(u: V, s: real, x: V, lo: int, n: int) requires 0 <= lo, uz(u, lo, n), pm1(s)
    ensures eqv(hh(u, s, hh(u, s, x, lo, n), lo, n), x, 0, n)
{
    let y = hh(u, s, x, lo, n);
    let a = dot(u, x, lo, n); let uu = dot(u, u, lo, n); let c = a * (-2real);
    let z = ax(x, c, u);
    uz_dot(u, x, lo, n);
    dot_axpy_r(u, z, x, c, u, lo, n);
    assert(dot(u, z, lo, n) == -a) by { assert(c * uu == c) by (nonlinear_arith) requires uu == 1real || c == 0real; }
    assert forall|k: int| lo <= k < n implies #[trigger] y(k) == s * z(k) by { let q = z(k); assert(q * s == s * q) by (nonlinear_arith); }
    dot_scale(y, s, z, u, lo, n); dot_comm(y, u, lo, n); dot_comm(z, u, lo, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] hh(u, s, y, lo, n)(i) == x(i) by {
        if lo <= i {
            assert(y(i) == s * z(i));
            let (p, q) = (u(i), x(i));
            inv_arith(q, a, p, s);
        }
    }
}
proof fn inv_arith(q: real, a: real, p: real, s: real) requires pm1(s) ensures (s * (q + (a * (-2real)) * p) + ((s * (-a)) * (-2real)) * p) * s == q
{
    let e = (a * (-2real)) * p;
    assert(((-a) * (-2real)) * p == -e) by (nonlinear_arith) requires e == (a * (-2real)) * p;
    assert(a * (-2real) * p == e);
    if s == 1real { assert(s * (-a) == -a) by (nonlinear_arith) requires s == 1real; assert(s * (q + e) == q + e) by (nonlinear_arith) requires s == 1real; let t = (q + e) + (-e); assert(t * s == t) by (nonlinear_arith) requires s == 1real; }
    else { assert(s * (-a) == a) by (nonlinear_arith) requires s == -1real; assert(s * (q + e) == -(q + e)) by (nonlinear_arith) requires s == -1real; let t = -(q + e) + e; assert(t * s == -t) by (nonlinear_arith) requires s == -1real; }
}
/// reflections preserve inner products
pub proof fn hh_iso(u: V, s: real, x: V, y: V, lo: int, n: int) requires 0 <= lo <= n, uz(u, lo, n), pm1(s)
    ensures dot(hh(u, s, x, lo, n), hh(u, s, y, lo, n), 0, n) == dot(x, y, 0, n)
{
    let (hx, hy) = (hh(u, s, x, lo, n), hh(u, s, y, lo, n));
    let (a, b) = (dot(u, x, lo, n), dot(u, y, lo, n));
    let (zx, zy) = (ax(x, a * (-2real), u), ax(y, b * (-2real), u));
    dot_axpy(zx, x, a * (-2real), u, zy, lo, n);
    dot_axpy_r(x, zy, y, b * (-2real), u, lo, n);
    dot_axpy_r(u, zy, y, b * (-2real), u, lo, n);
    dot_comm(x, u, lo, n);
    uz_dot(u, x, lo, n); uz_dot(u, y, lo, n);
    let (uu, xy) = (dot(u, u, lo, n), dot(x, y, lo, n));
    assert(dot(zx, zy, lo, n) == (xy + (b * (-2real)) * a) + (a * (-2real)) * (b + (b * (-2real)) * uu));
    if uu == 1real { iso_arith(xy, b, a, uu); } else { assert((b * (-2real)) * a == 0real && (a * (-2real)) * (b + (b * (-2real)) * uu) == 0real) by (nonlinear_arith) requires a == 0real, b == 0real; }
    assert forall|k: int| lo <= k < n implies #[trigger] hx(k) == s * zx(k) by { let q = zx(k); assert(q * s == s * q) by (nonlinear_arith); }
    assert forall|k: int| lo <= k < n implies #[trigger] hy(k) == s * zy(k) by { let q = zy(k); assert(q * s == s * q) by (nonlinear_arith); }
    dot_scale(hx, s, zx, hy, lo, n); dot_comm(zx, hy, lo, n); dot_scale(hy, s, zy, zx, lo, n); dot_comm(zy, zx, lo, n);
    let d = dot(zx, zy, lo, n);
    assert(s * (s * d) == d) by (nonlinear_arith) requires s == 1real || s == -1real;
    dot_split(hx, hy, 0, lo, n); dot_split(x, y, 0, lo, n); dot_ext1(hx, hy, x, y, 0, lo);
}
proof fn lin_arith(x: real, y: real, c: real, a: real, b: real, u: real, s: real) requires pm1(s)
    ensures ((x + c * y) + ((a + c * b) * (-2real)) * u) * s == (x + (a * (-2real)) * u) * s + c * ((y + (b * (-2real)) * u) * s)
{
    let (p, q) = ((a * (-2real)) * u, (b * (-2real)) * u);
    let cb = c * b;
    assert(((a + cb) * (-2real)) * u == p + (cb * (-2real)) * u) by (nonlinear_arith) requires p == (a * (-2real)) * u;
    assert((cb * (-2real)) * u == c * q) by (nonlinear_arith) requires q == (b * (-2real)) * u, cb == c * b;
    assert(c * (y + q) == c * y + c * q) by (nonlinear_arith);
    let (l, r, w) = ((x + p), c * (y + q), y + q);
    assert((l + r) * s == l * s + r * s) by (nonlinear_arith);
    assert((c * w) * s == c * (w * s)) by (nonlinear_arith);
}
pub proof fn hh_lin(u: V, s: real, w: V, x: V, c: real, y: V, lo: int, n: int) requires 0 <= lo, pm1(s), eqv(w, ax(x, c, y), 0, n)
    ensures eqv(hh(u, s, w, lo, n), ax(hh(u, s, x, lo, n), c, hh(u, s, y, lo, n)), 0, n)
{
    assert forall|k: int| lo <= k < n implies #[trigger] w(k) == x(k) + c * y(k) by { assert(w(k) == ax(x, c, y)(k)); }
    dot_axpy_r(u, w, x, c, y, lo, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] hh(u, s, w, lo, n)(i) == ax(hh(u, s, x, lo, n), c, hh(u, s, y, lo, n))(i) by {
        assert(w(i) == ax(x, c, y)(i));
        if lo <= i { lin_arith(x(i), y(i), c, dot(u, x, lo, n), dot(u, y, lo, n), u(i), s); }
    }
}
/// the reflections with the axes in w's columns lo..hi (below the diagonal shifted by sh), the last one first
pub open spec fn bk(w: M, sg: V, sh: int, lo: int, hi: int, x: V) -> V decreases hi - lo { if lo >= hi { x } else { hh(col(w, lo), sg(lo), bk(w, sg, sh, lo + 1, hi, x), lo + sh, w.nr) } }
/// the same, the first one first
pub open spec fn fw(w: M, sg: V, sh: int, lo: int, hi: int, x: V) -> V decreases hi - lo { if lo >= hi { x } else { hh(col(w, hi - 1), sg(hi - 1), fw(w, sg, sh, lo, hi - 1, x), hi - 1 + sh, w.nr) } }
pub open spec fn ax_ok(w: M, sg: V, sh: int, k: int) -> bool { uz(col(w, k), k + sh, w.nr) && pm1(sg(k)) }
pub open spec fn axes_ok(w: M, sg: V, sh: int, lo: int, hi: int) -> bool { 0 <= sh && 0 <= lo && hi + sh <= w.nr && forall|k: int| lo <= k < hi ==> #[trigger] ax_ok(w, sg, sh, k) }
pub open spec fn ax_eq(w: M, sg: V, w2: M, sg2: V, sh: int, k: int) -> bool { eqv(col(w, k), col(w2, k), k + sh, w.nr) && sg(k) == sg2(k) }
pub proof fn bk_ext(w: M, sg: V, w2: M, sg2: V, sh: int, lo: int, hi: int, x: V, x2: V)
    requires 0 <= sh, 0 <= lo, w.nr == w2.nr, forall|k: int| lo <= k < hi ==> #[trigger] ax_eq(w, sg, w2, sg2, sh, k), eqv(x, x2, 0, w.nr)
    ensures eqv(bk(w, sg, sh, lo, hi, x), bk(w2, sg2, sh, lo, hi, x2), 0, w.nr) decreases hi - lo
{ if lo < hi { bk_ext(w, sg, w2, sg2, sh, lo + 1, hi, x, x2); assert(ax_eq(w, sg, w2, sg2, sh, lo)); hh_ext(col(w, lo), sg(lo), bk(w, sg, sh, lo + 1, hi, x), col(w2, lo), bk(w2, sg2, sh, lo + 1, hi, x2), lo + sh, w.nr); } }
pub proof fn bk_ext1(w: M, sg: V, sh: int, lo: int, hi: int, x: V, x2: V) requires 0 <= sh, 0 <= lo, eqv(x, x2, 0, w.nr)
    ensures eqv(bk(w, sg, sh, lo, hi, x), bk(w, sg, sh, lo, hi, x2), 0, w.nr)
{ bk_ext(w, sg, w, sg, sh, lo, hi, x, x2); }
pub proof fn bk_last(w: M, sg: V, sh: int, lo: int, hi: int, x: V) requires 0 <= sh, 0 <= lo < hi
    ensures eqv(bk(w, sg, sh, lo, hi, x), bk(w, sg, sh, lo, hi - 1, hh(col(w, hi - 1), sg(hi - 1), x, hi - 1 + sh, w.nr)), 0, w.nr) decreases hi - lo
{
    let y = hh(col(w, hi - 1), sg(hi - 1), x, hi - 1 + sh, w.nr);
    if lo + 1 < hi { bk_last(w, sg, sh, lo + 1, hi, x); hh_ext(col(w, lo), sg(lo), bk(w, sg, sh, lo + 1, hi, x), col(w, lo), bk(w, sg, sh, lo + 1, hi - 1, y), lo + sh, w.nr); }
    else { assert(bk(w, sg, sh, lo + 1, hi, x) == x); assert(bk(w, sg, sh, lo, hi - 1, y) == y); }
}
pub proof fn bk_iso(w: M, sg: V, sh: int, lo: int, hi: int, x: V, y: V) requires axes_ok(w, sg, sh, lo, hi)
    ensures dot(bk(w, sg, sh, lo, hi, x), bk(w, sg, sh, lo, hi, y), 0, w.nr) == dot(x, y, 0, w.nr) decreases hi - lo
{ if lo < hi { bk_iso(w, sg, sh, lo + 1, hi, x, y); assert(ax_ok(w, sg, sh, lo)); hh_iso(col(w, lo), sg(lo), bk(w, sg, sh, lo + 1, hi, x), bk(w, sg, sh, lo + 1, hi, y), lo + sh, w.nr); } }
pub proof fn bk_fix(w: M, sg: V, sh: int, lo: int, hi: int, x: V) requires 0 <= sh, 0 <= lo, zerov(x, lo + sh, w.nr)
    ensures eqv(bk(w, sg, sh, lo, hi, x), x, 0, w.nr) decreases hi - lo
{ if lo < hi { bk_fix(w, sg, sh, lo + 1, hi, x); let y = bk(w, sg, sh, lo + 1, hi, x); assert(zerov(y, lo + sh, w.nr)); hh_fix(col(w, lo), sg(lo), y, lo + sh, w.nr); } }
pub proof fn bk_lin(w: M, sg: V, sh: int, lo: int, hi: int, z: V, x: V, c: real, y: V) requires axes_ok(w, sg, sh, lo, hi), eqv(z, ax(x, c, y), 0, w.nr)
    ensures eqv(bk(w, sg, sh, lo, hi, z), ax(bk(w, sg, sh, lo, hi, x), c, bk(w, sg, sh, lo, hi, y)), 0, w.nr) decreases hi - lo
{ if lo < hi { bk_lin(w, sg, sh, lo + 1, hi, z, x, c, y); assert(ax_ok(w, sg, sh, lo)); hh_lin(col(w, lo), sg(lo), bk(w, sg, sh, lo + 1, hi, z), bk(w, sg, sh, lo + 1, hi, x), c, bk(w, sg, sh, lo + 1, hi, y), lo + sh, w.nr); } }
/// undoing the reflections
pub proof fn bk_fw(w: M, sg: V, sh: int, lo: int, hi: int, x: V) requires axes_ok(w, sg, sh, lo, hi)
    ensures eqv(bk(w, sg, sh, lo, hi, fw(w, sg, sh, lo, hi, x)), x, 0, w.nr) decreases hi - lo
{
    if lo < hi {
        let y = fw(w, sg, sh, lo, hi, x); let y1 = fw(w, sg, sh, lo, hi - 1, x);
        let (u, s) = (col(w, hi - 1), sg(hi - 1));
        bk_last(w, sg, sh, lo, hi, y);
        assert(ax_ok(w, sg, sh, hi - 1));
        hh_invol(u, s, y1, hi - 1 + sh, w.nr);
        bk_ext1(w, sg, sh, lo, hi - 1, hh(u, s, y, hi - 1 + sh, w.nr), y1);
        assert(axes_ok(w, sg, sh, lo, hi - 1));
        bk_fw(w, sg, sh, lo, hi - 1, x);
    }
}
pub proof fn fw_iso(w: M, sg: V, sh: int, lo: int, hi: int, x: V, y: V) requires axes_ok(w, sg, sh, lo, hi)
    ensures dot(fw(w, sg, sh, lo, hi, x), fw(w, sg, sh, lo, hi, y), 0, w.nr) == dot(x, y, 0, w.nr)
{ let (a, b) = (fw(w, sg, sh, lo, hi, x), fw(w, sg, sh, lo, hi, y)); bk_iso(w, sg, sh, lo, hi, a, b); bk_fw(w, sg, sh, lo, hi, x); bk_fw(w, sg, sh, lo, hi, y); dot_ext1(bk(w, sg, sh, lo, hi, a), bk(w, sg, sh, lo, hi, b), x, y, 0, w.nr); }
pub open spec fn unitv(c: int) -> V { |i: int| if i == c { 1real } else { 0real } }
/// the matrix of the reflections: columns are their images of the unit vectors
pub open spec fn qmat(w: M, sg: V, sh: int, hi: int, nc: int) -> M { M { nr: w.nr, nc, f: |i: int, c: int| bk(w, sg, sh, 0, hi, unitv(c))(i) } }
pub proof fn bk_qmat(w: M, sg: V, sh: int, hi: int, nc: int, m: int, x: V, i: int) requires axes_ok(w, sg, sh, 0, hi), 0 <= m <= w.nr, zerov(x, m, w.nr), 0 <= i < w.nr
    ensures bk(w, sg, sh, 0, hi, x)(i) == dot(row(qmat(w, sg, sh, hi, nc), i), x, 0, m) decreases m
{
    let q = qmat(w, sg, sh, hi, nc);
    if m == 0 {
        bk_fix(w, sg, sh, 0, hi, x);
        assert(bk(w, sg, sh, 0, hi, x)(i) == x(i) && x(i) == 0real);
    } else {
        let y = |k: int| if k == m - 1 { 0real } else { x(k) };
        bk_qmat(w, sg, sh, hi, nc, m - 1, y, i);
        let c = x(m - 1);
        assert forall|k: int| 0 <= k < w.nr implies #[trigger] x(k) == ax(y, c, unitv(m - 1))(k) by { if k == m - 1 { assert(c * 1real == c) by (nonlinear_arith); } else { assert(c * 0real == 0real) by (nonlinear_arith); } }
        bk_lin(w, sg, sh, 0, hi, x, y, c, unitv(m - 1));
        assert(bk(w, sg, sh, 0, hi, x)(i) == ax(bk(w, sg, sh, 0, hi, y), c, bk(w, sg, sh, 0, hi, unitv(m - 1)))(i));
        dot_ext1(row(q, i), y, row(q, i), x, 0, m - 1);
        let (p, r) = (q.at(i, m - 1), x(m - 1));
        assert(r * p == p * r) by (nonlinear_arith);
    }
}
pub open spec fn orth(q: M) -> bool { same(mm(tr(q), q), ident(q.nc, q.nc)) }
pub proof fn unit_dot(x: V, c: int, n: int) requires 0 <= c < n ensures dot(unitv(c), x, 0, n) == x(c)
{ unit_sum(unitv(c), x, c, n); let y = x(c); assert(1real * y == y) by (nonlinear_arith); }
pub proof fn qmat_orth(w: M, sg: V, sh: int, hi: int, nc: int) requires axes_ok(w, sg, sh, 0, hi), 0 <= nc <= w.nr ensures orth(qmat(w, sg, sh, hi, nc))
{
    let q = qmat(w, sg, sh, hi, nc);
    assert forall|i: int, j: int| 0 <= i < nc && 0 <= j < nc implies #[trigger] mm(tr(q), q).at(i, j) == ident(nc, nc).at(i, j) by {
        bk_iso(w, sg, sh, 0, hi, unitv(i), unitv(j));
        unit_dot(unitv(j), i, w.nr);
        dot_ext1(row(tr(q), i), col(q, j), bk(w, sg, sh, 0, hi, unitv(i)), bk(w, sg, sh, 0, hi, unitv(j)), 0, w.nr);
    }
}
/// scaling, reflecting and normalising a column
pub proof fn hh_core(x: V, s: real, y: V, nn: real, sn: real, y1: V, r: real, u: V, n: int)
    requires n >= 1, s != 0real, forall|k: int| 0 <= k < n ==> #[trigger] y(k) == x(k) / s, nn >= 0real, nn * nn == dot(y, y, 0, n), sn == rsgn(y(0)) * nn,
        y1(0) == y(0) + sn, forall|k: int| 1 <= k < n ==> #[trigger] y1(k) == y(k), r * r == (nn * nn + rabs(y(0)) * nn) * 2real, r != 0real, forall|k: int| 0 <= k < n ==> #[trigger] u(k) == y1(k) / r,
    ensures dot(u, u, 0, n) == 1real, ({ let rho = (-sn) * s; rho * rho == dot(x, x, 0, n) && forall|k: int| 0 <= k < n ==> #[trigger] rf(u, 0real, x, n)(k) == if k == 0 { rho } else { 0real } })
{
    let (y0, nsq) = (y(0), nn * nn);
    let e = unitv(0);
    assert forall|k: int| 0 <= k < n implies #[trigger] y1(k) == y(k) + sn * e(k) by { if k == 0 { assert(sn * 1real == sn) by (nonlinear_arith); } else { assert(sn * 0real == 0real) by (nonlinear_arith); } }
    assert forall|k: int| 0 <= k < n implies #[trigger] x(k) == s * y(k) by { assert(y(k) == x(k) / s); div_cancel(x(k), s); }
    assert forall|k: int| 0 <= k < n implies #[trigger] y1(k) == r * u(k) by { assert(u(k) == y1(k) / r); div_cancel(y1(k), r); }
    let an = rabs(y0) * nn;
    assert(sn * y0 == an && sn * sn == nsq) by {
        if y0 >= 0real { assert(sn == nn) by (nonlinear_arith) requires sn == 1real * nn; assert(nn * y0 == y0 * nn) by (nonlinear_arith); }
        else { assert(sn == -nn) by (nonlinear_arith) requires sn == (-1real) * nn; assert((-nn) * y0 == (-y0) * nn) by (nonlinear_arith); assert((-nn) * (-nn) == nn * nn) by (nonlinear_arith); }
    }
    unit_dot(y, 0, n); unit_dot(y1, 0, n);
    dot_axpy(y1, y, sn, e, y1, 0, n);       // y1.y1 = y.y1 + sn y1(0)
    dot_axpy_r(y, y1, y, sn, e, 0, n);      // y.y1 = y.y + sn y(0)
    dot_comm(y, e, 0, n);
    assert(sn * (y0 + sn) == sn * y0 + sn * sn) by (nonlinear_arith);
    let nn2 = r * r;
    assert(dot(y1, y1, 0, n) == nn2);
    let uu = dot(u, u, 0, n);
    dot_scale(y1, r, u, y1, 0, n); dot_comm(u, y1, 0, n); dot_scale(y1, r, u, u, 0, n);
    assert(uu == 1real) by (nonlinear_arith) requires r * (r * uu) == r * r, r != 0real;
    // u.x
    dot_scale(x, s, y, y1, 0, n);           // x.y1 = s y.y1
    dot_comm(x, y1, 0, n); dot_scale(y1, r, u, x, 0, n);
    let yy1 = dot(y, y1, 0, n); let ux = dot(u, x, 0, n);
    assert(r * ux == s * yy1);
    assert(yy1 * 2real == nn2);
    let rho = (-sn) * s;
    assert forall|k: int| 0 <= k < n implies #[trigger] rf(u, 0real, x, n)(k) == if k == 0 { rho } else { 0real } by {
        let uk = u(k); let yk = y1(k);
        assert(y1(k) == r * u(k)); assert(x(k) == s * y(k)); assert(y1(k) == y(k) + sn * e(k));
        let f = (ux - 0real) * (-2real);
        assert(r * f == -(s * nn2)) by (nonlinear_arith) requires r * ux == s * yy1, yy1 * 2real == nn2, f == (ux - 0real) * (-2real);
        assert(f == -(s * r)) by (nonlinear_arith) requires r * f == -(s * nn2), nn2 == r * r, r != 0real;
        assert(f * uk == -(s * yk)) by (nonlinear_arith) requires f == -(s * r), yk == r * uk;
        let (p, q) = (y(k), sn * e(k));
        assert(s * p - s * (p + q) == -(s * q)) by (nonlinear_arith);
        if k == 0 { assert(q == sn) by (nonlinear_arith) requires q == sn * 1real; assert(-(s * sn) == (-sn) * s) by (nonlinear_arith); }
        else { assert(q == 0real) by (nonlinear_arith) requires q == sn * 0real; assert(s * 0real == 0real) by (nonlinear_arith); }
    }
    dot_scale(x, s, y, x, 0, n); dot_comm(y, x, 0, n); dot_scale(x, s, y, y, 0, n);
    let yy = dot(y, y, 0, n);
    assert(rho * rho == s * (s * yy)) by (nonlinear_arith) requires rho == (-sn) * s, sn * sn == nsq, nsq == yy;
}

pub open spec fn sgv(d: V) -> V { |k: int| rsgn(d(k)) }
/// what clearing a column leaves: axis u, its old value x, the signed norm
pub open spec fn cleared(u: V, r: real, x: V, lo: int, n: int) -> bool {
    uz(u, lo, n) && (forall|i: int| lo <= i < n ==> #[trigger] hh(u, rsgn(r), x, lo, n)(i) == if i == lo { rabs(r) } else { 0real }) && r * r == dot(x, x, lo, n)
}
/// a reflection of the shifted vector
pub proof fn rf_hh(u: V, x: V, u2: V, x2: V, s: real, lo: int, n: int, i: int) requires lo <= i < n, forall|k: int| #![trigger u2(k)] #![trigger x2(k)] 0 <= k < n - lo ==> (u2(k) == u(lo + k) && x2(k) == x(lo + k))
    ensures rf(u2, 0real, x2, n - lo)(i - lo) * s == hh(u, s, x, lo, n)(i)
{ assert forall|k: int| 0 <= k < n - lo implies #[trigger] u2(k) == u(lo + k) && x2(k) == x(lo + k) by { assert(u2(k) == u(lo + k)); assert(x2(k) == x(lo + k)); } dot_shift(u, x, u2, x2, lo, n - lo); assert(u2(i - lo) == u(lo + (i - lo))); }
pub proof fn tr_tr() ensures forall|x: M| #[trigger] tr(tr(x)) == x
{ assert forall|x: M| #[trigger] tr(tr(x)) == x by { assert(tr(tr(x)).f =~= x.f); } }

// ---- QR ---------------------------------------------------------------------------------------------
pub open spec fn qm(w: M, d: V, sh: int) -> M { qmat(w, sgv(d), sh, imin(w.nr, w.nc) - sh, imin(w.nr, w.nc)) }
/// column j of R after k columns were cleared
pub open spec fn rcol(w: M, d: V, k: int, j: int) -> V { |i: int| if j < k { if i < j { w.at(i, j) } else if i == j { rabs(d(j)) } else { 0real } } else { w.at(i, j) } }
pub open spec fn rmat(w: M, d: V) -> M { M { nr: w.nc, nc: w.nc, f: |i: int, j: int| if i < j { w.at(i, j) } else if i == j { rabs(d(j)) } else { 0real } } }
pub open spec fn part_at(w: M, d: V, k: int, a: M, r: int, j: int) -> bool { a.at(r, j) == bk(w, sgv(d), 0, 0, k, rcol(w, d, k, j))(r) }
/// w, d hold the first k reflections and the partly reduced matrix
pub open spec fn qr_part(w: M, d: V, k: int, a: M) -> bool { shape(w, a) && axes_ok(w, sgv(d), 0, 0, k) && forall|r: int, j: int| inb(a, r, j) ==> #[trigger] part_at(w, d, k, a, r, j) }
pub open spec fn qr_of(w: M, d: V, a: M) -> bool { a.nr >= a.nc && a.nc >= 0 && qr_part(w, d, a.nc, a) }
pub open spec fn is_qr(a: M, q: M, r: M) -> bool { shape(q, a) && r.nr == a.nc && r.nc == a.nc && orth(q) && is_tri(r, true) && (forall|i: int| 0 <= i < r.nr ==> #[trigger] r.at(i, i) >= 0real) && same(mm(q, r), a) }
pub proof fn qr_step(w0: M, d0: V, w1: M, d1: V, k: int, a: M)
    requires 0 <= k < a.nc, k < a.nr, qr_part(w0, d0, k, a), shape(w1, w0), forall|i: int| 0 <= i < k ==> #[trigger] d1(i) == d0(i),
        forall|i: int, j: int| inb(w0, i, j) && (j < k || i < k) ==> #[trigger] w1.at(i, j) == w0.at(i, j),
        cleared(col(w1, k), d1(k), col(w0, k), k, a.nr),
        forall|i: int, j: int| k <= i < a.nr && k < j < a.nc ==> #[trigger] w1.at(i, j) == hh(col(w1, k), rsgn(d1(k)), col(w0, j), k, a.nr)(i),
    ensures qr_part(w1, d1, k + 1, a)
{
    let u = col(w1, k); let s = sgv(d1)(k); let n = a.nr;
    assert forall|m: int| 0 <= m < k + 1 implies #[trigger] ax_ok(w1, sgv(d1), 0, m) by {
        if m < k { assert(ax_ok(w0, sgv(d0), 0, m)); assert(d1(m) == d0(m)); let (x, y) = (col(w1, m), col(w0, m));
            assert forall|i: int| #![trigger x(i)] #![trigger y(i)] m <= i < n implies x(i) == y(i) by { assert(w1.at(i, m) == w0.at(i, m)); }
            dot_ext1(x, x, y, y, m, n); }
    }
    assert forall|r: int, j: int| inb(a, r, j) implies #[trigger] part_at(w1, d1, k + 1, a, r, j) by {
        let (x0, x1) = (rcol(w0, d0, k, j), rcol(w1, d1, k + 1, j));
        let h = hh(u, s, x0, k, n);
        if j < k { hh_fix(u, s, x0, k, n); assert(d1(j) == d0(j)); }
        else { dot_ext1(u, x0, u, col(w0, j), k, n); }
        assert forall|i: int| #![trigger x1(i)] #![trigger h(i)] 0 <= i < n implies x1(i) == h(i) by {
            if j < k { assert(h(i) == x0(i)); if i < j { assert(w1.at(i, j) == w0.at(i, j)); } }
            else if i < k { assert(w1.at(i, j) == w0.at(i, j)); }
            else if j == k { assert(hh(u, s, col(w0, k), k, n)(i) == if i == k { rabs(d1(k)) } else { 0real }); }
            else { assert(w1.at(i, j) == hh(u, s, col(w0, j), k, n)(i)); }
        }
        hh_ext(u, s, x1, u, h, k, n);
        hh_invol(u, s, x0, k, n);
        let y = hh(u, s, x1, k, n);
        assert forall|i: int| #![trigger y(i)] #![trigger x0(i)] 0 <= i < n implies y(i) == x0(i) by { assert(hh(u, s, h, k, n)(i) == x0(i)); }
        bk_last(w1, sgv(d1), 0, 0, k + 1, x1);
        assert forall|m: int| 0 <= m < k implies #[trigger] ax_eq(w1, sgv(d1), w0, sgv(d0), 0, m) by {
            assert(d1(m) == d0(m)); let (p, q) = (col(w1, m), col(w0, m));
            assert forall|i: int| #![trigger p(i)] #![trigger q(i)] m <= i < n implies p(i) == q(i) by { assert(w1.at(i, m) == w0.at(i, m)); }
        }
        bk_ext(w1, sgv(d1), w0, sgv(d0), 0, 0, k, y, x0);
        assert(part_at(w0, d0, k, a, r, j));
        assert(bk(w1, sgv(d1), 0, 0, k + 1, x1)(r) == bk(w1, sgv(d1), 0, 0, k, y)(r));
        assert(bk(w1, sgv(d1), 0, 0, k, y)(r) == bk(w0, sgv(d0), 0, 0, k, x0)(r));
    }
}
pub proof fn qr_main(w: M, d: V, a: M) requires qr_of(w, d, a) ensures is_qr(a, qm(w, d, 0), rmat(w, d))
{
    let q = qm(w, d, 0); let r = rmat(w, d); let n = a.nc;
    qmat_orth(w, sgv(d), 0, n, n);
    assert forall|i: int, j: int| 0 <= i < a.nr && 0 <= j < a.nc implies #[trigger] mm(q, r).at(i, j) == a.at(i, j) by {
        let x = rcol(w, d, n, j);
        assert(part_at(w, d, n, a, i, j));
        bk_qmat(w, sgv(d), 0, n, n, n, x, i);
        dot_ext1(row(q, i), x, row(q, i), col(r, j), 0, n);
    }
}
/// R y, zero below
pub open spec fn ry(w: M, d: V, y: V) -> V { |i: int| if i < w.nc { dot(row(rmat(w, d), i), y, 0, w.nc) } else { 0real } }
pub proof fn qr_mul(w: M, d: V, a: M, y: V, i: int) requires qr_of(w, d, a), 0 <= i < a.nr ensures dot(row(a, i), y, 0, a.nc) == bk(w, sgv(d), 0, 0, a.nc, ry(w, d, y))(i)
{
    let q = qm(w, d, 0); let r = rmat(w, d); let n = a.nc; let z = ry(w, d, y);
    qr_main(w, d, a);
    bk_qmat(w, sgv(d), 0, n, n, n, z, i);
    dot_assoc(row(q, i), r, y, n, n);
    let g = |k: int| dot(row(r, k), y, 0, n);
    dot_ext1(row(q, i), z, row(q, i), g, 0, n);
    let h = |k: int| dot(row(q, i), col(r, k), 0, n);
    assert forall|k: int| #![trigger h(k)] #![trigger row(a, i)(k)] 0 <= k < n implies row(a, i)(k) == h(k) by { assert(mm(q, r).at(i, k) == a.at(i, k)); }
    dot_ext1(row(a, i), y, h, y, 0, n);
}
/// residual of A y = b
pub open spec fn resid(a: M, y: V, b: V) -> V { |i: int| dot(row(a, i), y, 0, a.nc) - b(i) }
pub open spec fn vsub(x: V, y: V) -> V { |i: int| x(i) - y(i) }
pub proof fn qr_resid(w: M, d: V, a: M, y: V, b: V) requires qr_of(w, d, a)
    ensures ({ let g = vsub(ry(w, d, y), fw(w, sgv(d), 0, 0, a.nc, b)); let e = resid(a, y, b); dot(e, e, 0, a.nr) == dot(g, g, 0, a.nr) })
{
    let f = fw(w, sgv(d), 0, 0, a.nc, b); let z = ry(w, d, y); let g = vsub(z, f); let e = resid(a, y, b); let sg = sgv(d); let n = a.nc;
    bk_lin(w, sg, 0, 0, n, g, z, -1real, f);
    bk_fw(w, sg, 0, 0, n, b);
    let bg = bk(w, sg, 0, 0, n, g);
    assert forall|i: int| #![trigger e(i)] #![trigger bg(i)] 0 <= i < a.nr implies e(i) == bg(i) by {
        qr_mul(w, d, a, y, i);
        assert(bg(i) == ax(bk(w, sg, 0, 0, n, z), -1real, bk(w, sg, 0, 0, n, f))(i));
        assert(bk(w, sg, 0, 0, n, f)(i) == b(i));
    }
    dot_ext1(e, e, bg, bg, 0, a.nr);
    bk_iso(w, sg, 0, 0, n, g, g);
}
pub open spec fn norm2(x: V, n: int) -> real { dot(x, x, 0, n) }
pub proof fn norm2_zero(x: V, n: int) requires norm2(x, n) == 0real ensures zerov(x, 0, n)
{ assert forall|i: int| 0 <= i < n implies #[trigger] x(i) == 0real by { if x(i) != 0real { dot_self_pos(x, 0, n, i); } } }
/// an upper triangular matrix with non-zero diagonal is injective
pub proof fn up_inj(r: M, z: V, i: int) requires 0 <= i <= r.nr, is_tri(r, true), regular(r), forall|k: int| i <= k < r.nr ==> #[trigger] dot(row(r, k), z, 0, r.nr) == 0real
    ensures zerov(z, i, r.nr) decreases r.nr - i
{
    if i < r.nr {
        up_inj(r, z, i + 1); let u = row(r, i);
        assert(dot(u, z, 0, r.nr) == 0real);
        dot_split(u, z, 0, i, r.nr); dot_lo(u, z, i, r.nr); dot_zero(u, z, i + 1, r.nr);
        assert forall|k: int| 0 <= k < i implies #[trigger] u(k) == 0real by { assert(r.at(i, k) == 0real); }
        dot_zero(u, z, 0, i);
        assert(dg(r)(i) != 0real);
        let (p, q) = (u(i), z(i)); assert(q == 0real) by (nonlinear_arith) requires p * q == 0real, p != 0real;
    }
}
pub proof fn low_inj(r: M, z: V, i: int) requires 0 <= i <= r.nr, is_tri(r, false), regular(r), forall|k: int| 0 <= k < i ==> #[trigger] dot(row(r, k), z, 0, r.nr) == 0real
    ensures zerov(z, 0, i) decreases i
{
    if i > 0 {
        low_inj(r, z, i - 1); let u = row(r, i - 1);
        assert(dot(u, z, 0, r.nr) == 0real);
        dot_split(u, z, 0, i, r.nr); dot_zero(u, z, 0, i - 1);
        assert forall|k: int| i <= k < r.nr implies #[trigger] u(k) == 0real by { assert(r.at(i - 1, k) == 0real); }
        dot_zero(u, z, i, r.nr);
        assert(dg(r)(i - 1) != 0real);
        let (p, q) = (u(i - 1), z(i - 1)); assert(q == 0real) by (nonlinear_arith) requires p * q == 0real, p != 0real;
    }
}
pub proof fn rmat_regular(w: M, d: V) requires nonzero(d, w.nc) ensures regular(rmat(w, d)), is_tri(rmat(w, d), true), regular(tr(rmat(w, d))), is_tri(tr(rmat(w, d)), false)
{ let r = rmat(w, d); assert forall|i: int| 0 <= i < w.nc implies #[trigger] dg(r)(i) != 0real by { assert(d(i) != 0real); } assert forall|i: int| 0 <= i < w.nc implies #[trigger] dg(tr(r))(i) != 0real by { assert(d(i) != 0real); } }
/// x (column c of it) minimises |A x - b|, and nothing else does
pub open spec fn minim(a: M, x: V, b: V) -> bool { forall|y: V| #![trigger norm2(resid(a, y, b), a.nr)] norm2(resid(a, x, b), a.nr) <= norm2(resid(a, y, b), a.nr) && (norm2(resid(a, y, b), a.nr) == norm2(resid(a, x, b), a.nr) ==> eqv(x, y, 0, a.nc)) }
pub open spec fn lsq(a: M, x: M, b: M) -> bool { x.nr == a.nc && x.nc == b.nc && forall|c: int| 0 <= c < b.nc ==> #[trigger] minim(a, col(x, c), col(b, c)) }
pub proof fn qr_minim(w: M, d: V, a: M, x: V, b: V) requires qr_of(w, d, a), nonzero(d, a.nc), forall|i: int| 0 <= i < a.nc ==> #[trigger] ry(w, d, x)(i) == fw(w, sgv(d), 0, 0, a.nc, b)(i)
    ensures minim(a, x, b), a.nr == a.nc ==> zerov(resid(a, x, b), 0, a.nr)
{
    let f = fw(w, sgv(d), 0, 0, a.nc, b); let n = a.nc; let zx = ry(w, d, x); let gx = vsub(zx, f);
    qr_resid(w, d, a, x, b); dot_split(gx, gx, 0, n, a.nr);
    assert forall|i: int| 0 <= i < n implies #[trigger] gx(i) == 0real by { assert(zx(i) == f(i)); }
    dot_zero(gx, gx, 0, n);
    if a.nr == n { norm2_zero(resid(a, x, b), n); }
    assert forall|y: V| #![trigger norm2(resid(a, y, b), a.nr)] norm2(resid(a, x, b), a.nr) <= norm2(resid(a, y, b), a.nr) && (norm2(resid(a, y, b), a.nr) == norm2(resid(a, x, b), a.nr) ==> eqv(x, y, 0, n)) by {
        let zy = ry(w, d, y); let gy = vsub(zy, f);
        qr_resid(w, d, a, y, b); dot_split(gy, gy, 0, n, a.nr); dot_self(gy, 0, n);
        dot_ext1(gx, gx, gy, gy, n, a.nr);
        if norm2(resid(a, y, b), a.nr) == norm2(resid(a, x, b), a.nr) {
            norm2_zero(gy, n);
            rmat_regular(w, d); let r = rmat(w, d); let z = vsub(y, x);
            assert forall|k: int| 0 <= k < n implies #[trigger] dot(row(r, k), z, 0, n) == 0real by {
                dot_axpy_r(row(r, k), z, y, -1real, x, 0, n);
                assert(gy(k) == 0real); assert(gx(k) == 0real);
            }
            up_inj(r, z, 0);
            assert forall|i: int| #![trigger x(i)] #![trigger y(i)] 0 <= i < n implies x(i) == y(i) by { assert(z(i) == 0real); }
        }
    }
}
/// the triangular system with the separate diagonal is R x = b
pub proof fn qr_tri(w: M, d: V, s: M, dd: V, x: M, b: M, r: int, c: int)
    requires s.nr == w.nc, s.nc == w.nc, w.nc <= w.nr, forall|i: int, j: int| 0 <= i < w.nc && 0 <= j < w.nc ==> #[trigger] s.at(i, j) == w.at(i, j), forall|i: int| 0 <= i < w.nc ==> #[trigger] dd(i) == rabs(d(i)), tri_sol(s, dd, true, x, b), x.nr == w.nc, 0 <= r < w.nc, 0 <= c < b.nc
    ensures dot(row(rmat(w, d), r), col(x, c), 0, w.nc) == b.at(r, c)
{
    let m = rmat(w, d); let n = w.nc;
    tri_row_mm(m, true, x, r, c);
    assert(tri_row(s, dd, true, x, r, c) == b.at(r, c));
    let (p, q, v) = (row(m, r), row(s, r), col(x, c));
    assert forall|k: int| #![trigger p(k)] #![trigger q(k)] r + 1 <= k < n implies p(k) == q(k) by { assert(s.at(r, k) == w.at(r, k)); }
    dot_ext(p, v, q, v, r + 1, n);
    let t = row(trim(m, true), r);
    dot_ext1(p, v, t, v, 0, n);
    assert(dd(r) == rabs(d(r)));
}
/// R^T x = b
pub proof fn qr_tri_tr(w: M, d: V, s: M, dd: V, x: M, b: M, r: int, c: int)
    requires s.nr == w.nc, s.nc == w.nc, w.nc <= w.nr, forall|i: int, j: int| 0 <= i < w.nc && 0 <= j < w.nc ==> #[trigger] s.at(i, j) == w.at(j, i), forall|i: int| 0 <= i < w.nc ==> #[trigger] dd(i) == rabs(d(i)), tri_sol(s, dd, false, x, b), x.nr == w.nc, 0 <= r < w.nc, 0 <= c < b.nc
    ensures dot(row(tr(rmat(w, d)), r), col(x, c), 0, w.nc) == b.at(r, c)
{
    let m = tr(rmat(w, d)); let n = w.nc;
    tri_row_mm(m, false, x, r, c);
    assert(tri_row(s, dd, false, x, r, c) == b.at(r, c));
    let (p, q, v) = (row(m, r), row(s, r), col(x, c));
    assert forall|k: int| #![trigger p(k)] #![trigger q(k)] 0 <= k < r implies p(k) == q(k) by { assert(s.at(r, k) == w.at(k, r)); }
    dot_ext(p, v, q, v, 0, r);
    let t = row(trim(m, false), r);
    dot_ext1(p, v, t, v, 0, n);
    assert(dd(r) == rabs(d(r)));
}
/// x solves A^T x = b and is shorter than every other solution
pub open spec fn minnorm(a: M, x: V, b: V) -> bool { zerov(resid(tr(a), x, b), 0, a.nc) && forall|y: V| #![trigger zerov(resid(tr(a), y, b), 0, a.nc)] zerov(resid(tr(a), y, b), 0, a.nc) ==> norm2(x, a.nr) <= norm2(y, a.nr) && (norm2(x, a.nr) == norm2(y, a.nr) ==> eqv(x, y, 0, a.nr)) }
pub open spec fn lnorm(a: M, x: M, b: M) -> bool { x.nr == a.nr && x.nc == b.nc && forall|c: int| 0 <= c < b.nc ==> #[trigger] minnorm(a, col(x, c), col(b, c)) }
/// A^T y = R^T (the first entries of Q^T y)
pub proof fn qr_trmul(w: M, d: V, a: M, y: V, j: int) requires qr_of(w, d, a), 0 <= j < a.nc
    ensures dot(row(tr(a), j), y, 0, a.nr) == dot(row(tr(rmat(w, d)), j), fw(w, sgv(d), 0, 0, a.nc, y), 0, a.nc)
{
    let n = a.nc; let sg = sgv(d); let f = fw(w, sg, 0, 0, n, y); let x = rcol(w, d, n, j); let u = row(tr(a), j); let b = bk(w, sg, 0, 0, n, x);
    assert forall|i: int| #![trigger u(i)] #![trigger b(i)] 0 <= i < a.nr implies u(i) == b(i) by { assert(part_at(w, d, n, a, i, j)); }
    bk_fw(w, sg, 0, 0, n, y); let bf = bk(w, sg, 0, 0, n, f);
    dot_ext1(u, y, b, bf, 0, a.nr);
    bk_iso(w, sg, 0, 0, n, x, f);
    dot_split(x, f, 0, n, a.nr); dot_zero(x, f, n, a.nr);
    let t = row(tr(rmat(w, d)), j);
    dot_ext1(x, f, t, f, 0, n);
}
pub proof fn qr_minnorm(w: M, d: V, a: M, m: V, x: V, b: V)
    requires qr_of(w, d, a), nonzero(d, a.nc), forall|i: int| 0 <= i < a.nc ==> #[trigger] dot(row(tr(rmat(w, d)), i), m, 0, a.nc) == b(i), forall|i: int| 0 <= i < a.nr ==> #[trigger] x(i) == dot(row(qm(w, d, 0), i), m, 0, a.nc)
    ensures minnorm(a, x, b)
{
    let n = a.nc; let sg = sgv(d); let fx = fw(w, sg, 0, 0, n, x); let rt = tr(rmat(w, d));
    let m0 = |i: int| if i < n { m(i) } else { 0real };
    let bm = bk(w, sg, 0, 0, n, m0);
    assert forall|i: int| #![trigger x(i)] #![trigger bm(i)] 0 <= i < a.nr implies x(i) == bm(i) by {
        assert(x(i) == dot(row(qm(w, d, 0), i), m, 0, n));
        bk_qmat(w, sg, 0, n, n, n, m0, i); dot_ext1(row(qm(w, d, 0), i), m0, row(qm(w, d, 0), i), m, 0, n);
    }
    // the first entries of fx are m
    bk_fw(w, sg, 0, 0, n, x);
    let e = vsub(fx, m0); let be = bk(w, sg, 0, 0, n, e);
    bk_lin(w, sg, 0, 0, n, e, fx, -1real, m0);
    assert forall|i: int| 0 <= i < a.nr implies #[trigger] be(i) == 0real by { assert(be(i) == ax(bk(w, sg, 0, 0, n, fx), -1real, bm)(i)); assert(bk(w, sg, 0, 0, n, fx)(i) == x(i)); assert(x(i) == bm(i)); }
    bk_iso(w, sg, 0, 0, n, e, e); dot_zero(be, be, 0, a.nr); norm2_zero(e, a.nr);
    assert forall|i: int| #![trigger fx(i)] #![trigger m0(i)] 0 <= i < a.nr implies fx(i) == m0(i) by { assert(e(i) == 0real); }
    let rx = resid(tr(a), x, b);
    assert forall|j: int| 0 <= j < n implies #[trigger] rx(j) == 0real by { qr_trmul(w, d, a, x, j); dot_ext1(row(rt, j), fx, row(rt, j), m, 0, n); assert(dot(row(rt, j), m, 0, n) == b(j)); }
    fw_iso(w, sg, 0, 0, n, x, x); dot_split(fx, fx, 0, n, a.nr); dot_zero(fx, fx, n, a.nr);
    assert forall|y: V| #![trigger zerov(resid(tr(a), y, b), 0, n)] zerov(resid(tr(a), y, b), 0, n) implies norm2(x, a.nr) <= norm2(y, a.nr) && (norm2(x, a.nr) == norm2(y, a.nr) ==> eqv(x, y, 0, a.nr)) by {
        let fy = fw(w, sg, 0, 0, n, y); let z = vsub(fy, m0);
        rmat_regular(w, d);
        assert forall|k: int| 0 <= k < n implies #[trigger] dot(row(rt, k), z, 0, n) == 0real by {
            dot_axpy_r(row(rt, k), z, fy, -1real, m0, 0, n);
            qr_trmul(w, d, a, y, k); assert(resid(tr(a), y, b)(k) == 0real);
            assert(dot(row(rt, k), m, 0, n) == b(k)); dot_ext1(row(rt, k), m0, row(rt, k), m, 0, n);
        }
        low_inj(rt, z, n);
        assert forall|i: int| #![trigger fx(i)] #![trigger fy(i)] 0 <= i < n implies fx(i) == fy(i) by { assert(z(i) == 0real); assert(fx(i) == m0(i)); }
        fw_iso(w, sg, 0, 0, n, y, y); dot_split(fy, fy, 0, n, a.nr); dot_self(fy, n, a.nr);
        dot_ext1(fx, fx, fy, fy, 0, n);
        if norm2(x, a.nr) == norm2(y, a.nr) {
            assert forall|i: int| n <= i < a.nr implies #[trigger] fy(i) == 0real by { if fy(i) != 0real { dot_self_pos(fy, n, a.nr, i); } }
            assert forall|i: int| #![trigger fx(i)] #![trigger fy(i)] 0 <= i < a.nr implies fx(i) == fy(i) by { if i >= n { assert(fx(i) == m0(i)); assert(fy(i) == 0real); } }
            bk_ext1(w, sg, 0, 0, n, fx, fy);
            bk_fw(w, sg, 0, 0, n, y);
            let (p, q) = (bk(w, sg, 0, 0, n, fx), bk(w, sg, 0, 0, n, fy));
            assert forall|i: int| #![trigger x(i)] #![trigger y(i)] 0 <= i < a.nr implies x(i) == y(i) by { assert(p(i) == q(i)); assert(p(i) == x(i)); assert(q(i) == y(i)); }
        }
    }
}
/// A x = b column by column, for square A
pub proof fn qr_exact(a: M, x: M, b: M) requires sq(a), shape(x, b), b.nr == a.nr, forall|c: int| 0 <= c < b.nc ==> zerov(#[trigger] resid(a, col(x, c), col(b, c)), 0, a.nr)
    ensures same(mm(a, x), b)
{ assert forall|i: int, j: int| 0 <= i < a.nr && 0 <= j < b.nc implies #[trigger] mm(a, x).at(i, j) == b.at(i, j) by { let e = resid(a, col(x, j), col(b, j)); assert(zerov(e, 0, a.nr)); assert(e(i) == 0real); } }
/// a right inverse of a matrix with regular R is its inverse
pub proof fn qr_inv(w: M, d: V, a: M, x: M) requires qr_of(w, d, a), sq(a), nonzero(d, a.nc), shape(x, a), same(mm(a, x), ident(a.nr, a.nr)) ensures is_inv(x, a)
{
    let n = a.nr; let i = ident(n, n); let p = mm(x, a);
    mm_assoc(a, x, a); mm_ext(mm(a, x), a, i, a); mm_ident_l(a, n);
    assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] p.at(r, c) == i.at(r, c) by {
        let zero = |k: int| 0real;
        // both columns solve A z = col(a, c)
        let b = col(a, c); let (y1, y2) = (col(p, c), unitv(c));
        let (e1, e2) = (resid(a, y1, b), resid(a, y2, b));
        assert forall|k: int| 0 <= k < n implies #[trigger] e1(k) == 0real by { assert(mm(mm(a, x), a).at(k, c) == mm(a, p).at(k, c)); assert(mm(mm(a, x), a).at(k, c) == mm(i, a).at(k, c)); assert(mm(i, a).at(k, c) == a.at(k, c)); }
        assert forall|k: int| 0 <= k < n implies #[trigger] e2(k) == 0real by { dot_comm(row(a, k), y2, 0, n); unit_dot(row(a, k), c, n); }
        dot_zero(e1, e1, 0, n); dot_zero(e2, e2, 0, n);
        qr_resid(w, d, a, y1, b); qr_resid(w, d, a, y2, b);
        let f = fw(w, sgv(d), 0, 0, n, b); let (g1, g2) = (vsub(ry(w, d, y1), f), vsub(ry(w, d, y2), f));
        norm2_zero(g1, n); norm2_zero(g2, n);
        let rm = rmat(w, d); let z = vsub(y1, y2);
        rmat_regular(w, d);
        assert forall|k: int| 0 <= k < n implies #[trigger] dot(row(rm, k), z, 0, n) == 0real by { dot_axpy_r(row(rm, k), z, y1, -1real, y2, 0, n); assert(g1(k) == 0real); assert(g2(k) == 0real); }
        up_inj(rm, z, 0);
        assert(z(r) == 0real);
    }
}
pub proof fn is_qr_ext(a: M, q: M, r: M, q2: M, r2: M) requires a.nc >= 0, is_qr(a, q, r), same(q2, q), same(r2, r) ensures is_qr(a, q2, r2)
{
    let i = ident(a.nc, a.nc);
    same_tr(q2, q); mm_ext(tr(q2), q2, tr(q), q); same_trans(mm(tr(q2), q2), mm(tr(q), q), i);
    mm_ext(q2, r2, q, r); same_trans(mm(q2, r2), mm(q, r), a);
    assert forall|i: int| 0 <= i < r2.nr implies #[trigger] r2.at(i, i) >= 0real by { assert(r2.at(i, i) == r.at(i, i)); assert(r.at(i, i) >= 0real); }
    assert forall|i: int, j: int| 0 <= i < r2.nr && 0 <= j < r2.nc && i > j implies #[trigger] r2.at(i, j) == 0real by { assert(r2.at(i, j) == r.at(i, j)); }
}
pub proof fn mm_cong(q: M, b: M) requires q.nc == b.nr ensures forall|q2: M| #![trigger mm(q2, b)] same(q2, q) ==> same(mm(q2, b), mm(q, b))
{ assert forall|q2: M| #![trigger mm(q2, b)] same(q2, q) implies same(mm(q2, b), mm(q, b)) by { mm_ext(q2, b, q, b); } }

// ---- two-sided transformations --------------------------------------------------------------------------
pub proof fn tr_col() ensures forall|m: M, j: int| #[trigger] col(tr(m), j) == row(m, j), forall|m: M, i: int| #[trigger] row(tr(m), i) == col(m, i)
{
    assert forall|m: M, j: int| #[trigger] col(tr(m), j) == row(m, j) by { assert(col(tr(m), j) =~= row(m, j)); }
    assert forall|m: M, i: int| #[trigger] row(tr(m), i) == col(m, i) by { assert(row(tr(m), i) =~= col(m, i)); }
}
pub open spec fn colref(x1: M, x0: M, u: V, s: real, lo: int, n: int, c: int) -> bool { eqv(col(x1, c), hh(u, s, col(x0, c), lo, n), 0, n) }
pub open spec fn axes_same(w0: M, sg0: V, w1: M, sg1: V, sh: int, k: int) -> bool { forall|m: int| 0 <= m < k ==> #[trigger] ax_eq(w1, sg1, w0, sg0, sh, m) }
pub proof fn axes_keep(w0: M, sg0: V, w1: M, sg1: V, sh: int, k: int, nc: int)
    requires w0.nr == w1.nr, axes_ok(w0, sg0, sh, 0, k), axes_same(w0, sg0, w1, sg1, sh, k)
    ensures axes_ok(w1, sg1, sh, 0, k), same(qmat(w1, sg1, sh, k, nc), qmat(w0, sg0, sh, k, nc))
{
    let n = w0.nr;
    assert forall|m: int| 0 <= m < k implies #[trigger] ax_ok(w1, sg1, sh, m) by {
        assert(ax_ok(w0, sg0, sh, m)); assert(ax_eq(w1, sg1, w0, sg0, sh, m));
        dot_ext1(col(w1, m), col(w1, m), col(w0, m), col(w0, m), m + sh, n);
        if forall|i: int| m + sh <= i < n ==> #[trigger] col(w0, m)(i) == 0real { assert forall|i: int| m + sh <= i < n implies #[trigger] col(w1, m)(i) == 0real by { assert(col(w0, m)(i) == 0real); } }
    }
    assert forall|i: int, c: int| 0 <= i < n && 0 <= c < nc implies #[trigger] qmat(w1, sg1, sh, k, nc).at(i, c) == qmat(w0, sg0, sh, k, nc).at(i, c) by { bk_ext(w1, sg1, w0, sg0, sh, 0, k, unitv(c), unitv(c)); }
}
/// one more reflection on the left
pub proof fn side_step(w0: M, sg0: V, w1: M, sg1: V, sh: int, k: int, x0: M, x1: M)
    requires 0 <= sh, 0 <= k, k + 1 + sh <= w0.nr, w0.nr == w1.nr, x0.nr == w0.nr, shape(x0, x1), axes_ok(w0, sg0, sh, 0, k), axes_same(w0, sg0, w1, sg1, sh, k), ax_ok(w1, sg1, sh, k),
        forall|c: int| 0 <= c < x0.nc ==> #[trigger] colref(x1, x0, col(w1, k), sg1(k), k + sh, w0.nr, c)
    ensures axes_ok(w1, sg1, sh, 0, k + 1), same(mm(qmat(w1, sg1, sh, k + 1, w0.nr), x1), mm(qmat(w0, sg0, sh, k, w0.nr), x0))
{
    let n = w0.nr; let (u, s) = (col(w1, k), sg1(k));
    axes_keep(w0, sg0, w1, sg1, sh, k, n);
    assert(axes_ok(w1, sg1, sh, 0, k + 1));
    let (q1, q0) = (qmat(w1, sg1, sh, k + 1, n), qmat(w0, sg0, sh, k, n));
    assert forall|i: int, c: int| 0 <= i < n && 0 <= c < x0.nc implies #[trigger] mm(q1, x1).at(i, c) == mm(q0, x0).at(i, c) by {
        let (a, b) = (col(x1, c), col(x0, c));
        assert(colref(x1, x0, u, s, k + sh, n, c));
        bk_qmat(w1, sg1, sh, k + 1, n, n, a, i); bk_qmat(w0, sg0, sh, k, n, n, b, i);
        bk_last(w1, sg1, sh, 0, k + 1, a);
        let h = hh(u, s, b, k + sh, n); let y = hh(u, s, a, k + sh, n);
        hh_ext(u, s, a, u, h, k + sh, n);
        hh_invol(u, s, b, k + sh, n);
        assert forall|i: int| #![trigger y(i)] #![trigger b(i)] 0 <= i < n implies y(i) == b(i) by { assert(hh(u, s, h, k + sh, n)(i) == b(i)); }
        bk_ext(w1, sg1, w0, sg0, sh, 0, k, y, b);
        assert(bk(w1, sg1, sh, 0, k + 1, a)(i) == bk(w1, sg1, sh, 0, k, y)(i));
    }
}
/// q x p^T
pub open spec fn two(q: M, x: M, p: M) -> M { mm(mm(q, x), tr(p)) }
pub proof fn two_left(q1: M, x1: M, q0: M, x0: M, p1: M, p0: M) requires q1.nc == x1.nr, q0.nc == x0.nr, x1.nc == p1.nc, x1.nc == x0.nc, same(mm(q1, x1), mm(q0, x0)), same(p1, p0) ensures same(two(q1, x1, p1), two(q0, x0, p0))
{ same_tr(p1, p0); mm_ext(mm(q1, x1), tr(p1), mm(q0, x0), tr(p0)); }
pub proof fn two_right(q1: M, q0: M, x1: M, p1: M, x0: M, p0: M) requires q1.nc == x1.nr, q0.nc == x0.nr, x1.nc == p1.nc, x0.nc == p0.nc, x1.nc >= 0, x0.nc >= 0, q1.nc >= 0, q0.nc >= 0, same(mm(p1, tr(x1)), mm(p0, tr(x0))), same(q1, q0)
    ensures same(two(q1, x1, p1), two(q0, x0, p0))
{
    tr_tr();
    mm_tr(p1, tr(x1)); mm_tr(p0, tr(x0));                        // (p x^T)^T = x p^T
    same_tr(mm(p1, tr(x1)), mm(p0, tr(x0)));
    let (y1, y0) = (mm(x1, tr(p1)), mm(x0, tr(p0)));
    same_sym(tr(mm(p1, tr(x1))), y1);
    same_trans(y1, tr(mm(p1, tr(x1))), tr(mm(p0, tr(x0)))); same_trans(y1, tr(mm(p0, tr(x0))), y0);
    mm_ext(q1, y1, q0, y0);
    mm_assoc(q1, x1, tr(p1)); mm_assoc(q0, x0, tr(p0));
    same_sym(two(q0, x0, p0), mm(q0, y0));
    same_trans(two(q1, x1, p1), mm(q1, y1), mm(q0, y0)); same_trans(two(q1, x1, p1), mm(q0, y0), two(q0, x0, p0));
}
pub proof fn qmat_none(w: M, sg: V, sh: int) ensures same(qmat(w, sg, sh, 0, w.nr), ident(w.nr, w.nr)) {}
pub proof fn two_none(q: M, x: M, p: M) requires same(q, ident(x.nr, x.nr)), same(p, ident(x.nc, x.nc)), x.nr >= 0, x.nc >= 0 ensures same(two(q, x, p), x)
{
    let (i, j) = (ident(x.nr, x.nr), ident(x.nc, x.nc));
    mm_ext(q, x, i, x); mm_ident_l(x, x.nr); same_trans(mm(q, x), mm(i, x), x);
    same_tr(p, j); assert(same(tr(j), j)); same_trans(tr(p), tr(j), j);
    mm_ext(mm(q, x), tr(p), x, j); mm_ident_r(x, x.nc); same_trans(two(q, x, p), mm(x, j), x);
}

// ---- bidiagonal -------------------------------------------------------------------------------------------
/// the matrix after kc columns and kr rows were cleared (kr <= kc <= kr + 1)
pub open spec fn xbi(w: M, d: V, e: V, kc: int, kr: int) -> M { M { nr: w.nr, nc: w.nc, f: |i: int, j: int| if i == j && j < kc { rabs(d(j)) } else if i > j && j < kc { 0real } else if i < kr && j == i + 1 { rabs(e(i)) } else if i < kr && j > i + 1 { 0real } else { w.at(i, j) } } }
pub open spec fn bi_part(w: M, d: V, e: V, kc: int, kr: int, a: M) -> bool {
    shape(w, a) && axes_ok(w, sgv(d), 0, 0, kc) && axes_ok(tr(w), sgv(e), 1, 0, kr) && same(two(qmat(w, sgv(d), 0, kc, w.nr), xbi(w, d, e, kc, kr), qmat(tr(w), sgv(e), 1, kr, w.nc)), a)
}
pub proof fn bi_none(w: M, d: V, e: V) requires w.nr >= 1, w.nc >= 1 ensures bi_part(w, d, e, 0, 0, w)
{
    let x = xbi(w, d, e, 0, 0); let (q, p) = (qmat(w, sgv(d), 0, 0, w.nr), qmat(tr(w), sgv(e), 1, 0, w.nc));
    two_none(q, x, p); assert(same(x, w)); same_trans(two(q, x, p), x, w);
}
pub open spec fn col_cleared(w0: M, w1: M, r: real, k: int, lo: int) -> bool {
    shape(w1, w0) && (forall|i: int, j: int| inb(w0, i, j) && (j < k || i < lo) ==> #[trigger] w1.at(i, j) == w0.at(i, j)) && cleared(col(w1, k), r, col(w0, k), lo, w0.nr)
    && (forall|i: int, j: int| lo <= i < w0.nr && k < j < w0.nc ==> #[trigger] w1.at(i, j) == hh(col(w1, k), rsgn(r), col(w0, j), lo, w0.nr)(i))
}
pub open spec fn samev(d0: V, d1: V, k: int) -> bool { forall|i: int| #![trigger d1(i)] #![trigger d0(i)] 0 <= i < k ==> d1(i) == d0(i) }
pub proof fn cleared_axes(w0: M, d0: V, w1: M, d1: V, sh: int, k: int)
    requires col_cleared(w0, w1, d1(k), k, k + sh), samev(d0, d1, k), 0 <= k < w0.nc, k + sh < w0.nr, 0 <= sh
    ensures axes_same(w0, sgv(d0), w1, sgv(d1), sh, k), ax_ok(w1, sgv(d1), sh, k)
{
    assert forall|m: int| 0 <= m < k implies #[trigger] ax_eq(w1, sgv(d1), w0, sgv(d0), sh, m) by {
        assert(d1(m) == d0(m)); let (p, q) = (col(w1, m), col(w0, m));
        assert forall|i: int| #![trigger p(i)] #![trigger q(i)] m + sh <= i < w0.nr implies p(i) == q(i) by { assert(w1.at(i, m) == w0.at(i, m)); }
    }
}
pub proof fn bi_col(w0: M, d0: V, w1: M, d1: V, e: V, k: int, a: M)
    requires bi_part(w0, d0, e, k, k, a), col_cleared(w0, w1, d1(k), k, k), samev(d0, d1, k), 0 <= k < a.nc, k < a.nr
    ensures bi_part(w1, d1, e, k + 1, k, a)
{
    let n = w0.nr; let (x0, x1) = (xbi(w0, d0, e, k, k), xbi(w1, d1, e, k + 1, k)); let (u, s) = (col(w1, k), sgv(d1)(k));
    cleared_axes(w0, d0, w1, d1, 0, k);
    assert forall|c: int| 0 <= c < x0.nc implies #[trigger] colref(x1, x0, u, s, k, n, c) by {
        let (y0, y1) = (col(x0, c), col(x1, c)); let h = hh(u, s, y0, k, n);
        if c < k { hh_fix(u, s, y0, k, n); assert(d1(c) == d0(c)); } else { dot_ext1(u, y0, u, col(w0, c), k, n); }
        assert forall|i: int| #![trigger y1(i)] #![trigger h(i)] 0 <= i < n implies y1(i) == h(i) by {
            if c < k { assert(h(i) == y0(i)); assert(w1.at(i, c) == w0.at(i, c)); }
            else if i < k { assert(w1.at(i, c) == w0.at(i, c)); }
            else if c == k { assert(hh(u, s, col(w0, k), k, n)(i) == if i == k { rabs(d1(k)) } else { 0real }); }
            else { assert(w1.at(i, c) == hh(u, s, col(w0, c), k, n)(i)); }
        }
    }
    side_step(w0, sgv(d0), w1, sgv(d1), 0, k, x0, x1);
    let (t0, t1) = (tr(w0), tr(w1));
    assert forall|m: int| 0 <= m < k implies #[trigger] ax_eq(t1, sgv(e), t0, sgv(e), 1, m) by { let (p, q) = (col(t1, m), col(t0, m));
        assert forall|i: int| #![trigger p(i)] #![trigger q(i)] m + 1 <= i < w0.nc implies p(i) == q(i) by { assert(w1.at(m, i) == w0.at(m, i)); } }
    axes_keep(t0, sgv(e), t1, sgv(e), 1, k, w0.nc);
    let (q0, q1, p0, p1) = (qmat(w0, sgv(d0), 0, k, n), qmat(w1, sgv(d1), 0, k + 1, n), qmat(t0, sgv(e), 1, k, w0.nc), qmat(t1, sgv(e), 1, k, w0.nc));
    two_left(q1, x1, q0, x0, p1, p0);
    same_trans(two(q1, x1, p1), two(q0, x0, p0), a);
}
pub proof fn bi_row(w0: M, d: V, e0: V, w1: M, e1: V, k: int, a: M)
    requires bi_part(w0, d, e0, k + 1, k, a), col_cleared(tr(w0), tr(w1), e1(k), k, k + 1), samev(e0, e1, k), 0 <= k, k + 1 < a.nc, k + 1 <= a.nr
    ensures bi_part(w1, d, e1, k + 1, k + 1, a)
{
    let n = w0.nc; let (x0, x1) = (xbi(w0, d, e0, k + 1, k), xbi(w1, d, e1, k + 1, k + 1)); let (t0, t1) = (tr(w0), tr(w1)); let (u, s) = (col(t1, k), sgv(e1)(k));
    cleared_axes(t0, e0, t1, e1, 1, k);
    assert forall|c: int| 0 <= c < x0.nr implies #[trigger] colref(tr(x1), tr(x0), u, s, k + 1, n, c) by {
        let (y0, y1) = (col(tr(x0), c), col(tr(x1), c)); let h = hh(u, s, y0, k + 1, n);
        if c < k { hh_fix(u, s, y0, k + 1, n); assert(e1(c) == e0(c)); } else { dot_ext1(u, y0, u, col(t0, c), k + 1, n); }
        assert forall|i: int| #![trigger y1(i)] #![trigger h(i)] 0 <= i < n implies y1(i) == h(i) by {
            if c < k { assert(h(i) == y0(i)); assert(t1.at(i, c) == t0.at(i, c)); }
            else if i <= k { assert(t1.at(i, c) == t0.at(i, c)); }
            else if c == k { assert(hh(u, s, col(t0, k), k + 1, n)(i) == if i == k + 1 { rabs(e1(k)) } else { 0real }); }
            else { assert(t1.at(i, c) == hh(u, s, col(t0, c), k + 1, n)(i)); }
        }
    }
    side_step(t0, sgv(e0), t1, sgv(e1), 1, k, tr(x0), tr(x1));
    assert forall|m: int| 0 <= m < k + 1 implies #[trigger] ax_eq(w1, sgv(d), w0, sgv(d), 0, m) by { let (p, q) = (col(w1, m), col(w0, m));
        assert forall|i: int| #![trigger p(i)] #![trigger q(i)] m <= i < w0.nr implies p(i) == q(i) by { assert(t1.at(m, i) == t0.at(m, i)); } }
    axes_keep(w0, sgv(d), w1, sgv(d), 0, k + 1, w0.nr);
    let (q0, q1, p0, p1) = (qmat(w0, sgv(d), 0, k + 1, w0.nr), qmat(w1, sgv(d), 0, k + 1, w0.nr), qmat(t0, sgv(e0), 1, k, n), qmat(t1, sgv(e1), 1, k + 1, n));
    two_right(q1, q0, x1, p1, x0, p0);
    same_trans(two(q1, x1, p1), two(q0, x0, p0), a);
}
pub open spec fn bmat(d: V, e: V, n: int, up: bool) -> M { M { nr: n, nc: n, f: |i: int, j: int| if i == j { rabs(d(i)) } else if up && j == i + 1 { rabs(e(i)) } else if !up && i == j + 1 { rabs(e(j)) } else { 0real } } }
pub open spec fn bi_full(w: M, d: V, e: V, a: M) -> bool { a.nr >= a.nc >= 1 && bi_part(w, d, e, a.nc, a.nc - 1, a) }
pub open spec fn bi_of(w: M, d: V, e: V, up: bool, a: M) -> bool { if up { bi_full(w, d, e, a) } else { bi_full(tr(w), d, e, tr(a)) } }
pub open spec fn bi_u(w: M, d: V, e: V, up: bool) -> M { if up { qm(w, d, 0) } else { qm(w, e, 1) } }
pub open spec fn bi_vt(w: M, d: V, e: V, up: bool) -> M { if up { tr(qm(tr(w), e, 1)) } else { tr(qm(tr(w), d, 0)) } }
pub open spec fn is_bidiag(a: M, u: M, b: M, vt: M) -> bool { let n = imin(a.nr, a.nc); u.nr == a.nr && u.nc == n && b.nr == n && b.nc == n && vt.nr == n && vt.nc == a.nc && orth(u) && orth(tr(vt)) && same(mm(mm(u, b), vt), a) }
/// the shapes of a bidiagonal decomposition
pub open spec fn bi_shape(w: M, d: M, e: M, up: bool) -> bool { w.nr >= 1 && w.nc >= 1 && d.nr == imin(w.nr, w.nc) && e.nr == d.nr - 1 && (up <==> w.nr >= w.nc) }
pub proof fn bi_main_up(w: M, d: V, e: V, a: M) requires bi_full(w, d, e, a) ensures is_bidiag(a, qm(w, d, 0), bmat(d, e, a.nc, true), tr(qm(tr(w), e, 1)))
{
    let n = a.nc; let (u, v) = (qm(w, d, 0), qm(tr(w), e, 1)); let b = bmat(d, e, n, true); let x = xbi(w, d, e, n, n - 1); let q = qmat(w, sgv(d), 0, n, w.nr); let p = qmat(tr(w), sgv(e), 1, n - 1, n);
    qmat_orth(w, sgv(d), 0, n, n); qmat_orth(tr(w), sgv(e), 1, n - 1, n);
    tr_tr();
    assert forall|i: int, c: int| 0 <= i < a.nr && 0 <= c < n implies #[trigger] mm(u, b).at(i, c) == mm(q, x).at(i, c) by {
        let (y, z) = (row(q, i), col(x, c));
        dot_split(y, z, 0, n, a.nr); dot_zero(y, z, n, a.nr);
        dot_ext1(row(u, i), col(b, c), y, z, 0, n);
    }
    assert(v == p);
    mm_ext(mm(u, b), tr(v), mm(q, x), tr(p));
    same_trans(mm(mm(u, b), tr(v)), two(q, x, p), a);
}
pub proof fn bi_main(w: M, d: V, e: V, up: bool, a: M) requires bi_of(w, d, e, up, a) ensures is_bidiag(a, bi_u(w, d, e, up), bmat(d, e, imin(a.nr, a.nc), up), bi_vt(w, d, e, up))
{
    if up { bi_main_up(w, d, e, a); } else {
        let n = a.nr; let t = tr(w); tr_tr();
        bi_main_up(t, d, e, tr(a));
        let (v, u) = (qm(t, d, 0), qm(tr(t), e, 1)); let b = bmat(d, e, n, true); let b2 = bmat(d, e, n, false);
        // (v b u^T)^T = u b^T v^T
        mm_tr(mm(v, b), tr(u)); mm_tr(v, b);
        same_tr(mm(mm(v, b), tr(u)), tr(a));
        assert(same(tr(b), b2));
        mm_ext(tr(b), tr(v), b2, tr(v)); same_trans(tr(mm(v, b)), mm(tr(b), tr(v)), mm(b2, tr(v)));
        mm_ext(u, tr(mm(v, b)), u, mm(b2, tr(v)));
        mm_assoc(u, b2, tr(v));
        let g = mm(mm(u, b2), tr(v));
        same_sym(mm(u, tr(mm(v, b))), mm(u, mm(b2, tr(v))));
        same_trans(g, mm(u, mm(b2, tr(v))), mm(u, tr(mm(v, b))));
        same_sym(tr(mm(mm(v, b), tr(u))), mm(u, tr(mm(v, b))));
        same_trans(g, mm(u, tr(mm(v, b))), tr(mm(mm(v, b), tr(u))));
        same_trans(g, tr(mm(mm(v, b), tr(u))), a);
    }
}

// ---- tridiagonal ------------------------------------------------------------------------------------------
/// the matrix after k steps
pub open spec fn tmat(w: M, o: V, k: int) -> M { M { nr: w.nr, nc: w.nc, f: |i: int, j: int| if imin(i, j) < k { if i == j { w.at(i, i) } else if i == j + 1 { rabs(o(j)) } else if j == i + 1 { rabs(o(i)) } else { 0real } } else { w.at(i, j) } } }
pub open spec fn sym_from(w: M, k: int) -> bool { forall|i: int, j: int| k <= i < w.nr && k <= j < w.nr ==> #[trigger] w.at(i, j) == w.at(j, i) }
pub open spec fn tri_part(w: M, o: V, k: int, a: M) -> bool {
    sq(a) && shape(w, a) && axes_ok(w, sgv(o), 1, 0, k) && sym_from(w, k) && same(two(qmat(w, sgv(o), 1, k, w.nr), tmat(w, o, k), qmat(w, sgv(o), 1, k, w.nr)), a)
}
pub proof fn tri_none(w: M, o: V) requires sq(w), w.nr >= 1, same(tr(w), w) ensures tri_part(w, o, 0, w)
{
    let x = tmat(w, o, 0); let q = qmat(w, sgv(o), 1, 0, w.nr);
    two_none(q, x, q); assert(same(x, w)); same_trans(two(q, x, q), x, w);
    assert forall|i: int, j: int| 0 <= i < w.nr && 0 <= j < w.nr implies #[trigger] w.at(i, j) == w.at(j, i) by { assert(tr(w).at(i, j) == w.at(i, j)); }
}
pub open spec fn pv(u: V, w: M, lo: int) -> V { |c: int| 2real * dot(row(w, c), u, lo, w.nr) }
/// (H w H)(c, j) for H = I - 2 u u^T on lo..
pub open spec fn both(u: V, w: M, lo: int, c: int, j: int) -> real {
    let p = pv(u, w, lo); let d = dot(u, p, lo, w.nr);
    ((w.at(c, j) - p(c) * u(j)) - u(c) * p(j)) + (d + d) * (u(c) * u(j))
}
pub open spec fn hcol(u: V, s: real, w: M, lo: int, c: int) -> V { |j: int| hh(u, s, col(w, j), lo, w.nr)(c) }
pub proof fn both_hh(u: V, s: real, w: M, lo: int, z: V, c: int, j: int)
    requires sq(w), 0 <= lo <= c < w.nr, lo <= j < w.nr, sym_from(w, lo), pm1(s), forall|t: int| lo <= t < w.nr ==> #[trigger] z(t) == hcol(u, s, w, lo, c)(t)
    ensures hh(u, s, z, lo, w.nr)(j) == both(u, w, lo, c, j)
{
    let n = w.nr; let p = pv(u, w, lo); let d = dot(u, p, lo, n); let uc = u(c);
    assert forall|t: int| lo <= t < n implies #[trigger] dot(u, col(w, t), lo, n) * 2real == p(t) by {
        let (x, y) = (row(w, t), col(w, t));
        assert forall|k: int| #![trigger x(k)] #![trigger y(k)] lo <= k < n implies x(k) == y(k) by { assert(w.at(t, k) == w.at(k, t)); }
        dot_ext1(x, u, y, u, lo, n); dot_comm(y, u, lo, n);
    }
    let wc = row(w, c);
    let y1 = |t: int| s * wc(t);
    let k = -(s * uc);
    assert forall|t: int| lo <= t < n implies #[trigger] z(t) == y1(t) + k * p(t) by {
        assert(z(t) == hcol(u, s, w, lo, c)(t));
        let a = dot(u, col(w, t), lo, n); let x = w.at(c, t); let pt = p(t);
        assert(a * 2real == pt);
        assert((x + (a * (-2real)) * uc) * s == s * x + (-(s * uc)) * pt) by (nonlinear_arith) requires a * 2real == pt;
    }
    dot_axpy_r(u, z, y1, k, p, lo, n);
    dot_comm(u, y1, lo, n); dot_scale(y1, s, wc, u, lo, n); 
    let b = dot(wc, u, lo, n);
    assert(p(c) == 2real * b);
    let a = dot(u, col(w, j), lo, n); let x = w.at(c, j); let uj = u(j); let pj = p(j); let g = dot(u, z, lo, n);
    assert(g == s * b + k * d);
    assert(z(j) == hcol(u, s, w, lo, c)(j));
    assert(a * 2real == pj);
    if s == 1real {
        assert(z(j) == x + (a * (-2real)) * uc);
        assert(k == -uc) by (nonlinear_arith) requires k == -(s * uc), s == 1real;
        assert(g == b - uc * d) by (nonlinear_arith) requires g == s * b + k * d, s == 1real, k == -uc;
        both_arith(x, a, b, d, uc, uj);
        let v = z(j) + (g * (-2real)) * uj;
        assert(v * s == v) by (nonlinear_arith) requires s == 1real;
    } else {
        assert(k == uc); assert(z(j) == -(x + (a * (-2real)) * uc));
        assert(g == -(b - uc * d)) by (nonlinear_arith) requires g == s * b + k * d, s == -1real, k == uc;
        both_arith(x, a, b, d, uc, uj);
        let h = b - uc * d;
        let v = z(j) + (g * (-2real)) * uj;
        assert((g * (-2real)) * uj == -((h * (-2real)) * uj)) by (nonlinear_arith) requires g == -h;
        assert(v * s == -v) by (nonlinear_arith) requires s == -1real;
    }
}
proof fn both_arith(x: real, a: real, b: real, d: real, uc: real, uj: real)
    ensures (x + (a * (-2real)) * uc) + ((b - uc * d) * (-2real)) * uj == ((x - (2real * b) * uj) - uc * (a * 2real)) + (d + d) * (uc * uj)
{
    assert((a * (-2real)) * uc == -(uc * (a * 2real))) by (nonlinear_arith);
    assert(((b - uc * d) * (-2real)) * uj == -((2real * b) * uj) + (d + d) * (uc * uj)) by (nonlinear_arith);
}
pub open spec fn tri_stepped(w0: M, w1: M, r: real, k: int) -> bool {
    shape(w1, w0) && (forall|i: int, j: int| inb(w0, i, j) && (i <= k || j < k) ==> #[trigger] w1.at(i, j) == w0.at(i, j)) && cleared(col(w1, k), r, col(w0, k), k + 1, w0.nr)
    && (forall|c: int, j: int| k < c < w0.nr && k < j < w0.nr ==> #[trigger] w1.at(c, j) == both(col(w1, k), w0, k + 1, c, j))
}
pub open spec fn tmid(w0: M, o0: V, u: V, s: real, k: int) -> M { M { nr: w0.nr, nc: w0.nc, f: |i: int, c: int| hh(u, s, col(tmat(w0, o0, k), c), k + 1, w0.nr)(i) } }
pub proof fn tri_step_row(w0: M, o0: V, w1: M, o1: V, k: int, c: int)
    requires sq(w0), axes_ok(w0, sgv(o0), 1, 0, k), sym_from(w0, k), tri_stepped(w0, w1, o1(k), k), samev(o0, o1, k), 0 <= k, k + 1 < w0.nr, 0 <= c < w0.nr
    ensures colref(tr(tmat(w1, o1, k + 1)), tr(tmid(w0, o0, col(w1, k), sgv(o1)(k), k)), col(w1, k), sgv(o1)(k), k + 1, w0.nr, c)
{
    let n = w0.nr; let (u, s) = (col(w1, k), sgv(o1)(k)); let t0 = tmat(w0, o0, k); let t1 = tmat(w1, o1, k + 1); let md = tmid(w0, o0, u, s, k);
    let z = col(tr(md), c); let y = col(tr(t1), c); let h = hh(u, s, z, k + 1, n);
    let rd = |i: int| if i == k + 1 { rabs(o1(k)) } else { 0real };
    assert forall|i: int| k + 1 <= i < n implies #[trigger] hh(u, s, col(w0, k), k + 1, n)(i) == rd(i) by {}
    // columns of the left reflection
    assert forall|j: int| 0 <= j < k implies #[trigger] z(j) == t0.at(c, j) by { hh_fix(u, s, col(t0, j), k + 1, n); assert(hh(u, s, col(t0, j), k + 1, n)(c) == col(t0, j)(c)); }
    if c >= k + 1 {
        assert(z(k) == rd(c)) by { dot_ext1(u, col(t0, k), u, col(w0, k), k + 1, n); assert(hh(u, s, col(w0, k), k + 1, n)(c) == rd(c)); }
        assert forall|j: int| k + 1 <= j < n implies #[trigger] z(j) == hcol(u, s, w0, k + 1, c)(j) by { dot_ext1(u, col(t0, j), u, col(w0, j), k + 1, n); }
    } else {
        assert forall|j: int| 0 <= j < n implies #[trigger] z(j) == t0.at(c, j) by {}
    }
    assert forall|i: int| #![trigger y(i)] #![trigger h(i)] 0 <= i < n implies y(i) == h(i) by {
        if c < k {
            assert forall|j: int| k + 1 <= j < n implies #[trigger] z(j) == 0real by {}
            hh_fix(u, s, z, k + 1, n); assert(h(i) == z(i)); assert(z(i) == t0.at(c, i));
            if i == c { assert(w1.at(c, c) == w0.at(c, c)); }
            if i + 1 == c { assert(o1(i) == o0(i)); } if c + 1 == i { assert(o1(c) == o0(c)); }
        } else if c == k {
            let x = col(w0, k);
            assert forall|j: int| #![trigger z(j)] #![trigger x(j)] k + 1 <= j < n implies z(j) == x(j) by { assert(z(j) == t0.at(k, j)); assert(w0.at(k, j) == w0.at(j, k)); }
            dot_ext1(u, z, u, x, k + 1, n);
            if i >= k + 1 { assert(z(i) == x(i)); assert(hh(u, s, x, k + 1, n)(i) == rd(i)); }
            else { assert(z(i) == t0.at(k, i)); if i == k { assert(w1.at(k, k) == w0.at(k, k)); } if i + 1 == k { assert(o1(i) == o0(i)); } }
        } else {
            if i < k { assert(z(i) == t0.at(c, i)); }
            else if i > k { both_hh(u, s, w0, k + 1, z, c, i); assert(w1.at(c, i) == both(u, w0, k + 1, c, i)); }
        }
    }
}
pub proof fn tri_step(w0: M, o0: V, w1: M, o1: V, k: int, a: M)
    requires tri_part(w0, o0, k, a), tri_stepped(w0, w1, o1(k), k), samev(o0, o1, k), 0 <= k, k + 1 < a.nr
    ensures tri_part(w1, o1, k + 1, a)
{
    let n = w0.nr; let (u, s) = (col(w1, k), sgv(o1)(k)); let t0 = tmat(w0, o0, k); let t1 = tmat(w1, o1, k + 1); let md = tmid(w0, o0, u, s, k);
    let (g0, g1) = (sgv(o0), sgv(o1));
    assert forall|m: int| 0 <= m < k implies #[trigger] ax_eq(w1, g1, w0, g0, 1, m) by {
        assert(o1(m) == o0(m)); let (p, q) = (col(w1, m), col(w0, m));
        assert forall|i: int| #![trigger p(i)] #![trigger q(i)] m + 1 <= i < n implies p(i) == q(i) by { assert(w1.at(i, m) == w0.at(i, m)); }
    }
    assert(ax_ok(w1, g1, 1, k));
    assert forall|c: int| 0 <= c < n implies #[trigger] colref(md, t0, u, s, k + 1, n, c) by {
        let (x, y) = (col(md, c), hh(u, s, col(t0, c), k + 1, n));
        assert forall|i: int| #![trigger x(i)] #![trigger y(i)] 0 <= i < n implies x(i) == y(i) by {}
    }
    side_step(w0, g0, w1, g1, 1, k, t0, md);
    assert forall|c: int| 0 <= c < n implies #[trigger] colref(tr(t1), tr(md), u, s, k + 1, n, c) by { tri_step_row(w0, o0, w1, o1, k, c); }
    side_step(w0, g0, w1, g1, 1, k, tr(md), tr(t1));
    let (q0, q1) = (qmat(w0, g0, 1, k, n), qmat(w1, g1, 1, k + 1, n));
    assert(same(q0, q0)); assert(same(q1, q1));
    two_left(q1, md, q0, t0, q0, q0);
    two_right(q1, q1, t1, q1, md, q0);
    same_trans(two(q1, t1, q1), two(q1, md, q0), two(q0, t0, q0));
    same_trans(two(q1, t1, q1), two(q0, t0, q0), a);
    assert forall|i: int, j: int| k + 1 <= i < n && k + 1 <= j < n implies #[trigger] w1.at(i, j) == w1.at(j, i) by {
        let p = pv(u, w0, k + 1); let d = dot(u, p, k + 1, n);
        assert(w1.at(i, j) == both(u, w0, k + 1, i, j)); assert(w1.at(j, i) == both(u, w0, k + 1, j, i)); assert(w0.at(i, j) == w0.at(j, i));
        let (pi, pj, ui, uj) = (p(i), p(j), u(i), u(j));
        assert(pi * uj == uj * pi) by (nonlinear_arith); assert(ui * pj == pj * ui) by (nonlinear_arith); assert(ui * uj == uj * ui) by (nonlinear_arith);
    }
}
pub open spec fn tri_shape(w: M, o: M) -> bool { sq(w) && w.nr >= 1 && o.nr == w.nr - 1 }
pub proof fn tri_mm1(x: M, y: M, a: int, b: int) requires x.nc == 1 ensures mm(x, tr(y)).at(a, b) == x.at(a, 0) * y.at(b, 0)
{ assert(dot(row(x, a), col(tr(y), b), 0, 1) == dot(row(x, a), col(tr(y), b), 0, 0) + row(x, a)(0) * col(tr(y), b)(0)); }
pub proof fn tri_outer(m: real, d: real, pa: real, pb: real, ua: real, ub: real)
    ensures (d + d) * (ua * ub) + 1real * (-1real * (ua * pb) + 1real * (-1real * (pa * ub) + 1real * m)) == ((m - pa * ub) - ua * pb) + (d + d) * (ua * ub) {}
pub open spec fn tdm(w: M, o: V) -> M { M { nr: w.nr, nc: w.nc, f: |i: int, j: int| if i == j { w.at(i, i) } else if i == j + 1 { rabs(o(j)) } else if j == i + 1 { rabs(o(i)) } else { 0real } } }
pub open spec fn tri_of(w: M, o: V, a: M) -> bool { a.nr >= 1 && tri_part(w, o, a.nr - 1, a) }
pub open spec fn is_tridiag(a: M, q: M, t: M) -> bool { shape(q, a) && shape(t, a) && orth(q) && same(two(q, t, q), a) }
pub proof fn tri_main(w: M, o: V, a: M) requires tri_of(w, o, a) ensures is_tridiag(a, qm(w, o, 1), tdm(w, o))
{
    let n = a.nr; let q = qmat(w, sgv(o), 1, n - 1, n); let (t, x) = (tdm(w, o), tmat(w, o, n - 1));
    qmat_orth(w, sgv(o), 1, n - 1, n);
    assert(same(t, x)); assert(same(q, q));
    mm_ext(q, t, q, x); mm_ext(mm(q, t), tr(q), mm(q, x), tr(q));
    same_trans(two(q, t, q), two(q, x, q), a);
    assert(q == qm(w, o, 1));
}

// ---- plane rotations ----------------------------------------------------------------------------------------
pub open spec fn unit2(c: real, s: real) -> bool { c * c + s * s == 1real }
pub proof fn unit2_ok(x: real, y: real, r: real) requires r > 0real, r * r == x * x + y * y ensures unit2(x / r, y / r), (x / r) * r == x, (y / r) * r == y
{
    div_cancel(x, r); div_cancel(y, r);
    let (c, s) = (x / r, y / r);
    let k = r * r;
    assert(x * x == (c * c) * k) by (nonlinear_arith) requires x == c * r, k == r * r;
    assert(y * y == (s * s) * k) by (nonlinear_arith) requires y == s * r, k == r * r;
    assert(k > 0real) by (nonlinear_arith) requires r > 0real, k == r * r;
    let t = c * c + s * s;
    assert(t * k == (c * c) * k + (s * s) * k) by (nonlinear_arith) requires t == c * c + s * s;
    assert(t == 1real) by (nonlinear_arith) requires t * k == k, k > 0real;
}
pub proof fn givens_ok(x: real, y: real, r: real) requires r >= 0real, y != 0real, r * r == x * x + y * y
    ensures r > 0real, unit2(x / r, (-y) / r), (x / r) * r == x, ((-y) / r) * r == -y, (x / r) * x - ((-y) / r) * y == r, ((-y) / r) * x + (x / r) * y == 0real
{
    sqr_pos(x); sqr_pos(y);
    if r == 0real { assert(r * r == 0real) by (nonlinear_arith) requires r == 0real; }
    let z = -y;
    assert(z * z == y * y) by (nonlinear_arith) requires z == -y;
    unit2_ok(x, z, r);
    let (c, s) = (x / r, z / r);
    let t = c * x - s * y;
    assert(t * r == x * x + y * y) by (nonlinear_arith) requires t == c * x - s * y, c * r == x, s * r == -y;
    assert(t == r) by (nonlinear_arith) requires t * r == r * r, r > 0real;
    let q = s * x + c * y;
    assert(q * r == 0real) by (nonlinear_arith) requires q == s * x + c * y, c * r == x, s * r == -y;
    assert(q == 0real) by (nonlinear_arith) requires q * r == 0real, r > 0real;
}
/// m1 = m0 * [[c, -s], [s, c]]
pub open spec fn rot_rows(m0: M, m1: M, c: real, s: real) -> bool {
    forall|r: int| #![trigger m1.at(r, 0)] #![trigger m1.at(r, 1)] 0 <= r < m0.nr ==> m1.at(r, 0) == m0.at(r, 0) * c + s * m0.at(r, 1) && m1.at(r, 1) == -s * m0.at(r, 0) + m0.at(r, 1) * c
}

/// m1 = [[c, s], [-s, c]] * m0
pub open spec fn rot_cols(m0: M, m1: M, c: real, s: real) -> bool {
    forall|r: int| #![trigger m1.at(0, r)] #![trigger m1.at(1, r)] 0 <= r < m0.nc ==> m1.at(0, r) == m0.at(0, r) * c + s * m0.at(1, r) && m1.at(1, r) == -s * m0.at(0, r) + m0.at(1, r) * c
}
pub proof fn rot_cols_tr(m0: M, m1: M, c: real, s: real) requires rot_rows(tr(m0), tr(m1), c, s) ensures rot_cols(m0, m1, c, s)
{ assert forall|r: int| #![trigger m1.at(0, r)] #![trigger m1.at(1, r)] 0 <= r < m0.nc implies m1.at(0, r) == m0.at(0, r) * c + s * m0.at(1, r) && m1.at(1, r) == -s * m0.at(0, r) + m0.at(1, r) * c by { assert(tr(m1).at(r, 0) == m1.at(0, r)); assert(tr(m1).at(r, 1) == m1.at(1, r)); assert(tr(m0).at(r, 0) == m0.at(0, r) && tr(m0).at(r, 1) == m0.at(1, r)); } }
// ---- symmetric eigenvalue iteration ---------------------------------------------------------------------------
pub axiom fn axiom_sqrt(x: real) requires x >= 0real ensures exists|r: real| #[trigger] is_sqrt(r, x);
pub proof fn dot_lin2(w: V, c: real, x: V, s: real, z: V, y: V, lo: int, hi: int)
    requires forall|k: int| lo <= k < hi ==> #[trigger] w(k) == c * x(k) + s * z(k)
    ensures dot(w, y, lo, hi) == c * dot(x, y, lo, hi) + s * dot(z, y, lo, hi)
{
    let x2 = |k: int| c * x(k);
    dot_scale(x2, c, x, y, lo, hi);
    dot_axpy(w, x2, s, z, y, lo, hi);
}
pub proof fn mul_pair(k: real, l: real, a: real, b: real, kl: real, ab: real) requires kl == k * l, ab == a * b ensures (k * a) * (l * b) == kl * ab, (k * b) * (l * a) == kl * ab
{
    assert((k * a) * (l * b) == (k * l) * (a * b)) by (nonlinear_arith);
    assert((k * b) * (l * a) == (k * l) * (a * b)) by (nonlinear_arith);
}
pub open spec fn rotv(x: V, i: int, c: real, s: real) -> V { |k: int| if k == i { c * x(i) + s * x(i + 1) } else if k == i + 1 { c * x(i + 1) - s * x(i) } else { x(k) } }
/// m * G, where G rotates columns i and i + 1
pub open spec fn rotc(m: M, i: int, c: real, s: real) -> M { M { nr: m.nr, nc: m.nc, f: |r: int, k: int| rotv(row(m, r), i, c, s)(k) } }
/// G^T * m * G
pub open spec fn simx(m: M, i: int, c: real, s: real) -> M { tr(rotc(tr(rotc(m, i, c, s)), i, c, s)) }
pub proof fn mul_sums(p: real, q: real, r: real, t: real) ensures (p + q) * (r + t) == p * r + p * t + q * r + q * t, (p - q) * (r - t) == p * r - p * t - q * r + q * t
{ assert((p + q) * (r + t) == p * r + p * t + q * r + q * t) by (nonlinear_arith); assert((p - q) * (r - t) == p * r - p * t - q * r + q * t) by (nonlinear_arith); }
pub proof fn rot_alg(a: real, b: real, d: real, e: real, c: real, s: real) requires unit2(c, s) ensures (c * a + s * b) * (c * d + s * e) + (c * b - s * a) * (c * e - s * d) == a * d + b * e
{
    let (cc, ss, cs) = (c * c, s * s, c * s);
    let (ad, ae, bd, be) = (a * d, a * e, b * d, b * e);
    assert(s * c == cs) by (nonlinear_arith) requires cs == c * s;
    mul_sums(c * a, s * b, c * d, s * e); mul_sums(c * b, s * a, c * e, s * d);
    mul_pair(c, c, a, d, cc, ad); mul_pair(c, s, a, e, cs, ae); mul_pair(s, c, b, d, cs, bd); mul_pair(s, s, b, e, ss, be);
    mul_pair(c, c, b, e, cc, be); mul_pair(c, s, b, d, cs, bd); mul_pair(s, c, a, e, cs, ae); mul_pair(s, s, a, d, ss, ad);
    assert(cc * ad + ss * ad == ad) by (nonlinear_arith) requires cc + ss == 1real;
    assert(cc * be + ss * be == be) by (nonlinear_arith) requires cc + ss == 1real;
}
pub proof fn dot_pair(x: V, y: V, i: int, n: int) requires 0 <= i, i + 1 < n ensures dot(x, y, 0, n) == dot(x, y, 0, i) + (x(i) * y(i) + x(i + 1) * y(i + 1)) + dot(x, y, i + 2, n)
{ dot_split(x, y, 0, i, n); dot_split(x, y, i, i + 2, n); reveal_with_fuel(dot, 3); }
pub proof fn rot_iso(x: V, y: V, i: int, c: real, s: real, n: int) requires 0 <= i, i + 1 < n, unit2(c, s) ensures dot(rotv(x, i, c, s), rotv(y, i, c, s), 0, n) == dot(x, y, 0, n)
{
    let (x1, y1) = (rotv(x, i, c, s), rotv(y, i, c, s));
    dot_pair(x, y, i, n); dot_pair(x1, y1, i, n);
    dot_ext1(x1, y1, x, y, 0, i); dot_ext1(x1, y1, x, y, i + 2, n);
    rot_alg(x(i), x(i + 1), y(i), y(i + 1), c, s);
}
pub proof fn rot_cancel(q: M, x: M, i: int, c: real, s: real) requires q.nc == x.nr, 0 <= i, i + 1 < q.nc, unit2(c, s) ensures same(mm(rotc(q, i, c, s), tr(rotc(tr(x), i, c, s))), mm(q, x))
{
    let (q1, x1) = (rotc(q, i, c, s), tr(rotc(tr(x), i, c, s)));
    assert forall|r: int, j: int| 0 <= r < q.nr && 0 <= j < x.nc implies #[trigger] mm(q1, x1).at(r, j) == mm(q, x).at(r, j) by {
        assert(row(q1, r) =~= rotv(row(q, r), i, c, s)); assert(col(x1, j) =~= rotv(col(x, j), i, c, s)) by { assert(row(tr(x), j) =~= col(x, j)); }
        rot_iso(row(q, r), col(x, j), i, c, s, q.nc);
    }
}
pub proof fn rot_sim(q: M, x: M, i: int, c: real, s: real) requires sq(x), q.nc == x.nr, 0 <= i, i + 1 < q.nc, unit2(c, s) ensures same(two(rotc(q, i, c, s), simx(x, i, c, s), rotc(q, i, c, s)), two(q, x, q))
{
    tr_tr();
    let (q1, y, x1) = (rotc(q, i, c, s), rotc(x, i, c, s), simx(x, i, c, s));
    rot_cancel(q, y, i, c, s);
    assert(same(q1, q1)); assert(same(q, q));
    two_left(q1, x1, q, y, q1, q1);
    rot_cancel(q, tr(x), i, c, s);
    two_right(q, q, y, q1, x, q);
    same_trans(two(q1, x1, q1), two(q, y, q1), two(q, x, q));
}
pub open spec fn gram(q: M, y: V) -> V { |k: int| dot(col(q, k), y, 0, q.nr) }
pub proof fn rot_gram(q: M, y: V, i: int, c: real, s: real, k: int) ensures gram(rotc(q, i, c, s), y)(k) == rotv(gram(q, y), i, c, s)(k)
{
    let q1 = rotc(q, i, c, s); let (a, b) = (col(q, i), col(q, i + 1));
    if k == i { dot_lin2(col(q1, k), c, a, s, b, y, 0, q.nr); }
    else if k == i + 1 { let t = -s; assert forall|r: int| 0 <= r < q.nr implies #[trigger] col(q1, k)(r) == c * b(r) + t * a(r) by { let z = a(r); assert(t * z == -(s * z)) by (nonlinear_arith) requires t == -s; } dot_lin2(col(q1, k), c, b, t, a, y, 0, q.nr); let z = dot(a, y, 0, q.nr); assert(t * z == -(s * z)) by (nonlinear_arith) requires t == -s; }
    else { assert(col(q1, k) =~= col(q, k)); }
}
pub proof fn rot_orth(q: M, i: int, c: real, s: real) requires orth(q), 0 <= i, i + 1 < q.nc, unit2(c, s) ensures orth(rotc(q, i, c, s))
{
    let q1 = rotc(q, i, c, s); let n = q.nc;
    tr_col();
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] mm(tr(q1), q1).at(a, b) == ident(n, n).at(a, b) by {
        let y = col(q1, b); let g = gram(q, y);
        rot_gram(q, y, i, c, s, a);
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == rotv(unitv(k), i, c, s)(b) by {
            let z = col(q, k);
            dot_comm(z, y, 0, q.nr); rot_gram(q, z, i, c, s, b);
            assert forall|j: int| 0 <= j < n implies #[trigger] gram(q, z)(j) == unitv(k)(j) by { assert(mm(tr(q), q).at(j, k) == ident(n, n).at(j, k)); }
            assert(gram(q, z)(b) == unitv(k)(b)); assert(gram(q, z)(i) == unitv(k)(i)); assert(gram(q, z)(i + 1) == unitv(k)(i + 1));
        }
        assert(mm(tr(q1), q1).at(a, b) == gram(q1, y)(a));
        let (gi, gj) = (g(i), g(i + 1));
        assert(g(a) == rotv(unitv(a), i, c, s)(b));
        assert(gi == rotv(unitv(i), i, c, s)(b)); assert(gj == rotv(unitv(i + 1), i, c, s)(b));
        let t = -s;
        assert(c * 0real == 0real) by (nonlinear_arith); assert(s * 0real == 0real) by (nonlinear_arith);
        assert(c * 1real == c) by (nonlinear_arith); assert(s * 1real == s) by (nonlinear_arith);
        assert(s * t == -(s * s)) by (nonlinear_arith) requires t == -s; assert(c * t == -(s * c)) by (nonlinear_arith) requires t == -s;
        assert(c * s == s * c) by (nonlinear_arith);
    }
}
/// the symmetric tridiagonal matrix of d and o (couplings from e on are taken to be zero), with by at (bi, bi + 2)
pub open spec fn tb(d: V, o: V, e: int, n: int, bi: int, by: real) -> M {
    M { nr: n, nc: n, f: |i: int, j: int| if i == j { d(i) } else if i == j + 1 { if j < e { o(j) } else { 0real } } else if j == i + 1 { if i < e { o(i) } else { 0real } } else if (i == bi && j == bi + 2) || (j == bi && i == bi + 2) { by } else { 0real } }
}
pub open spec fn gm(x: M, i: int, c: real, s: real, p: int, q: int) -> real { if q == i { c * x.at(p, i) + s * x.at(p, i + 1) } else if q == i + 1 { c * x.at(p, i + 1) - s * x.at(p, i) } else { x.at(p, q) } }
pub proof fn simx_at(x: M, i: int, c: real, s: real, p: int, q: int)
    ensures simx(x, i, c, s).at(p, q) == (if p == i { c * gm(x, i, c, s, i, q) + s * gm(x, i, c, s, i + 1, q) } else if p == i + 1 { c * gm(x, i, c, s, i + 1, q) - s * gm(x, i, c, s, i, q) } else { gm(x, i, c, s, p, q) })
{ let y = rotc(x, i, c, s); assert(y.at(i, q) == gm(x, i, c, s, i, q)); assert(y.at(i + 1, q) == gm(x, i, c, s, i + 1, q)); assert(y.at(p, q) == gm(x, i, c, s, p, q)); }
/// the four entries of G^T [[a, o], [o, b]] G
pub proof fn sim2(a: real, o: real, b: real, c: real, s: real)
    ensures c * (c * a + s * o) + s * (c * o + s * b) == c * c * a + s * s * b + 2real * (c * s * o),
        c * (c * o - s * a) + s * (c * b - s * o) == c * s * (b - a) + o * (c * c - s * s),
        c * (c * o + s * b) - s * (c * a + s * o) == c * s * (b - a) + o * (c * c - s * s),
        c * (c * b - s * o) - s * (c * o - s * a) == s * s * a + c * c * b - 2real * (c * s * o),
{
    let (cc, ss, cs) = (c * c, s * s, c * s);
    assert(c * (c * a + s * o) == cc * a + cs * o) by (nonlinear_arith) requires cc == c * c, cs == c * s;
    assert(s * (c * o + s * b) == cs * o + ss * b) by (nonlinear_arith) requires ss == s * s, cs == c * s;
    assert(c * (c * o - s * a) == cc * o - cs * a) by (nonlinear_arith) requires cc == c * c, cs == c * s;
    assert(s * (c * b - s * o) == cs * b - ss * o) by (nonlinear_arith) requires ss == s * s, cs == c * s;
    assert(c * (c * o + s * b) == cc * o + cs * b) by (nonlinear_arith) requires cc == c * c, cs == c * s;
    assert(s * (c * a + s * o) == cs * a + ss * o) by (nonlinear_arith) requires ss == s * s, cs == c * s;
    assert(c * (c * b - s * o) == cc * b - cs * o) by (nonlinear_arith) requires cc == c * c, cs == c * s;
    assert(s * (c * o - s * a) == cs * o - ss * a) by (nonlinear_arith) requires ss == s * s, cs == c * s;
    assert(cs * (b - a) == cs * b - cs * a) by (nonlinear_arith);
    assert(o * (cc - ss) == cc * o - ss * o) by (nonlinear_arith);
}
/// what one rotation of the bulge chase does to the stored diagonals
pub open spec fn chased(d0: V, o0: V, d1: V, o1: V, e: int, n: int, i: int, c: real, s: real, by0: real, by1: real) -> bool {
    0 <= i < e < n && unit2(c, s)
    && (i > 0 ==> s * o0(i - 1) + c * by0 == 0real && o1(i - 1) == c * o0(i - 1) - s * by0)
    && d1(i) == c * c * d0(i) + s * s * d0(i + 1) - 2real * (c * s * o0(i))
    && d1(i + 1) == s * s * d0(i) + c * c * d0(i + 1) + 2real * (c * s * o0(i))
    && o1(i) == c * s * (d0(i) - d0(i + 1)) + o0(i) * (c * c - s * s)
    && (if i + 1 < e { o1(i + 1) == o0(i + 1) * c && by1 == -s * o0(i + 1) } else { by1 == 0real })
    && (forall|k: int| #![trigger d1(k)] 0 <= k < n && k != i && k != i + 1 ==> d1(k) == d0(k))
    && (forall|k: int| #![trigger o1(k)] 0 <= k < e && k != i - 1 && k != i && k != i + 1 ==> o1(k) == o0(k))
}
pub proof fn chase_step(d0: V, o0: V, d1: V, o1: V, e: int, n: int, i: int, c: real, s: real, by0: real, by1: real)
    requires chased(d0, o0, d1, o1, e, n, i, c, s, by0, by1)
    ensures same(tb(d1, o1, e, n, i, by1), simx(tb(d0, o0, e, n, i - 1, by0), i, c, -s))
{
    let t = -s; let x = tb(d0, o0, e, n, i - 1, by0); let y = tb(d1, o1, e, n, i, by1); let z = simx(x, i, c, t);
    let (a, o, b) = (d0(i), o0(i), d0(i + 1));
    sim2(a, o, b, c, t);
    assert(t * t == s * s) by (nonlinear_arith) requires t == -s;
    let (cs, ct) = (c * s, c * t);
    assert(ct == -cs) by (nonlinear_arith) requires t == -s, cs == c * s, ct == c * t;
    assert(ct * o == -(cs * o)) by (nonlinear_arith) requires ct == -cs;
    assert(ct * (b - a) == cs * (a - b)) by (nonlinear_arith) requires ct == -cs;
    assert(s * s * a == t * t * a); assert(s * s * b == t * t * b);
    assert(c * 0real == 0real) by (nonlinear_arith); assert(t * 0real == 0real) by (nonlinear_arith);
    assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n implies #[trigger] y.at(p, q) == z.at(p, q) by {
        simx_at(x, i, c, t, p, q);
        let (pin, qin) = (p == i || p == i + 1, q == i || q == i + 1);
        if pin && qin {
        } else if pin || qin {
            let m = if pin { q } else { p };
            assert(z.at(p, q) == (if p == i || q == i { c * x.at(i, m) + t * x.at(i + 1, m) } else { c * x.at(i + 1, m) - t * x.at(i, m) }));
            if m == i - 1 {
                let (u, w) = (o0(i - 1), by0);
                assert(x.at(i, m) == u); assert(x.at(i + 1, m) == w);
                assert(t * w == -(s * w)) by (nonlinear_arith) requires t == -s; assert(t * u == -(s * u)) by (nonlinear_arith) requires t == -s;
            } else if m == i + 2 {
                let u = if i + 1 < e { o0(i + 1) } else { 0real };
                assert(x.at(i, m) == 0real); assert(x.at(i + 1, m) == u);
                assert(c * u == u * c) by (nonlinear_arith);
            } else {
                assert(x.at(i, m) == 0real); assert(x.at(i + 1, m) == 0real);
            }
        } else { assert(z.at(p, q) == x.at(p, q)); }
    }
}
/// the decoupled 2x2 block at i is diagonalised by the unit eigenvector (c, s)
pub proof fn block_step(d0: V, o0: V, d1: V, o1: V, e: int, n: int, i: int, c: real, s: real)
    requires 0 <= i, i + 1 == e < n, unit2(c, s), i > 0 ==> o0(i - 1) == 0real,
        d0(i) * c + o0(i) * s == d1(i) * c, o0(i) * c + d0(i + 1) * s == d1(i) * s, d1(i) + d1(i + 1) == d0(i) + d0(i + 1),
        forall|k: int| #![trigger d1(k)] 0 <= k < n && k != i && k != i + 1 ==> d1(k) == d0(k), forall|k: int| #![trigger o1(k)] 0 <= k < i ==> o1(k) == o0(k)
    ensures same(tb(d1, o1, i, n, -2, 0real), simx(tb(d0, o0, e, n, -2, 0real), i, c, s))
{
    let x = tb(d0, o0, e, n, -2, 0real); let y = tb(d1, o1, i, n, -2, 0real); let z = simx(x, i, c, s);
    let (a, o, b, l1, l2) = (d0(i), o0(i), d0(i + 1), d1(i), d1(i + 1));
    sim2(a, o, b, c, s);
    let (p, q) = (c * a + s * o, c * o + s * b);
    assert(p == c * l1) by (nonlinear_arith) requires a * c + o * s == l1 * c, p == c * a + s * o;
    assert(q == s * l1) by (nonlinear_arith) requires o * c + b * s == l1 * s, q == c * o + s * b;
    let (cc, ss, cs) = (c * c, s * s, c * s);
    assert(c * p == cc * l1) by (nonlinear_arith) requires p == c * l1, cc == c * c;
    assert(s * q == ss * l1) by (nonlinear_arith) requires q == s * l1, ss == s * s;
    assert(cc * l1 + ss * l1 == l1) by (nonlinear_arith) requires cc + ss == 1real;
    assert(c * q == cs * l1) by (nonlinear_arith) requires q == s * l1, cs == c * s;
    assert(s * p == cs * l1) by (nonlinear_arith) requires p == c * l1, cs == c * s;
    let (r1, r2) = (c * (c * a + s * o) + s * (c * o + s * b), c * (c * b - s * o) - s * (c * o - s * a));
    assert(r1 == c * p + s * q);
    assert(c * (c * o + s * b) - s * (c * a + s * o) == 0real);
    assert(cc * a + ss * a == a) by (nonlinear_arith) requires cc + ss == 1real;
    assert(cc * b + ss * b == b) by (nonlinear_arith) requires cc + ss == 1real;
    assert(r1 + r2 == a + b);
    assert(c * 0real == 0real) by (nonlinear_arith); assert(s * 0real == 0real) by (nonlinear_arith);
    assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n implies #[trigger] y.at(p, q) == z.at(p, q) by {
        simx_at(x, i, c, s, p, q);
        let (pin, qin) = (p == i || p == i + 1, q == i || q == i + 1);
        if pin && qin {
        } else if pin || qin {
            let m = if pin { q } else { p };
            assert(x.at(i, m) == 0real); assert(x.at(i + 1, m) == 0real);
        } else { assert(z.at(p, q) == x.at(p, q)); }
    }
}
pub proof fn step_on(q: M, q1: M, x: M, x1: M, a: M, i: int, c: real, s: real)
    requires sq(x), shape(x, q), shape(x1, x), 0 <= i, i + 1 < q.nc, unit2(c, s), orth(q), same(two(q, x, q), a), same(x1, simx(x, i, c, s)), same(q1, rotc(q, i, c, s))
    ensures orth(q1), same(two(q1, x1, q1), a)
{
    rot_sim(q, x, i, c, s); rot_orth(q, i, c, s);
    let (r, y) = (rotc(q, i, c, s), simx(x, i, c, s));
    mm_ext(q1, x1, r, y); two_left(q1, x1, r, y, q1, r);
    same_trans(two(q1, x1, q1), two(r, y, r), two(q, x, q)); same_trans(two(q1, x1, q1), two(q, x, q), a);
    same_tr(q1, r); mm_ext(tr(q1), q1, tr(r), r); same_trans(mm(tr(q1), q1), mm(tr(r), r), ident(q.nc, q.nc));
}
pub open spec fn eig_at(a: M, w: V, q: M, r: int, j: int) -> bool { dot(row(a, r), col(q, j), 0, a.nc) == w(j) * q.at(r, j) }
/// a q = q diag(w) with q orthogonal
pub open spec fn is_eig(a: M, w: V, q: M) -> bool { sq(a) && shape(q, a) && orth(q) && forall|r: int, j: int| inb(a, r, j) ==> #[trigger] eig_at(a, w, q, r, j) }
pub proof fn eig_main(a: M, d: V, o: V, q: M, a0: M, k: real, w: V)
    requires sq(a), shape(q, a), orth(q), a.nr >= 0, shape(a0, a), same(two(q, tb(d, o, 0, a.nr, -2, 0real), q), a), forall|i: int, j: int| inb(a0, i, j) ==> #[trigger] a0.at(i, j) == a.at(i, j) * k, forall|j: int| 0 <= j < a.nr ==> #[trigger] w(j) == d(j) * k
    ensures is_eig(a0, w, q)
{
    let n = a.nr; let x = tb(d, o, 0, n, -2, 0real); let id = ident(n, n); let qx = mm(q, x);
    assert(same(q, q));
    mm_ext(two(q, x, q), q, a, q);
    mm_assoc(qx, tr(q), q);
    assert(same(qx, qx));
    mm_ext(qx, mm(tr(q), q), qx, id); mm_ident_r(qx, n);
    assert forall|r: int, j: int| inb(a0, r, j) implies #[trigger] eig_at(a0, w, q, r, j) by {
        assert(mm(two(q, x, q), q).at(r, j) == mm(a, q).at(r, j));
        assert(mm(two(q, x, q), q).at(r, j) == mm(qx, mm(tr(q), q)).at(r, j));
        assert(mm(qx, mm(tr(q), q)).at(r, j) == mm(qx, id).at(r, j));
        assert(mm(qx, id).at(r, j) == qx.at(r, j));
        let (u, v) = (col(x, j), row(q, r));
        unit_sum(u, v, j, n); dot_comm(u, v, 0, n);
        assert(mm(a, q).at(r, j) == d(j) * q.at(r, j));
        assert forall|t: int| 0 <= t < n implies #[trigger] row(a0, r)(t) == k * row(a, r)(t) by { assert(a0.at(r, t) == a.at(r, t) * k); let g = a.at(r, t); assert(g * k == k * g) by (nonlinear_arith); }
        dot_scale(row(a0, r), k, row(a, r), col(q, j), 0, n);
        let (g, h) = (d(j), q.at(r, j));
        assert(k * (g * h) == (g * k) * h) by (nonlinear_arith);
    }
}
/// the intermediate values of a running maximum of absolute values
pub open spec fn fold_up(acc: Seq<Fl>, s: Seq<real>, r: Fl) -> bool {
    acc.len() == s.len() + 1 && acc[s.len() as int] == r && forall|k: int| 0 <= k < s.len() ==> acc[k + 1].v() >= rabs(#[trigger] s[k]) && acc[k + 1].v() >= acc[k].v()
}
pub open spec fn bounded(s: Seq<real>, r: real) -> bool { forall|k: int| 0 <= k < s.len() ==> rabs(#[trigger] s[k]) <= r }
pub proof fn up_ok(acc: Seq<Fl>, s: Seq<real>, r: Fl, k: int, t: int) requires fold_up(acc, s, r), 0 <= k < t <= s.len() ensures rabs(s[k]) <= acc[t].v() decreases t
{ let v = s[t - 1]; if k < t - 1 { up_ok(acc, s, r, k, t - 1); } }
pub proof fn up_all(acc: Seq<Fl>, s: Seq<real>, r: Fl) requires fold_up(acc, s, r) ensures bounded(s, r.v())
{ assert forall|k: int| 0 <= k < s.len() implies rabs(#[trigger] s[k]) <= r.v() by { up_ok(acc, s, r, k, s.len() as int); } }
pub proof fn el_idx(i: int, j: int, nr: int, nc: int) requires 0 <= i < nr, 0 <= j < nc ensures 0 <= i * nc + j < nr * nc
{ assert(i * nc <= (nr - 1) * nc) by (nonlinear_arith) requires i <= nr - 1, nc >= 0; assert((nr - 1) * nc == nr * nc - nc) by (nonlinear_arith); assert(i * nc >= 0) by (nonlinear_arith) requires i >= 0, nc >= 0; }
/// a0 = k a1 where k bounds the elements of a0 and a1 is a0 / k unless k is zero
pub proof fn scaled(a0: M, a1: M, el: Seq<real>, k: real)
    requires bounded(el, k), el.len() == a0.nr * a0.nc, forall|i: int, j: int| inb(a0, i, j) ==> #[trigger] a0.at(i, j) == el[i * a0.nc + j], shape(a0, a1), k != 0real ==> a1 == divs(a0, k)
    ensures forall|i: int, j: int| inb(a0, i, j) ==> #[trigger] a0.at(i, j) == a1.at(i, j) * k, same(tr(a0), a0) && (k == 0real ==> a1 == a0) ==> same(tr(a1), a1)
{
    assert forall|i: int, j: int| inb(a0, i, j) implies #[trigger] a0.at(i, j) == a1.at(i, j) * k by {
        let x = a0.at(i, j);
        if k != 0real { div_cancel(x, k); } else { el_idx(i, j, a0.nr, a0.nc); assert(rabs(el[i * a0.nc + j]) <= 0real); let y = a1.at(i, j); assert(y * 0real == 0real) by (nonlinear_arith); }
    }
    if same(tr(a0), a0) && (k == 0real ==> a1 == a0) { assert forall|i: int, j: int| inb(a1, i, j) implies #[trigger] tr(a1).at(i, j) == a1.at(i, j) by { assert(tr(a0).at(i, j) == a0.at(i, j)); } }
}
/// the off-diagonal entries from e1 on vanish
pub proof fn tb_cut(d: V, o0: V, o1: V, e: int, e1: int, n: int)
    requires 0 <= e1 <= e < n, forall|k: int| #![trigger o1(k)] 0 <= k < e ==> o1(k) == o0(k), forall|k: int| #![trigger o1(k)] e1 <= k < e ==> o1(k) == 0real
    ensures same(tb(d, o1, e1, n, -2, 0real), tb(d, o0, e, n, -2, 0real))
{
    let (x, y) = (tb(d, o1, e1, n, -2, 0real), tb(d, o0, e, n, -2, 0real));
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] x.at(i, j) == y.at(i, j) by { let k = imin(i, j); if 0 <= k < e { assert(o1(k) == o0(k)); } }
}
pub proof fn two_mid(q: M, x: M, y: M, a: M) requires same(x, y), q.nc == x.nr, sq(x), same(two(q, y, q), a) ensures same(two(q, x, q), a)
{ assert(same(q, q)); mm_ext(q, x, q, y); mm_ext(mm(q, x), tr(q), mm(q, y), tr(q)); same_trans(two(q, x, q), two(q, y, q), a); }
/// columns i and i + 1 rotated, the others kept
pub proof fn rot_in(q0: M, q1: M, i: int, c: real, s: real)
    requires 0 <= i, i + 1 < q0.nc, shape(q1, q0), rot_rows(subm(q0, 0, q0.nr, i, i + 2), subm(q1, 0, q0.nr, i, i + 2), c, s), forall|r: int, j: int| inb(q0, r, j) && j != i && j != i + 1 ==> #[trigger] q1.at(r, j) == q0.at(r, j)
    ensures same(q1, rotc(q0, i, c, s))
{
    let (r, v0, v1) = (rotc(q0, i, c, s), subm(q0, 0, q0.nr, i, i + 2), subm(q1, 0, q0.nr, i, i + 2));
    assert forall|k: int, j: int| 0 <= k < q0.nr && 0 <= j < q0.nc implies #[trigger] q1.at(k, j) == r.at(k, j) by {
        let (a, b) = (q0.at(k, i), q0.at(k, i + 1));
        assert(v0.at(k, 0) == a); assert(v0.at(k, 1) == b);
        if j == i { assert(q1.at(k, j) == v1.at(k, 0)); assert(a * c + s * b == c * a + s * b) by (nonlinear_arith); }
        else if j == i + 1 { assert(q1.at(k, j) == v1.at(k, 1)); assert(-s * a + b * c == c * b - s * a) by (nonlinear_arith); }
    }
}
pub proof fn two_q(q1: M, q: M, x: M, a: M) requires same(q1, q), orth(q), sq(x), q.nc == x.nr, same(two(q, x, q), a) ensures orth(q1), same(two(q1, x, q1), a)
{
    assert(same(x, x)); mm_ext(q1, x, q, x); two_left(q1, x, q, x, q1, q); same_trans(two(q1, x, q1), two(q, x, q), a);
    same_tr(q1, q); mm_ext(tr(q1), q1, tr(q), q); same_trans(mm(tr(q1), q1), mm(tr(q), q), ident(q.nc, q.nc));
}
/// q T q^T = a, q orthogonal, T tridiagonal with couplings up to e only
pub open spec fn eig_part(q: M, d: V, o: V, e: int, a: M) -> bool { orth(q) && shape(q, a) && same(two(q, tb(d, o, e, a.nr, -2, 0real), q), a) }
/// (c, s) is the unit vector along the eigenvector (x, y) of [[a, o], [o, b]] for l
pub proof fn eig2_ok(a: real, o: real, b: real, l: real, x: real, y: real, c: real, s: real, n: real)
    requires n > 0real, c * n == x, s * n == y, (l - a) * (l - b) == o * o, (x == l - b && y == o) || (x == o && y == l - a)
    ensures a * c + o * s == l * c, o * c + b * s == l * s
{
    let (u, w) = (a * c + o * s - l * c, o * c + b * s - l * s);
    mul_in(a, c, n, x); mul_in(o, s, n, y); mul_in(l, c, n, x); mul_in(o, c, n, x); mul_in(b, s, n, y); mul_in(l, s, n, y);
    mul_sum3(a * c, o * s, l * c, n); mul_sum3(o * c, b * s, l * s, n);
    let (p, q) = (l - a, l - b);
    assert(p * x == l * x - a * x) by (nonlinear_arith) requires p == l - a;
    assert(q * y == l * y - b * y) by (nonlinear_arith) requires q == l - b;
    if x == q && y == o { assert(p * x == o * y); assert(o * x == q * y) by (nonlinear_arith) requires x == q, y == o; }
    else { assert(p * q == q * p) by (nonlinear_arith); assert(o * x == q * y); assert(p * x == o * y) by (nonlinear_arith) requires x == o, y == p; }
    zero_fac(u, n); zero_fac(w, n);
}
pub proof fn mul_in(a: real, c: real, n: real, x: real) requires c * n == x ensures (a * c) * n == a * x { assert((a * c) * n == a * (c * n)) by (nonlinear_arith); }
pub proof fn mul_sum3(a: real, b: real, c: real, n: real) ensures (a + b - c) * n == a * n + b * n - c * n { assert((a + b - c) * n == a * n + b * n - c * n) by (nonlinear_arith); }
pub proof fn zero_fac(u: real, n: real) requires u * n == 0real, n > 0real ensures u == 0real { assert(u == 0real) by (nonlinear_arith) requires u * n == 0real, n > 0real; }
/// a unit vector along (x, y)
pub proof fn unit_along(x: real, y: real) -> (r: (real, real, real)) requires x != 0real || y != 0real ensures unit2(r.0, r.1), r.2 > 0real, r.0 * r.2 == x, r.1 * r.2 == y
{
    sqr_pos(x); sqr_pos(y);
    axiom_sqrt(x * x + y * y);
    let n = choose|n: real| #[trigger] is_sqrt(n, x * x + y * y);
    if n == 0real { assert(n * n == 0real) by (nonlinear_arith) requires n == 0real; }
    unit2_ok(x, y, n);
    (x / n, y / n, n)
}
/// the two roots of (l - a) (l - b) = p
pub proof fn eigs2(a: real, b: real, p: real)
    ensures ({ let v = (a - b) / 2real; v * v + p >= 0real ==> forall|r: real| #[trigger] is_sqrt(r, p + v * v) ==> ((a + b) / 2real + r - a) * ((a + b) / 2real + r - b) == p && r >= 0real })
{
    let v = (a - b) / 2real;
    assert forall|r: real| #[trigger] is_sqrt(r, p + v * v) implies ((a + b) / 2real + r - a) * ((a + b) / 2real + r - b) == p by {
        let (x, y) = ((a + b) / 2real + r - a, (a + b) / 2real + r - b);
        assert(x == r - v); assert(y == r + v);
        assert(x * y == r * r - v * v) by (nonlinear_arith) requires x == r - v, y == r + v;
    }
}
pub proof fn by_zero(e: real, s: real) requires e == 0real ensures e * s == 0real { }
pub proof fn step_two(t: int) requires t >= 1 ensures (2 * t) / t == 2, forall|x: int| 0 <= x <= t ==> (#[trigger] (x % t) == 0 <==> x == 0 || x == t), 0int / t == 0, t / t == 1, 0int % t == 0, t % t == 0
{
    assert((2 * t) / t == 2 && t / t == 1 && 0int / t == 0 && 0int % t == 0 && t % t == 0) by (nonlinear_arith) requires t >= 1;
    assert forall|x: int| 0 <= x <= t implies (#[trigger] (x % t) == 0 <==> x == 0 || x == t) by { if x < t { vstd::arithmetic::div_mod::lemma_small_mod(x as nat, t as nat); } }
}
// ---- singular value iteration -----------------------------------------------------------------------------------
pub open spec fn svd_shape(a: M, u: Option<crate::ndarray::Array2<Fl>>, s: M, vt: Option<crate::ndarray::Array2<Fl>>, cu: bool, cv: bool) -> bool {
    let n = imin(a.nr, a.nc);
    s.nr == n && s.nc == 1 && (u is Some <==> cu) && (vt is Some <==> cv) && (u matches Some(x) ==> x.m().nr == a.nr && x.m().nc == n) && (vt matches Some(x) ==> x.m().nr == n && x.m().nc == a.nc)
}
pub open spec fn svd_st(a: M, d: M, o: M, u: Option<crate::ndarray::Array2<Fl>>, vt: Option<crate::ndarray::Array2<Fl>>, cu: bool, cv: bool) -> bool { svd_shape(a, u, d, vt, cu, cv) && d.nr >= 1 && o.nr == d.nr - 1 }
pub open spec fn diag_st(d: M, o: M, u: Option<crate::ndarray::Array2<Fl>>, vt: Option<crate::ndarray::Array2<Fl>>) -> bool {
    d.nr >= 1 && o.nr == d.nr - 1 && (u matches Some(x) ==> x.m().nc == d.nr) && (vt matches Some(x) ==> x.m().nr == d.nr)
}
pub open spec fn same_opt(x: Option<crate::ndarray::Array2<Fl>>, y: Option<crate::ndarray::Array2<Fl>>) -> bool { (x is Some <==> y is Some) && (x matches Some(p) ==> y matches Some(q) && shape(p.m(), q.m())) }
F{
/// rotation in the plane of coordinates i < j
pub open spec fn pv2(x: V, i: int, j: int, c: real, s: real) -> V { |k: int| if k == i { c * x(i) + s * x(j) } else if k == j { c * x(j) - s * x(i) } else { x(k) } }
pub open spec fn pc(m: M, i: int, j: int, c: real, s: real) -> M { M { nr: m.nr, nc: m.nc, f: |r: int, k: int| pv2(row(m, r), i, j, c, s)(k) } }
pub open spec fn plane(i: int, j: int, n: int) -> bool { 0 <= i < j < n }
pub proof fn dot_pair2(x: V, y: V, i: int, j: int, n: int) requires plane(i, j, n) ensures dot(x, y, 0, n) == dot(x, y, 0, i) + x(i) * y(i) + dot(x, y, i + 1, j) + x(j) * y(j) + dot(x, y, j + 1, n)
{ dot_split(x, y, 0, i, n); dot_lo(x, y, i, n); dot_split(x, y, i + 1, j, n); dot_lo(x, y, j, n); }
pub proof fn pv_iso(x: V, y: V, i: int, j: int, c: real, s: real, n: int) requires plane(i, j, n), unit2(c, s) ensures dot(pv2(x, i, j, c, s), pv2(y, i, j, c, s), 0, n) == dot(x, y, 0, n)
{
    let (x1, y1) = (pv2(x, i, j, c, s), pv2(y, i, j, c, s));
    dot_pair2(x, y, i, j, n); dot_pair2(x1, y1, i, j, n);
    dot_ext1(x1, y1, x, y, 0, i); dot_ext1(x1, y1, x, y, i + 1, j); dot_ext1(x1, y1, x, y, j + 1, n);
    rot_alg(x(i), x(j), y(i), y(j), c, s);
}
pub proof fn pc_cancel(q: M, x: M, i: int, j: int, c: real, s: real) requires q.nc == x.nr, plane(i, j, q.nc), unit2(c, s) ensures same(mm(pc(q, i, j, c, s), tr(pc(tr(x), i, j, c, s))), mm(q, x))
{
    let (q1, x1) = (pc(q, i, j, c, s), tr(pc(tr(x), i, j, c, s)));
    assert forall|r: int, t: int| 0 <= r < q.nr && 0 <= t < x.nc implies #[trigger] mm(q1, x1).at(r, t) == mm(q, x).at(r, t) by {
        assert(row(q1, r) =~= pv2(row(q, r), i, j, c, s)); assert(col(x1, t) =~= pv2(col(x, t), i, j, c, s)) by { assert(row(tr(x), t) =~= col(x, t)); }
        pv_iso(row(q, r), col(x, t), i, j, c, s, q.nc);
    }
}
pub proof fn pc_gram(q: M, y: V, i: int, j: int, c: real, s: real, k: int) requires i != j ensures gram(pc(q, i, j, c, s), y)(k) == pv2(gram(q, y), i, j, c, s)(k)
{
    let q1 = pc(q, i, j, c, s); let (a, b) = (col(q, i), col(q, j));
    if k == i { dot_lin2(col(q1, k), c, a, s, b, y, 0, q.nr); }
    else if k == j { let t = -s; assert forall|r: int| 0 <= r < q.nr implies #[trigger] col(q1, k)(r) == c * b(r) + t * a(r) by { let z = a(r); assert(t * z == -(s * z)) by (nonlinear_arith) requires t == -s; } dot_lin2(col(q1, k), c, b, t, a, y, 0, q.nr); let z = dot(a, y, 0, q.nr); assert(t * z == -(s * z)) by (nonlinear_arith) requires t == -s; }
    else { assert(col(q1, k) =~= col(q, k)); }
}
pub proof fn pc_orth(q: M, i: int, j: int, c: real, s: real) requires orth(q), plane(i, j, q.nc), unit2(c, s) ensures orth(pc(q, i, j, c, s))
{
    let q1 = pc(q, i, j, c, s); let n = q.nc;
    tr_col();
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] mm(tr(q1), q1).at(a, b) == ident(n, n).at(a, b) by {
        let y = col(q1, b); let g = gram(q, y);
        pc_gram(q, y, i, j, c, s, a);
        assert forall|k: int| 0 <= k < n implies #[trigger] g(k) == pv2(unitv(k), i, j, c, s)(b) by {
            let z = col(q, k);
            dot_comm(z, y, 0, q.nr); pc_gram(q, z, i, j, c, s, b);
            assert forall|t: int| 0 <= t < n implies #[trigger] gram(q, z)(t) == unitv(k)(t) by { assert(mm(tr(q), q).at(t, k) == ident(n, n).at(t, k)); }
            assert(gram(q, z)(b) == unitv(k)(b)); assert(gram(q, z)(i) == unitv(k)(i)); assert(gram(q, z)(j) == unitv(k)(j));
        }
        assert(mm(tr(q1), q1).at(a, b) == gram(q1, y)(a));
        let (gi, gj) = (g(i), g(j));
        assert(g(a) == pv2(unitv(a), i, j, c, s)(b));
        assert(gi == pv2(unitv(i), i, j, c, s)(b)); assert(gj == pv2(unitv(j), i, j, c, s)(b));
        let t = -s;
        assert(c * 0real == 0real) by (nonlinear_arith); assert(s * 0real == 0real) by (nonlinear_arith);
        assert(c * 1real == c) by (nonlinear_arith); assert(s * 1real == s) by (nonlinear_arith);
        assert(s * t == -(s * s)) by (nonlinear_arith) requires t == -s; assert(c * t == -(s * c)) by (nonlinear_arith) requires t == -s;
        assert(c * s == s * c) by (nonlinear_arith);
    }
}
/// u P rotated is u (P rotated)
pub proof fn pc_mm(u: M, p: M, i: int, j: int, c: real, s: real) requires u.nc == p.nr, plane(i, j, p.nc) ensures same(pc(mm(u, p), i, j, c, s), mm(u, pc(p, i, j, c, s)))
{
    let (l, r) = (pc(mm(u, p), i, j, c, s), mm(u, pc(p, i, j, c, s)));
    assert forall|a: int, b: int| 0 <= a < u.nr && 0 <= b < p.nc implies #[trigger] l.at(a, b) == r.at(a, b) by {
        let y = row(u, a); let p1 = pc(p, i, j, c, s);
        pc_gram(p, y, i, j, c, s, b);
        dot_comm(y, col(p1, b), 0, u.nc); dot_comm(y, col(p, b), 0, u.nc); dot_comm(y, col(p, i), 0, u.nc); dot_comm(y, col(p, j), 0, u.nc);
    }
}
pub proof fn pc_same(a: M, b: M, i: int, j: int, c: real, s: real) requires same(a, b), plane(i, j, a.nc) ensures same(pc(a, i, j, c, s), pc(b, i, j, c, s))
{
    assert forall|r: int, k: int| 0 <= r < a.nr && 0 <= k < a.nc implies #[trigger] pc(a, i, j, c, s).at(r, k) == pc(b, i, j, c, s).at(r, k) by { assert(a.at(r, k) == b.at(r, k)); assert(a.at(r, i) == b.at(r, i)); assert(a.at(r, j) == b.at(r, j)); }
}
/// b0 = p b q^T with p and q orthogonal
pub open spec fn steps(p: M, q: M, b0: M, b: M) -> bool { sq(b) && shape(b0, b) && shape(p, b) && shape(q, b) && b.nr >= 1 && orth(p) && orth(q) && same(two(p, b, q), b0) }
pub proof fn step_q(p: M, q: M, b0: M, b: M, b1: M, i: int, j: int, c: real, s: real) requires steps(p, q, b0, b), plane(i, j, b.nr), unit2(c, s), same(b1, pc(b, i, j, c, s)) ensures steps(p, pc(q, i, j, c, s), b0, b1)
{
    tr_tr();
    let (q1, bb) = (pc(q, i, j, c, s), pc(b, i, j, c, s));
    pc_cancel(q, tr(b), i, j, c, s); pc_orth(q, i, j, c, s);
    assert(same(p, p)); assert(same(q1, q1));
    two_right(p, p, bb, q1, b, q);
    mm_ext(p, b1, p, bb); two_left(p, b1, p, bb, q1, q1);
    same_trans(two(p, b1, q1), two(p, bb, q1), two(p, b, q)); same_trans(two(p, b1, q1), two(p, b, q), b0);
}
pub proof fn step_p(p: M, q: M, b0: M, b: M, b1: M, i: int, j: int, c: real, s: real) requires steps(p, q, b0, b), plane(i, j, b.nr), unit2(c, s), same(tr(b1), pc(tr(b), i, j, c, s)) ensures steps(pc(p, i, j, c, s), q, b0, b1)
{
    tr_tr();
    let (p1, bb) = (pc(p, i, j, c, s), tr(pc(tr(b), i, j, c, s)));
    pc_cancel(p, b, i, j, c, s); pc_orth(p, i, j, c, s);
    assert(same(q, q)); assert(same(p1, p1));
    two_left(p1, bb, p, b, q, q);
    same_tr(tr(b1), tr(bb));
    mm_ext(p1, b1, p1, bb); two_left(p1, b1, p1, bb, q, q);
    same_trans(two(p1, b1, q), two(p1, bb, q), two(p, b, q)); same_trans(two(p1, b1, q), two(p, b, q), b0);
}
pub proof fn steps_mid(p: M, q: M, b0: M, b: M, b1: M) requires steps(p, q, b0, b), same(b1, b) ensures steps(p, q, b0, b1)
{ assert(same(p, p)); assert(same(q, q)); mm_ext(p, b1, p, b); two_left(p, b1, p, b, q, q); same_trans(two(p, b1, q), two(p, b, q), b0); }
pub proof fn steps_none(b: M) requires sq(b), b.nr >= 1 ensures steps(ident(b.nr, b.nr), ident(b.nr, b.nr), b, b)
{
    let id = ident(b.nr, b.nr);
    assert(same(id, id)); two_none(id, b, id); mm_ident_r(tr(id), b.nr);
    assert(same(tr(id), id));
    same_trans(mm(tr(id), id), tr(id), id);
}
pub proof fn orth_mm(a: M, b: M) requires orth(a), orth(b), a.nc == b.nr, b.nc >= 0, a.nc >= 0, a.nr >= 0 ensures orth(mm(a, b))
{
    let ab = mm(a, b);
    mm_tr(a, b); assert(same(ab, ab)); mm_ext(tr(ab), ab, mm(tr(b), tr(a)), ab);
    let (bt, at) = (tr(b), tr(a));
    mm_assoc(mm(bt, at), a, b); same_sym(mm(mm(mm(bt, at), a), b), mm(mm(bt, at), ab));
    mm_assoc(bt, at, a); let id = ident(a.nc, a.nc);
    assert(same(bt, bt)); assert(same(b, b)); mm_ext(bt, mm(at, a), bt, id); mm_ident_r(bt, a.nc);
    same_trans(mm(mm(bt, at), a), mm(bt, mm(at, a)), mm(bt, id)); same_trans(mm(mm(bt, at), a), mm(bt, id), bt);
    mm_ext(mm(mm(bt, at), a), b, bt, b);
    same_trans(mm(tr(ab), ab), mm(mm(bt, at), ab), mm(mm(mm(bt, at), a), b)); same_trans(mm(tr(ab), ab), mm(mm(mm(bt, at), a), b), mm(bt, b)); same_trans(mm(tr(ab), ab), mm(bt, b), ident(b.nc, b.nc));
}
/// x (p b q^T) y^T = (x p) b (y q)^T
pub proof fn two_nest(x: M, p: M, b: M, q: M, y: M) requires x.nc == p.nr, p.nc == b.nr, b.nc == q.nc, q.nr == y.nc, x.nc >= 0, p.nc >= 0, b.nc >= 0, q.nr >= 0 ensures same(two(mm(x, p), b, mm(y, q)), two(x, two(p, b, q), y))
{
    let (xp, yq) = (mm(x, p), mm(y, q)); let (qt, yt) = (tr(q), tr(y)); let pb = mm(p, b);
    mm_tr(y, q);
    let l1 = mm(xp, b);
    assert(same(l1, l1)); mm_ext(l1, tr(yq), l1, mm(qt, yt));
    mm_assoc(l1, qt, yt); same_sym(mm(mm(l1, qt), yt), mm(l1, mm(qt, yt)));
    same_trans(two(xp, b, yq), mm(l1, mm(qt, yt)), mm(mm(l1, qt), yt));
    mm_assoc(x, p, b); assert(same(qt, qt)); mm_ext(l1, qt, mm(x, pb), qt); mm_assoc(x, pb, qt);
    same_trans(mm(l1, qt), mm(mm(x, pb), qt), mm(x, mm(pb, qt)));
    assert(same(yt, yt)); mm_ext(mm(l1, qt), yt, mm(x, mm(pb, qt)), yt);
    same_trans(two(xp, b, yq), mm(mm(l1, qt), yt), two(x, two(p, b, q), y));
}
pub proof fn steps_join(p: M, q: M, b0: M, b: M, p1: M, q1: M, b1: M) requires steps(p, q, b0, b), steps(p1, q1, b, b1) ensures steps(mm(p, p1), mm(q, q1), b0, b1)
{
    orth_mm(p, p1); orth_mm(q, q1);
    two_nest(p, p1, b1, q1, q);
    assert(same(p, p)); assert(same(q, q));
    let t = two(p1, b1, q1);
    mm_ext(p, t, p, b); two_left(p, t, p, b, q, q);
    same_trans(two(mm(p, p1), b1, mm(q, q1)), two(p, t, q), two(p, b, q)); same_trans(two(mm(p, p1), b1, mm(q, q1)), two(p, b, q), b0);
}
pub type OM = Option<crate::ndarray::Array2<Fl>>;
/// the factor kept as a matrix of columns (of rows) is the old one times p
pub open spec fn lkc(u: OM, u0: OM, p: M) -> bool { same_opt(u, u0) && (u matches Some(x) ==> same(x.m(), mm(u0->0.m(), p))) }
pub open spec fn lkr(v: OM, v0: OM, p: M) -> bool { same_opt(v, v0) && (v matches Some(x) ==> same(tr(x.m()), mm(tr(v0->0.m()), p))) }
pub open spec fn lk(u0: OM, v0: OM, u: OM, v: OM, up: bool, p: M, q: M) -> bool { if up { lkc(u, u0, p) && lkr(v, v0, q) } else { lkc(u, u0, q) && lkr(v, v0, p) } }
pub proof fn lk_none(u: OM, v: OM, up: bool, n: int) requires u matches Some(x) ==> x.m().nc == n, v matches Some(x) ==> x.m().nr == n ensures lk(u, v, u, v, up, ident(n, n), ident(n, n))
{ if u is Some { mm_ident_r(u->0.m(), n); same_sym(mm(u->0.m(), ident(n, n)), u->0.m()); } if v is Some { let t = tr(v->0.m()); mm_ident_r(t, n); same_sym(mm(t, ident(n, n)), t); } }
pub proof fn lkc_join(u: OM, u0: OM, p: M, u1: OM, p1: M) requires lkc(u, u0, p), lkc(u1, u, p1), sq(p), shape(p1, p), p.nr >= 0, u0 matches Some(x) ==> x.m().nc == p.nr ensures lkc(u1, u0, mm(p, p1))
{ if u1 is Some { let (x0, x, x1) = (u0->0.m(), u->0.m(), u1->0.m()); assert(same(p1, p1)); mm_ext(x, p1, mm(x0, p), p1); mm_assoc(x0, p, p1); same_trans(x1, mm(x, p1), mm(mm(x0, p), p1)); same_trans(x1, mm(mm(x0, p), p1), mm(x0, mm(p, p1))); } }
pub proof fn lkr_join(u: OM, u0: OM, p: M, u1: OM, p1: M) requires lkr(u, u0, p), lkr(u1, u, p1), sq(p), shape(p1, p), p.nr >= 0, u0 matches Some(x) ==> x.m().nr == p.nr ensures lkr(u1, u0, mm(p, p1))
{ if u1 is Some { let (x0, x, x1) = (tr(u0->0.m()), tr(u->0.m()), tr(u1->0.m())); assert(same(p1, p1)); mm_ext(x, p1, mm(x0, p), p1); mm_assoc(x0, p, p1); same_trans(x1, mm(x, p1), mm(mm(x0, p), p1)); same_trans(x1, mm(mm(x0, p), p1), mm(x0, mm(p, p1))); } }
pub proof fn lk_join(u0: OM, v0: OM, u: OM, v: OM, up: bool, p: M, q: M, u1: OM, v1: OM, p1: M, q1: M)
    requires lk(u0, v0, u, v, up, p, q), lk(u, v, u1, v1, up, p1, q1), sq(p), sq(q), shape(p1, p), shape(q1, q), p.nr >= 0, q.nr >= 0, shape(p, q), u0 matches Some(x) ==> x.m().nc == p.nr, v0 matches Some(x) ==> x.m().nr == p.nr
    ensures lk(u0, v0, u1, v1, up, mm(p, p1), mm(q, q1))
{ if up { lkc_join(u, u0, p, u1, p1); lkr_join(v, v0, q, v1, q1); } else { lkc_join(u, u0, q, u1, q1); lkr_join(v, v0, p, v1, p1); } }
/// m1 is m0 with columns i and j rotated
pub open spec fn turned(m0: M, m1: M, i: int, j: int, c: real, s: real) -> bool {
    shape(m1, m0)
    && (forall|r: int| #![trigger m1.at(r, i)] #![trigger m0.at(r, i)] 0 <= r < m0.nr ==> m1.at(r, i) == m0.at(r, i) * c + s * m0.at(r, j))
    && (forall|r: int| #![trigger m1.at(r, j)] #![trigger m0.at(r, j)] 0 <= r < m0.nr ==> m1.at(r, j) == -s * m0.at(r, i) + m0.at(r, j) * c)
    && (forall|r: int, k: int| inb(m0, r, k) && k != i && k != j ==> #[trigger] m1.at(r, k) == m0.at(r, k))
}
pub proof fn turn_pc(m0: M, m1: M, i: int, j: int, c: real, s: real) requires turned(m0, m1, i, j, c, s), plane(i, j, m0.nc) ensures same(m1, pc(m0, i, j, c, s))
{
    let r = pc(m0, i, j, c, s);
    assert forall|k: int, t: int| 0 <= k < m0.nr && 0 <= t < m0.nc implies #[trigger] m1.at(k, t) == r.at(k, t) by {
        let (a, b) = (m0.at(k, i), m0.at(k, j));
        if t == i { assert(m1.at(k, i) == a * c + s * b); assert(a * c + s * b == c * a + s * b) by (nonlinear_arith); }
        else if t == j { assert(m1.at(k, j) == -s * a + b * c); assert(-s * a + b * c == c * b - s * a) by (nonlinear_arith); }
    }
}
pub proof fn lkc_turn(u: OM, u0: OM, p: M, u1: OM, i: int, j: int, c: real, s: real) requires lkc(u, u0, p), same_opt(u1, u), u matches Some(x) ==> turned(x.m(), u1->0.m(), i, j, c, s), sq(p), plane(i, j, p.nr), u0 matches Some(x) ==> x.m().nc == p.nr ensures lkc(u1, u0, pc(p, i, j, c, s))
{ if u1 is Some { let (x0, x, x1) = (u0->0.m(), u->0.m(), u1->0.m()); turn_pc(x, x1, i, j, c, s); pc_same(x, mm(x0, p), i, j, c, s); pc_mm(x0, p, i, j, c, s); let (a, b, d) = (pc(x, i, j, c, s), pc(mm(x0, p), i, j, c, s), mm(x0, pc(p, i, j, c, s))); same_trans(x1, a, b); same_trans(x1, b, d); } }
pub proof fn lkr_turn(u: OM, u0: OM, p: M, u1: OM, i: int, j: int, c: real, s: real) requires lkr(u, u0, p), same_opt(u1, u), u matches Some(x) ==> turned(tr(x.m()), tr(u1->0.m()), i, j, c, s), sq(p), plane(i, j, p.nr), u0 matches Some(x) ==> x.m().nr == p.nr ensures lkr(u1, u0, pc(p, i, j, c, s))
{ if u1 is Some { let (x0, x, x1) = (tr(u0->0.m()), tr(u->0.m()), tr(u1->0.m())); turn_pc(x, x1, i, j, c, s); pc_same(x, mm(x0, p), i, j, c, s); pc_mm(x0, p, i, j, c, s); let (a, b, d) = (pc(x, i, j, c, s), pc(mm(x0, p), i, j, c, s), mm(x0, pc(p, i, j, c, s))); same_trans(x1, a, b); same_trans(x1, b, d); } }
/// upper bidiagonal with z at (r, c)
pub open spec fn ub(d: V, o: V, n: int, r: int, c: int, z: real) -> M { M { nr: n, nc: n, f: |i: int, j: int| if i == r && j == c { z } else if i == j { d(i) } else if j == i + 1 { o(i) } else { 0real } } }
pub proof fn zmul(a: real) ensures a * 0real == 0real, 0real * a == 0real { }
/// chasing an entry of row i to the right
pub proof fn ch_step(d0: V, o0: V, d1: V, o1: V, n: int, i: int, j: int, z0: real, z1: real, c: real, s: real)
    requires plane(i, j, n), d0(i) == 0real, o0(i) == 0real, c * z0 - s * d0(j) == 0real, d1(j) == s * z0 + c * d0(j),
        j + 1 < n ==> o1(j) == c * o0(j) && z1 == -(s * o0(j)),
        forall|k: int| #![trigger d1(k)] 0 <= k < n && k != j ==> d1(k) == d0(k), forall|k: int| #![trigger o1(k)] 0 <= k < n - 1 && k != j ==> o1(k) == o0(k)
    ensures same(tr(ub(d1, o1, n, i, j + 1, z1)), pc(tr(ub(d0, o0, n, i, j, z0)), i, j, c, -s))
{
    let (b0, b1) = (ub(d0, o0, n, i, j, z0), ub(d1, o1, n, i, j + 1, z1)); let r = pc(tr(b0), i, j, c, -s);
    assert forall|q: int, p: int| 0 <= q < n && 0 <= p < n implies #[trigger] tr(b1).at(q, p) == r.at(q, p) by {
        assert(d1(p) == d0(p) || p == j); assert(p + 1 == n || p == j || o1(p) == o0(p));
        let t = -s; let (x, y) = (b0.at(i, q), b0.at(j, q));
        assert(t * y == -(s * y)) by (nonlinear_arith) requires t == -s; assert(t * x == -(s * x)) by (nonlinear_arith) requires t == -s;
        zmul(c); zmul(s);
        assert(r.at(q, i) == c * x + t * y); assert(r.at(q, j) == c * y - t * x);
        if p == i { assert(d1(i) == d0(i)); assert(o1(i) == o0(i)); }
    }
}
/// chasing an entry of column j upwards
pub proof fn cv_step(d0: V, o0: V, d1: V, o1: V, n: int, k: int, j: int, z0: real, z1: real, c: real, s: real)
    requires plane(k, j, n), d0(j) == 0real, o0(j - 1) == 0real, c * z0 + s * d0(k) == 0real, d1(k) == c * d0(k) - s * z0,
        k > 0 ==> o1(k - 1) == c * o0(k - 1) && z1 == s * o0(k - 1),
        forall|t: int| #![trigger d1(t)] 0 <= t < n && t != k ==> d1(t) == d0(t), forall|t: int| #![trigger o1(t)] 0 <= t < n - 1 && t != k - 1 ==> o1(t) == o0(t)
    ensures same(ub(d1, o1, n, k - 1, j, z1), pc(ub(d0, o0, n, k, j, z0), k, j, c, -s))
{
    let (b0, b1) = (ub(d0, o0, n, k, j, z0), ub(d1, o1, n, k - 1, j, z1)); let r = pc(b0, k, j, c, -s);
    assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n implies #[trigger] b1.at(p, q) == r.at(p, q) by {
        assert(d1(p) == d0(p) || p == k); assert(p + 1 == n || p == k - 1 || o1(p) == o0(p));
        let t = -s; let (x, y) = (b0.at(p, k), b0.at(p, j));
        assert(t * y == -(s * y)) by (nonlinear_arith) requires t == -s; assert(t * x == -(s * x)) by (nonlinear_arith) requires t == -s;
        zmul(c); zmul(s);
        assert(r.at(p, k) == c * x + t * y); assert(r.at(p, j) == c * y - t * x);
        assert(d1(j) == d0(j)); assert(j - 1 == k - 1 || o1(j - 1) == o0(j - 1));
    }
}
/// the column rotation of a chase step
pub proof fn gk_col(d0: V, o0: V, d1: V, o1: V, n: int, k: int, z0: real, y1: real, c: real, s: real)
    requires plane(k, k + 1, n), k > 0 ==> c * z0 + s * o0(k - 1) == 0real && o1(k - 1) == c * o0(k - 1) - s * z0,
        d1(k) == c * d0(k) - s * o0(k), o1(k) == c * o0(k) + s * d0(k), y1 == -(s * d0(k + 1)), d1(k + 1) == c * d0(k + 1),
        forall|t: int| #![trigger d1(t)] 0 <= t < n && t != k && t != k + 1 ==> d1(t) == d0(t), forall|t: int| #![trigger o1(t)] 0 <= t < n - 1 && t != k && t != k - 1 ==> o1(t) == o0(t)
    ensures same(ub(d1, o1, n, k + 1, k, y1), pc(ub(d0, o0, n, k - 1, k + 1, z0), k, k + 1, c, -s))
{
    let (b0, b1) = (ub(d0, o0, n, k - 1, k + 1, z0), ub(d1, o1, n, k + 1, k, y1)); let r = pc(b0, k, k + 1, c, -s);
    assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n implies #[trigger] b1.at(p, q) == r.at(p, q) by {
        assert(d1(p) == d0(p) || p == k || p == k + 1); assert(p + 1 == n || p == k - 1 || p == k || o1(p) == o0(p));
        let t = -s; let (x, y) = (b0.at(p, k), b0.at(p, k + 1));
        assert(t * y == -(s * y)) by (nonlinear_arith) requires t == -s; assert(t * x == -(s * x)) by (nonlinear_arith) requires t == -s;
        zmul(c); zmul(s);
        assert(r.at(p, k) == c * x + t * y); assert(r.at(p, k + 1) == c * y - t * x);
    }
}
/// the row rotation of a chase step
pub proof fn gk_row(d0: V, o0: V, d1: V, o1: V, n: int, k: int, y0: real, z1: real, c: real, s: real)
    requires plane(k, k + 1, n), c * y0 + s * d0(k) == 0real, d1(k) == c * d0(k) - s * y0, o1(k) == c * o0(k) - s * d0(k + 1), d1(k + 1) == c * d0(k + 1) + s * o0(k),
        k + 2 < n ==> z1 == -(s * o0(k + 1)) && o1(k + 1) == c * o0(k + 1),
        forall|t: int| #![trigger d1(t)] 0 <= t < n && t != k && t != k + 1 ==> d1(t) == d0(t), forall|t: int| #![trigger o1(t)] 0 <= t < n - 1 && t != k && t != k + 1 ==> o1(t) == o0(t)
    ensures same(tr(ub(d1, o1, n, k, k + 2, z1)), pc(tr(ub(d0, o0, n, k + 1, k, y0)), k, k + 1, c, -s))
{
    let (b0, b1) = (ub(d0, o0, n, k + 1, k, y0), ub(d1, o1, n, k, k + 2, z1)); let r = pc(tr(b0), k, k + 1, c, -s);
    assert forall|q: int, p: int| 0 <= q < n && 0 <= p < n implies #[trigger] tr(b1).at(q, p) == r.at(q, p) by {
        assert(d1(p) == d0(p) || p == k || p == k + 1); assert(p + 1 == n || p == k + 1 || p == k || o1(p) == o0(p));
        let t = -s; let (x, y) = (b0.at(k, q), b0.at(k + 1, q));
        assert(t * y == -(s * y)) by (nonlinear_arith) requires t == -s; assert(t * x == -(s * x)) by (nonlinear_arith) requires t == -s;
        zmul(c); zmul(s);
        assert(r.at(q, k) == c * x + t * y); assert(r.at(q, k + 1) == c * y - t * x);
    }
}
/// couplings from e on vanish
pub open spec fn ocut(o: V, e: int, n: int) -> bool { forall|k: int| e <= k < n - 1 ==> #[trigger] o(k) == 0real }
pub open spec fn ub0(d: V, o: V, n: int) -> M { ub(d, o, n, -1, -1, 0real) }
/// a vanishing extra entry outside the diagonal, or on the diagonal above it where the coupling vanishes
pub proof fn ub_none(d: V, o: V, n: int, r: int, c: int) requires c != r, c == r + 1 && 0 <= r < n - 1 ==> o(r) == 0real ensures same(ub0(d, o, n), ub(d, o, n, r, c, 0real)), same(ub(d, o, n, r, c, 0real), ub0(d, o, n)) { }
/// b0 turned into b by two-sided rotations that the factors followed
#[verifier::opaque]
pub open spec fn reach(b0: M, u0: OM, v0: OM, b: M, u: OM, v: OM, up: bool) -> bool {
    (u0 matches Some(x) ==> x.m().nc == b0.nr) && (v0 matches Some(x) ==> x.m().nr == b0.nr) && exists|p: M, q: M| #[trigger] steps(p, q, b0, b) && lk(u0, v0, u, v, up, p, q)
}
pub open spec fn went(d0: M, o0: M, u0: OM, v0: OM, d: M, o: M, u: OM, v: OM, up: bool) -> bool { reach(ub0(col(d0, 0), col(o0, 0), d0.nr), u0, v0, ub0(col(d, 0), col(o, 0), d0.nr), u, v, up) }
pub proof fn reach_in(p: M, q: M, b0: M, u0: OM, v0: OM, b: M, u: OM, v: OM, up: bool) requires steps(p, q, b0, b), lk(u0, v0, u, v, up, p, q), u0 matches Some(x) ==> x.m().nc == b0.nr, v0 matches Some(x) ==> x.m().nr == b0.nr ensures reach(b0, u0, v0, b, u, v, up)
{ reveal(reach); }
pub proof fn reach_mid(b0: M, u0: OM, v0: OM, b: M, u: OM, v: OM, up: bool, b1: M) requires reach(b0, u0, v0, b, u, v, up), same(b1, b) ensures reach(b0, u0, v0, b1, u, v, up)
{ reveal(reach); let (p, q) = choose|p: M, q: M| #[trigger] steps(p, q, b0, b) && lk(u0, v0, u, v, up, p, q); steps_mid(p, q, b0, b, b1); }
pub open spec fn trc(u0: OM, u: OM, i: int, j: int, c: real, s: real) -> bool { same_opt(u, u0) && (u0 matches Some(x) ==> turned(x.m(), u->0.m(), i, j, c, s)) }
pub open spec fn trr(u0: OM, u: OM, i: int, j: int, c: real, s: real) -> bool { same_opt(u, u0) && (u0 matches Some(x) ==> turned(tr(x.m()), tr(u->0.m()), i, j, c, s)) }
pub proof fn reach_q(b0: M, u0: OM, v0: OM, b: M, u: OM, v: OM, up: bool, b1: M, u1: OM, v1: OM, i: int, j: int, c: real, s: real)
    requires reach(b0, u0, v0, b, u, v, up), plane(i, j, b.nr), unit2(c, s), same(b1, pc(b, i, j, c, s)), if up { u1 == u && trr(v, v1, i, j, c, s) } else { v1 == v && trc(u, u1, i, j, c, s) }
    ensures reach(b0, u0, v0, b1, u1, v1, up)
{
    reveal(reach);
    let (p, q) = choose|p: M, q: M| #[trigger] steps(p, q, b0, b) && lk(u0, v0, u, v, up, p, q);
    step_q(p, q, b0, b, b1, i, j, c, s);
    if up { lkr_turn(v, v0, q, v1, i, j, c, s); } else { lkc_turn(u, u0, q, u1, i, j, c, s); }
    let q1 = pc(q, i, j, c, s); assert(steps(p, q1, b0, b1) && lk(u0, v0, u1, v1, up, p, q1));
}
pub proof fn reach_p(b0: M, u0: OM, v0: OM, b: M, u: OM, v: OM, up: bool, b1: M, u1: OM, v1: OM, i: int, j: int, c: real, s: real)
    requires reach(b0, u0, v0, b, u, v, up), plane(i, j, b.nr), unit2(c, s), same(tr(b1), pc(tr(b), i, j, c, s)), if up { v1 == v && trc(u, u1, i, j, c, s) } else { u1 == u && trr(v, v1, i, j, c, s) }
    ensures reach(b0, u0, v0, b1, u1, v1, up)
{
    reveal(reach);
    let (p, q) = choose|p: M, q: M| #[trigger] steps(p, q, b0, b) && lk(u0, v0, u, v, up, p, q);
    step_p(p, q, b0, b, b1, i, j, c, s);
    if up { lkc_turn(u, u0, p, u1, i, j, c, s); } else { lkr_turn(v, v0, p, v1, i, j, c, s); }
    let p1 = pc(p, i, j, c, s); assert(steps(p1, q, b0, b1) && lk(u0, v0, u1, v1, up, p1, q));
}
pub proof fn reach_join(b0: M, u0: OM, v0: OM, b: M, u: OM, v: OM, b1: M, u1: OM, v1: OM, up: bool) requires reach(b0, u0, v0, b, u, v, up), reach(b, u, v, b1, u1, v1, up) ensures reach(b0, u0, v0, b1, u1, v1, up)
{
    reveal(reach);
    let (p, q) = choose|p: M, q: M| #[trigger] steps(p, q, b0, b) && lk(u0, v0, u, v, up, p, q);
    let (p1, q1) = choose|p: M, q: M| #[trigger] steps(p, q, b, b1) && lk(u, v, u1, v1, up, p, q);
    steps_join(p, q, b0, b, p1, q1, b1); lk_join(u0, v0, u, v, up, p, q, u1, v1, p1, q1);
}
pub open spec fn ch_done(d0: M, o0: M, d: M, o: M, i: int, end: int) -> bool {
    &&& o.at(i, 0) == 0real
    &&& forall|k: int| #![trigger d.at(k, 0)] 0 <= k < d0.nr && (k <= i || k > end) ==> d.at(k, 0) == d0.at(k, 0)
    &&& forall|k: int| #![trigger o.at(k, 0)] 0 <= k < d0.nr - 1 && (k < i || k >= end) ==> o.at(k, 0) == o0.at(k, 0)
    &&& forall|k: int| #![trigger d.at(k, 0)] i < k <= end && d0.at(k, 0) != 0real ==> d.at(k, 0) != 0real
    &&& forall|k: int| #![trigger o.at(k, 0)] i < k < end && d0.at(k, 0) != 0real && o0.at(k, 0) != 0real ==> o.at(k, 0) != 0real
}
pub open spec fn cv_done(d0: M, o0: M, d: M, o: M, i: int) -> bool {
    &&& o.at(i, 0) == 0real
    &&& forall|k: int| #![trigger d.at(k, 0)] i < k < d0.nr ==> d.at(k, 0) == d0.at(k, 0)
    &&& forall|k: int| #![trigger o.at(k, 0)] i < k < d0.nr - 1 ==> o.at(k, 0) == o0.at(k, 0)
}
pub proof fn went_mid(d0: M, o0: M, u0: OM, v0: OM, d: M, o: M, u: OM, v: OM, up: bool, d1: M, o1: M)
    requires went(d0, o0, u0, v0, d, o, u, v, up), forall|k: int| 0 <= k < d0.nr ==> #[trigger] d1.at(k, 0) == d.at(k, 0), forall|k: int| 0 <= k < d0.nr - 1 ==> #[trigger] o1.at(k, 0) == o.at(k, 0)
    ensures went(d0, o0, u0, v0, d1, o1, u, v, up)
{
    let (b0, b, b1) = (ub0(col(d0, 0), col(o0, 0), d0.nr), ub0(col(d, 0), col(o, 0), d0.nr), ub0(col(d1, 0), col(o1, 0), d0.nr));
    assert(same(b1, b)) by { assert forall|i: int, j: int| 0 <= i < d0.nr && 0 <= j < d0.nr implies #[trigger] b1.at(i, j) == b.at(i, j) by { assert(d1.at(i, 0) == d.at(i, 0)); if j == i + 1 { assert(o1.at(i, 0) == o.at(i, 0)); } } }
    reach_mid(b0, u0, v0, b, u, v, up, b1);
}
pub proof fn went_none(d: M, o: M, u: OM, v: OM, up: bool) requires diag_st(d, o, u, v) ensures went(d, o, u, v, d, o, u, v, up)
{ reveal(reach); let b = ub0(col(d, 0), col(o, 0), d.nr); steps_none(b); lk_none(u, v, up, d.nr); }
pub proof fn went_join(d0: M, o0: M, u0: OM, v0: OM, d: M, o: M, u: OM, v: OM, d1: M, o1: M, u1: OM, v1: OM, up: bool)
    requires went(d0, o0, u0, v0, d, o, u, v, up), went(d, o, u, v, d1, o1, u1, v1, up), d.nr == d0.nr
    ensures went(d0, o0, u0, v0, d1, o1, u1, v1, up)
{ reach_join(ub0(col(d0, 0), col(o0, 0), d0.nr), u0, v0, ub0(col(d, 0), col(o, 0), d0.nr), u, v, ub0(col(d1, 0), col(o1, 0), d0.nr), u1, v1, up); }
/// [[cu, su], [-su, cu]] [[a, o], [0, b]] [[c, -s], [s, c]] = diag(v1, v2)
pub open spec fn svd2(a: real, o: real, b: real, v1: real, v2: real, cu: real, su: real, c: real, s: real) -> bool {
    let (x1, y1, x2, y2) = (c * a + s * o, s * b, c * o - s * a, c * b);
    unit2(cu, su) && unit2(c, s) && cu * x1 + su * y1 == v1 && cu * x2 + su * y2 == 0real && cu * y1 - su * x1 == 0real && cu * y2 - su * x2 == v2
}
pub open spec fn rot_is(g: Option<crate::givens::GivensRotation<Fl>>, c: real, s: real) -> bool { g matches Some(r) ==> r.c.v() == c && r.s.v() == s }
pub proof fn hyp_pos(h: real, p: real, o: real) requires is_sqrt(h, p * p + o * o), o != 0real ensures h > 0real
{ sqr_pos(o); sqr_pos(p); if h == 0real { assert(h * h == 0real) by (nonlinear_arith) requires h == 0real; } }
/// the singular values of [[a, o], [0, b]] from two hypotenuses
pub proof fn vals2(a: real, o: real, b: real, h1: real, h2: real, v1: real, v2: real)
    requires o != 0real, is_sqrt(h1, (a + b) * (a + b) + o * o), is_sqrt(h2, (a - b) * (a - b) + o * o), v2 == (h1 + h2) / 2real, v1 == a * b * 2real / (h1 + h2)
    ensures v2 > 0real, v1 * v2 == a * b, v1 * v1 + v2 * v2 == a * a + b * b + o * o
{
    let d = h1 + h2; let p = a * b;
    sqr_pos(o); sqr_pos(a + b); sqr_pos(a - b);
    assert(h1 > 0real) by (nonlinear_arith) requires h1 >= 0real, h1 * h1 > 0real;
    div_cancel(p * 2real, d);
    assert(v1 * d == p * 2real);
    assert((a + b) * (a + b) == a * a + b * b + 2real * p) by (nonlinear_arith) requires p == a * b;
    assert((a - b) * (a - b) == a * a + b * b - 2real * p) by (nonlinear_arith) requires p == a * b;
    let e = h1 - h2;
    assert(e * d == h1 * h1 - h2 * h2) by (nonlinear_arith) requires d == h1 + h2, e == h1 - h2;
    let z = v1 - e / 2real;
    assert(z * d == v1 * d - (e * d) / 2real) by (nonlinear_arith) requires z == v1 - e / 2real;
    assert(z * d == 0real);
    zero_fac(z, d);
    assert(v1 * v2 == p) by (nonlinear_arith) requires v1 * d == p * 2real, v2 == d / 2real;
    assert(v1 * v1 + v2 * v2 == (h1 * h1 + h2 * h2) / 2real) by (nonlinear_arith) requires v1 == (h1 - h2) / 2real, v2 == (h1 + h2) / 2real;
}
/// the characteristic equation of B^T B
pub proof fn svd2_char(a: real, o: real, b: real, v1: real, v2: real)
    requires v1 * v2 == a * b, v1 * v1 + v2 * v2 == a * a + b * b + o * o
    ensures (v1 * v1 - a * a) * (v1 * v1 - (b * b + o * o)) == (a * o) * (a * o)
{
    let (aa, ao, bb, l, l2, p) = (a * a, a * o, b * b + o * o, v1 * v1, v2 * v2, a * b); let (b2, o2) = (b * b, o * o);
    assert(l * l2 == p * p) by (nonlinear_arith) requires l == v1 * v1, l2 == v2 * v2, v1 * v2 == p;
    assert(p * p == aa * b2) by (nonlinear_arith) requires p == a * b, aa == a * a, b2 == b * b;
    assert(ao * ao == aa * o2) by (nonlinear_arith) requires ao == a * o, aa == a * a, o2 == o * o;
    assert(aa * bb == aa * b2 + aa * o2) by (nonlinear_arith) requires bb == b2 + o2;
    let (u1, u2) = (l - aa, l - bb);
    mul_sums(l, aa, l, bb);
    assert(l * l2 == l * aa + l * bb - l * l) by (nonlinear_arith) requires l2 == aa + bb - l;
    assert(l * aa == aa * l) by (nonlinear_arith);
}
pub proof fn mneg(a: real, b: real) ensures a * (-b) == -(a * b), (-a) * b == -(a * b) { assert(a * (-b) == -(a * b)) by (nonlinear_arith); assert((-a) * b == -(a * b)) by (nonlinear_arith); }
pub proof fn mcom(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn mas(a: real, b: real, c: real) ensures a * (b * c) == (a * b) * c { assert(a * (b * c) == (a * b) * c) by (nonlinear_arith); }
pub proof fn mdis(a: real, b: real, c: real) ensures a * (b + c) == a * b + a * c, (b + c) * a == b * a + c * a, a * (b - c) == a * b - a * c, (b - c) * a == b * a - c * a { assert(a * (b + c) == a * b + a * c && (b + c) * a == b * a + c * a && a * (b - c) == a * b - a * c && (b - c) * a == b * a - c * a) by (nonlinear_arith); }
/// (c, s) is an eigenvector of B^T B for v1^2
pub proof fn svd2_vec(a: real, o: real, b: real, v1: real, v2: real, x: real, y: real, c: real, s: real, n: real)
    requires v1 * v2 == a * b, v1 * v1 + v2 * v2 == a * a + b * b + o * o, n > 0real, c * n == x, s * n == y,
        (x == a * o && y == v1 * v1 - a * a) || (x == v2 * v2 - a * a && y == -(a * o))
    ensures (a * a) * c + (a * o) * s == (v1 * v1) * c, (a * o) * c + (b * b + o * o) * s == (v1 * v1) * s
{
    let (aa, oo, bb, l) = (a * a, a * o, b * b + o * o, v1 * v1);
    svd2_char(a, o, b, v1, v2);
    if x == oo && y == l - aa { eig2_ok(aa, oo, bb, l, x, y, c, s, n); }
    else {
        let (x1, y1, c1, s1) = (-x, -y, -c, -s);
        mneg(c, n); mneg(s, n);
        eig2_ok(aa, oo, bb, l, x1, y1, c1, s1, n);
        mneg(aa, c); mneg(oo, s); mneg(l, c); mneg(oo, c); mneg(bb, s); mneg(l, s);
    }
}
/// inner products of the images of (c, s) and (-s, c)
pub proof fn svd2_dots(a: real, o: real, b: real, l: real, c: real, s: real)
    requires (a * a) * c + (a * o) * s == l * c, (a * o) * c + (b * b + o * o) * s == l * s, unit2(c, s)
    ensures ({ let (x1, y1, x2, y2) = (c * a + s * o, s * b, c * o - s * a, c * b);
        x1 * x2 + y1 * y2 == 0real && x1 * x1 + y1 * y1 == l && y2 * x1 - x2 * y1 == a * b && x1 * x1 + y1 * y1 + (x2 * x2 + y2 * y2) == a * a + b * b + o * o })
{
    let (x1, y1, x2, y2) = (c * a + s * o, s * b, c * o - s * a, c * b);
    let r = a * x1; let q = o * x1 + b * y1;
    assert(r == l * c) by { mdis(a, c * a, s * o); mas(a, c, a); mcom(a, c); mas(c, a, a); mcom(c, a * a); mas(a, s, o); mcom(a, s); mas(s, a, o); mcom(s, a * o); }
    assert(q == l * s) by { mdis(o, c * a, s * o); mas(o, c, a); mcom(o, c); mas(c, o, a); mcom(o, a); mcom(c, a * o); mas(o, s, o); mcom(o, s); mas(s, o, o); mcom(s, o * o); mas(b, s, b); mcom(b, s); mas(s, b, b); mcom(s, b * b); mdis(s, b * b, o * o); }
    // products with x2, y2, x1, y1
    assert(x1 * x2 + y1 * y2 == c * q - s * r) by { mdis(x1, c * o, s * a); mas(x1, c, o); mcom(x1, c); mas(c, x1, o); mcom(x1, o); mas(x1, s, a); mcom(x1, s); mas(s, x1, a); mcom(x1, a); mas(y1, c, b); mcom(y1, c); mas(c, y1, b); mcom(y1, b); mdis(c, o * x1, b * y1); }
    assert(x1 * x1 + y1 * y1 == c * r + s * q) by { mdis(x1, c * a, s * o); mas(x1, c, a); mcom(x1, c); mas(c, x1, a); mcom(x1, a); mas(x1, s, o); mcom(x1, s); mas(s, x1, o); mcom(x1, o); mas(y1, s, b); mcom(y1, s); mas(s, y1, b); mcom(y1, b); mdis(s, o * x1, b * y1); }
    assert(c * q == s * r) by { mas(c, l, s); mcom(c, l); mas(s, l, c); mcom(s, l); mas(l, c, s); mas(l, s, c); mcom(c, s); }
    assert(c * r + s * q == l) by { mas(c, l, c); mcom(c, l); mas(l, c, c); mas(s, l, s); mcom(s, l); mas(l, s, s); mdis(l, c * c, s * s); }
    let (cc, ss, cs) = (c * c, s * s, c * s);
    assert(y2 * x1 - x2 * y1 == a * b) by {
        let (p, ob) = (a * b, o * b);
        assert((c * b) * (c * a) == cc * p) by (nonlinear_arith) requires cc == c * c, p == a * b;
        assert((c * b) * (s * o) == cs * ob) by (nonlinear_arith) requires cs == c * s, ob == o * b;
        assert((c * o) * (s * b) == cs * ob) by (nonlinear_arith) requires cs == c * s, ob == o * b;
        assert((s * a) * (s * b) == ss * p) by (nonlinear_arith) requires ss == s * s, p == a * b;
        mdis(y2, c * a, s * o); mdis(y1, c * o, s * a); mdis(p, cc, ss);
    }
    assert(x1 * x1 + y1 * y1 + (x2 * x2 + y2 * y2) == a * a + b * b + o * o) by { sq_rot(a, o, c, s); let k3 = b * b;
        assert(y1 * y1 == ss * k3) by (nonlinear_arith) requires y1 == s * b, ss == s * s, k3 == b * b; assert(y2 * y2 == cc * k3) by (nonlinear_arith) requires y2 == c * b, cc == c * c, k3 == b * b; mdis(k3, cc, ss); }
}
pub proof fn sq_rot(a: real, o: real, c: real, s: real) requires unit2(c, s) ensures (c * a + s * o) * (c * a + s * o) + (c * o - s * a) * (c * o - s * a) == a * a + o * o
{ rot_alg(a, o, a, o, c, s); }
/// (c, s) along the right singular vector of v1, (cu, su) from the image of the other one
pub proof fn svd2_ok(a: real, o: real, b: real, v1: real, v2: real, x: real, y: real, c: real, s: real, n: real, cu: real, su: real)
    requires v2 > 0real, v1 * v2 == a * b, v1 * v1 + v2 * v2 == a * a + b * b + o * o, n > 0real, c * n == x, s * n == y, unit2(c, s),
        (x == a * o && y == v1 * v1 - a * a) || (x == v2 * v2 - a * a && y == -(a * o)), cu * v2 == b * c, su * v2 == a * s - o * c
    ensures svd2(a, o, b, v1, v2, cu, su, c, s)
{
    let l2 = v2 * v2;
    svd2_vec(a, o, b, v1, v2, x, y, c, s, n);
    svd2_dots(a, o, b, v1 * v1, c, s);
    let (x1, y1, x2, y2) = (c * a + s * o, s * b, c * o - s * a, c * b);
    mcom(b, c); mcom(a, s); mcom(o, c);
    let z = -x2;
    assert(cu * v2 == y2); assert(su * v2 == z);
    mul_in(x1, cu, v2, y2); mul_in(y1, su, v2, z); mul_in(x2, cu, v2, y2); mul_in(y2, su, v2, z); mul_in(y1, cu, v2, y2); mul_in(x1, su, v2, z); mul_in(x2, su, v2, z); mul_in(y2, cu, v2, y2);
    mcom(x1, cu); mcom(y1, su); mcom(x2, cu); mcom(y2, su); mcom(y1, cu); mcom(x1, su); mcom(x2, su); mcom(y2, cu); mcom(y2, x1); mcom(y1, x2); mcom(y2, x2); mcom(y1, y2); mcom(x1, x2);
    mneg(y1, x2); mneg(y2, x2); mneg(x1, x2); mneg(x2, x2);
    mul_sum3(cu * x1, su * y1, v1, v2); mul_sum3(cu * x2, su * y2, 0real, v2); mul_sum3(cu * y1, 0real, su * x1, v2); mul_sum3(cu * y2, 0real, su * x2 + v2, v2); mdis(v2, su * x2, v2);
    let (e1, e2, e3, e4) = (cu * x1 + su * y1 - v1, cu * x2 + su * y2 - 0real, cu * y1 + 0real - su * x1, cu * y2 + 0real - (su * x2 + v2));
    assert(e1 * v2 == 0real); zero_fac(e1, v2);
    assert(e2 * v2 == 0real); zero_fac(e2, v2);
    assert(e3 * v2 == 0real); zero_fac(e3, v2);
    assert(e4 * v2 == 0real); zero_fac(e4, v2);
    mneg(x2, x2); mneg(z, x2); assert(z * z == x2 * x2);
    svd2_unit(cu, su, v2, y2, z);
}
pub proof fn svd2_unit(cu: real, su: real, v2: real, f: real, g: real) requires v2 > 0real, cu * v2 == f, su * v2 == g, f * f + g * g == v2 * v2 ensures unit2(cu, su)
{
    let (uu, l2) = (cu * cu + su * su, v2 * v2); let (p, q) = (cu * cu, su * su);
    assert(p * l2 == f * f) by (nonlinear_arith) requires p == cu * cu, l2 == v2 * v2, f == cu * v2;
    assert(q * l2 == g * g) by (nonlinear_arith) requires q == su * su, l2 == v2 * v2, g == su * v2;
    mul_sum3(p, q, 1real, l2);
    sqr_pos(v2);
    zero_fac(p + q - 1real, l2);
}
/// diagonalising the 2 x 2 block at i, cut off from the rest
pub proof fn blk_step(d0: V, o0: V, d1: V, o1: V, n: int, i: int, cu: real, su: real, c: real, s: real)
    requires plane(i, i + 1, n), svd2(d0(i), o0(i), d0(i + 1), d1(i), d1(i + 1), cu, su, c, s), o1(i) == 0real, i > 0 ==> o0(i - 1) == 0real, i + 2 < n ==> o0(i + 1) == 0real,
        forall|t: int| #![trigger d1(t)] 0 <= t < n && t != i && t != i + 1 ==> d1(t) == d0(t), forall|t: int| #![trigger o1(t)] 0 <= t < n - 1 && t != i ==> o1(t) == o0(t)
    ensures ({ let b1 = pc(ub0(d0, o0, n), i, i + 1, c, s); same(tr(ub0(d1, o1, n)), pc(tr(b1), i, i + 1, cu, su)) })
{
    let b0 = ub0(d0, o0, n); let b1 = pc(b0, i, i + 1, c, s); let b2 = ub0(d1, o1, n); let r = pc(tr(b1), i, i + 1, cu, su);
    assert forall|q: int, p: int| 0 <= q < n && 0 <= p < n implies #[trigger] tr(b2).at(q, p) == r.at(q, p) by {
        assert(d1(p) == d0(p) || p == i || p == i + 1); assert(p + 1 == n || p == i || o1(p) == o0(p));
        zmul(c); zmul(s); zmul(cu); zmul(su);
        assert(b1.at(p, i) == c * b0.at(p, i) + s * b0.at(p, i + 1)); assert(b1.at(p, i + 1) == c * b0.at(p, i + 1) - s * b0.at(p, i));
        assert(b1.at(i, i) == c * b0.at(i, i) + s * b0.at(i, i + 1)); assert(b1.at(i, i + 1) == c * b0.at(i, i + 1) - s * b0.at(i, i));
        assert(b1.at(i + 1, i) == c * b0.at(i + 1, i) + s * b0.at(i + 1, i + 1)); assert(b1.at(i + 1, i + 1) == c * b0.at(i + 1, i + 1) - s * b0.at(i + 1, i));
        assert(r.at(q, i) == cu * b1.at(i, q) + su * b1.at(i + 1, q)); assert(r.at(q, i + 1) == cu * b1.at(i + 1, q) - su * b1.at(i, q));
    }
}
/// one step of the chase: the window s0 turned into s1 by columns, then into s2 by rows
pub open spec fn gk_win(d0: V, o0: V, k: int, last: bool, s0: M) -> bool {
    s0.nr == 2 && s0.nc == 3 && s0.at(0, 0) == d0(k) && s0.at(0, 1) == o0(k) && s0.at(0, 2) == 0real && s0.at(1, 0) == 0real && s0.at(1, 1) == d0(k + 1) && s0.at(1, 2) == (if last { 0real } else { o0(k + 1) })
}
pub open spec fn gk_cols(s0: M, s1: M, c: real, s: real) -> bool { rot_rows(subm(s0, 0, 2, 0, 2), subm(s1, 0, 2, 0, 2), c, -s) && s1.at(0, 2) == s0.at(0, 2) && s1.at(1, 2) == s0.at(1, 2) }
pub open spec fn gk_rows(s1: M, s2: M, has: bool, e: real, f: real) -> bool {
    if has { unit2(e, f) && f * s1.at(0, 0) + e * s1.at(1, 0) == 0real && s2.at(0, 0) == e * s1.at(0, 0) - f * s1.at(1, 0) && rot_cols(subm(s1, 0, 2, 1, 3), subm(s2, 0, 2, 1, 3), e, -f) }
    else { s1.at(1, 0) == 0real && s2.at(0, 0) == s1.at(0, 0) && s2.at(0, 1) == s1.at(0, 1) && s2.at(0, 2) == s1.at(0, 2) && s2.at(1, 1) == s1.at(1, 1) && s2.at(1, 2) == s1.at(1, 2) }
}
pub proof fn gk_step(b0: M, gu: OM, gv: OM, d0: V, o0: V, d2: V, o2: V, n: int, last: bool, k: int, z0: real, s0: M, s1: M, s2: M, c: real, s: real, has: bool, e: real, f: real, u0: OM, v0: OM, u: OM, v: OM, up: bool)
    requires reach(b0, gu, gv, ub(d0, o0, n, k - 1, k + 1, z0), u0, v0, up), plane(k, k + 1, n), unit2(c, s), k > 0 ==> c * z0 + s * o0(k - 1) == 0real && o2(k - 1) == c * o0(k - 1) - s * z0,
        last && k + 2 < n ==> o0(k + 1) == 0real && o2(k + 1) == 0real, gk_win(d0, o0, k, last, s0), gk_cols(s0, s1, c, s), gk_rows(s1, s2, has, e, f),
        d2(k) == s2.at(0, 0), d2(k + 1) == s2.at(1, 1), o2(k) == s2.at(0, 1), !last ==> k + 2 < n && o2(k + 1) == s2.at(1, 2),
        forall|t: int| #![trigger d2(t)] 0 <= t < n && t != k && t != k + 1 ==> d2(t) == d0(t), forall|t: int| #![trigger o2(t)] 0 <= t < n - 1 && !(k - 1 <= t <= k + 1) ==> o2(t) == o0(t),
        if up { trr(v0, v, k, k + 1, c, -s) && (if has { trc(u0, u, k, k + 1, e, -f) } else { u == u0 }) } else { trc(u0, u, k, k + 1, c, -s) && (if has { trr(v0, v, k, k + 1, e, -f) } else { v == v0 }) }
    ensures reach(b0, gu, gv, ub(d2, o2, n, k, k + 2, s2.at(0, 2)), u, v, up), last ==> s2.at(0, 2) == 0real
{
    let t = -s; let (dk, ok, dl) = (d0(k), o0(k), d0(k + 1));
    assert(t * t == s * s) by (nonlinear_arith) requires t == -s;
    let (w0, w1) = (subm(s0, 0, 2, 0, 2), subm(s1, 0, 2, 0, 2));
    assert(s1.at(0, 0) == dk * c + t * ok && s1.at(0, 1) == -t * dk + ok * c && s1.at(1, 0) == 0real * c + t * dl && s1.at(1, 1) == -t * 0real + dl * c) by { assert(w1.at(0, 0) == s1.at(0, 0)); assert(w1.at(1, 0) == s1.at(1, 0)); assert(w0.at(0, 0) == dk); assert(w0.at(1, 0) == 0real); assert(w1.at(0, 1) == s1.at(0, 1)); assert(w1.at(1, 1) == s1.at(1, 1)); }
    zmul(c); zmul(s); zmul(-t); mneg(s, dk); mneg(s, ok); mneg(s, dl); mcom(c, dk); mcom(c, ok); mcom(c, dl);
    let d1 = |i: int| if i == k { c * dk - s * ok } else if i == k + 1 { c * dl } else { d0(i) };
    let o1 = |i: int| if i == k { c * ok + s * dk } else if i == k - 1 { c * o0(k - 1) - s * z0 } else { o0(i) };
    let y1 = -(s * dl);
    gk_col(d0, o0, d1, o1, n, k, z0, y1, c, s);
    let (ba, bb) = (ub(d0, o0, n, k - 1, k + 1, z0), ub(d1, o1, n, k + 1, k, y1)); let bc = ub(d2, o2, n, k, k + 2, s2.at(0, 2));
    let (um, vm) = if up { (u0, v) } else { (u, v0) };
    reach_q(b0, gu, gv, ba, u0, v0, up, bb, um, vm, k, k + 1, c, t);
    if has {
        let g = -f; let m = s1.at(1, 2); let (o1k, d1l) = (c * ok + s * dk, c * dl);
        assert(g * g == f * f) by (nonlinear_arith) requires g == -f;
        let (x0, x1) = (subm(s1, 0, 2, 1, 3), subm(s2, 0, 2, 1, 3));
        assert(x1.at(0, 0) == s2.at(0, 1) && x1.at(1, 0) == s2.at(1, 1) && x1.at(0, 1) == s2.at(0, 2) && x1.at(1, 1) == s2.at(1, 2));
        assert(x0.at(0, 0) == o1k && x0.at(1, 0) == d1l && x0.at(0, 1) == 0real && x0.at(1, 1) == m);
        assert(s2.at(0, 1) == o1k * e + g * d1l && s2.at(1, 1) == -g * o1k + d1l * e && s2.at(0, 2) == 0real * e + g * m && s2.at(1, 2) == -g * 0real + m * e);
        zmul(e); zmul(f); zmul(-g); mneg(f, d1l); mneg(f, o1k); mcom(e, d1l); mcom(e, o1k); mneg(f, m); mcom(e, m);
        gk_row(d1, o1, d2, o2, n, k, y1, s2.at(0, 2), e, f);
        reach_p(b0, gu, gv, bb, um, vm, up, bc, u, v, k, k + 1, e, g);
    } else {
        assert(y1 == 0real);
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] bc.at(i, j) == bb.at(i, j) by { assert(d2(i) == d1(i)); if i + 1 < n { assert(o2(i) == o1(i)); } }
        reach_mid(b0, gu, gv, bb, u, v, up, bc);
    }
}
pub proof fn blk_reach(b0: M, gu: OM, gv: OM, d0: V, o0: V, d1: V, o1: V, n: int, i: int, cu: real, su: real, c: real, s: real, u0: OM, v0: OM, u: OM, v: OM, up: bool)
    requires reach(b0, gu, gv, ub0(d0, o0, n), u0, v0, up), plane(i, i + 1, n), svd2(d0(i), o0(i), d0(i + 1), d1(i), d1(i + 1), cu, su, c, s), o1(i) == 0real, i > 0 ==> o0(i - 1) == 0real, i + 2 < n ==> o0(i + 1) == 0real,
        forall|t: int| #![trigger d1(t)] 0 <= t < n && t != i && t != i + 1 ==> d1(t) == d0(t), forall|t: int| #![trigger o1(t)] 0 <= t < n - 1 && t != i ==> o1(t) == o0(t),
        if up { trc(u0, u, i, i + 1, cu, su) && trr(v0, v, i, i + 1, c, s) } else { trc(u0, u, i, i + 1, c, s) && trr(v0, v, i, i + 1, cu, su) }
    ensures reach(b0, gu, gv, ub0(d1, o1, n), u, v, up)
{
    let b = ub0(d0, o0, n); let b1 = pc(b, i, i + 1, c, s); let (um, vm) = if up { (u0, v) } else { (u, v0) };
    blk_step(d0, o0, d1, o1, n, i, cu, su, c, s);
    assert(same(b1, b1));
    reach_q(b0, gu, gv, b, u0, v0, up, b1, um, vm, i, i + 1, c, s);
    reach_p(b0, gu, gv, b1, um, vm, up, ub0(d1, o1, n), u, v, i, i + 1, cu, su);
}
pub open spec fn diagm(s: V, n: int) -> M { M { nr: n, nc: n, f: |i: int, j: int| if i == j { s(i) } else { 0real } } }
/// compact singular value decomposition: orthonormal columns of u and rows of vt, non-negative s, u diag(s) vt = a
pub open spec fn is_svd(a: M, u: M, s: V, vt: M) -> bool {
    let n = imin(a.nr, a.nc);
    &&& u.nr == a.nr && u.nc == n && vt.nr == n && vt.nc == a.nc
    &&& orth(u) && orth(tr(vt))
    &&& forall|i: int| 0 <= i < n ==> #[trigger] s(i) >= 0real
    &&& same(mm(mm(u, diagm(s, n)), vt), a)
}
pub open spec fn eqo(u: OM, x: M) -> bool { u matches Some(y) ==> same(y.m(), x) }
pub open spec fn has_svd(a: M, u: OM, s: M, vt: OM) -> bool { exists|x: M, y: M| #[trigger] is_svd(a, x, col(s, 0), y) && eqo(u, x) && eqo(vt, y) }
pub open spec fn sgf(d: V, k: real) -> V { |c: int| if d(c) * k < 0real { -1real } else { 1real } }
pub open spec fn colsg(x: M, g: V) -> M { M { nr: x.nr, nc: x.nc, f: |r: int, c: int| x.at(r, c) * g(c) } }
pub proof fn orth_ext(a: M, b: M) requires same(a, b), orth(b) ensures orth(a)
{ same_tr(a, b); mm_ext(tr(a), a, tr(b), b); same_trans(mm(tr(a), a), mm(tr(b), b), ident(b.nc, b.nc)); }
pub proof fn colsg_orth(x: M, g: V) requires orth(x), forall|c: int| #[trigger] g(c) == 1real || g(c) == -1real ensures orth(colsg(x, g))
{
    let y = colsg(x, g);
    assert forall|i: int, j: int| 0 <= i < x.nc && 0 <= j < x.nc implies #[trigger] mm(tr(y), y).at(i, j) == ident(x.nc, x.nc).at(i, j) by {
        assert(mm(tr(x), x).at(i, j) == ident(x.nc, x.nc).at(i, j));
        let (a, b) = (g(i), g(j));
        let (xi, xj, yi, yj) = (col(x, i), col(x, j), col(y, i), col(y, j));
        assert forall|k: int| 0 <= k < x.nr implies #[trigger] yi(k) == a * xi(k) by { mcom(a, xi(k)); }
        assert forall|k: int| 0 <= k < x.nr implies #[trigger] yj(k) == b * xj(k) by { mcom(b, xj(k)); }
        dot_scale(yi, a, xi, yj, 0, x.nr); dot_comm(xi, yj, 0, x.nr); dot_scale(yj, b, xj, xi, 0, x.nr); dot_comm(xj, xi, 0, x.nr);
        dot_ext1(row(tr(y), i), yj, yi, yj, 0, x.nr); dot_ext1(row(tr(x), i), xj, xi, xj, 0, x.nr);
        assert(dot(yi, yj, 0, x.nr) == a * (b * dot(xi, xj, 0, x.nr)));
        zmul(a); zmul(b);
        assert(a * (a * 1real) == 1real) by (nonlinear_arith) requires a == 1real || a == -1real;
    }
}
/// flipping columns and rescaling
pub proof fn sg_fin(a0: M, a1: M, k: real, x: M, dm: M, y: M, d: V, s: V)
    requires orth(x), orth(y), sq(dm), x.nc == dm.nr, y.nc == dm.nr, x.nr == a1.nr, y.nr == a1.nc, dm.nr == imin(a1.nr, a1.nc), dm.nr >= 0, shape(a0, a1), same(dm, diagm(d, dm.nr)), same(two(x, dm, y), a1), k >= 0real,
        forall|i: int, j: int| inb(a0, i, j) ==> #[trigger] a0.at(i, j) == a1.at(i, j) * k, forall|i: int| 0 <= i < dm.nr ==> #[trigger] s(i) == rabs(d(i) * k)
    ensures is_svd(a0, colsg(x, sgf(d, k)), s, tr(y))
{
    let n = dm.nr; let g = sgf(d, k); let x2 = colsg(x, g); let sm = diagm(s, n); let (xd, xs) = (mm(x, dm), mm(x2, sm));
    tr_tr(); colsg_orth(x, g);
    assert forall|r: int, c: int| 0 <= r < x.nr && 0 <= c < n implies #[trigger] xs.at(r, c) == k * xd.at(r, c) by {
        let (u1, v1, u2, v2) = (col(dm, c), row(x, r), col(sm, c), row(x2, r));
        assert forall|t: int| 0 <= t < n && t != c implies #[trigger] u1(t) == 0real by { assert(dm.at(t, c) == diagm(d, n).at(t, c)); }
        assert(dm.at(c, c) == diagm(d, n).at(c, c));
        unit_sum(u1, v1, c, n); dot_comm(u1, v1, 0, n); unit_sum(u2, v2, c, n); dot_comm(u2, v2, 0, n);
        let (e, h, w) = (d(c), g(c), x.at(r, c));
        let z = e * k;
        assert(s(c) == h * z) by { mneg(1real, z); }
        assert((w * h) * (h * z) == w * z) by (nonlinear_arith) requires h == 1real || h == -1real;
        mcom(s(c), w * h); mcom(e, w); mas(w, e, k); mcom(w * e, k);
    }
    assert forall|r: int, c: int| 0 <= r < a0.nr && 0 <= c < a0.nc implies #[trigger] mm(xs, tr(y)).at(r, c) == a0.at(r, c) by {
        assert(two(x, dm, y).at(r, c) == a1.at(r, c));
        let (v, v0) = (row(xs, r), row(xd, r));
        assert forall|t: int| 0 <= t < n implies #[trigger] v(t) == k * v0(t) by { assert(xs.at(r, t) == k * xd.at(r, t)); }
        dot_scale(v, k, v0, col(tr(y), c), 0, n);
        mcom(k, a1.at(r, c));
    }
}
pub proof fn two_tr(p: M, b: M, q: M) requires p.nc == b.nr, b.nc == q.nc, p.nc >= 0, b.nc >= 0 ensures same(tr(two(p, b, q)), two(q, tr(b), p))
{
    tr_tr();
    let (pb, m) = (mm(p, b), mm(mm(q, tr(b)), tr(p)));
    mm_tr(pb, tr(q)); mm_tr(p, b);
    assert(same(q, q));
    mm_ext(q, tr(pb), q, mm(tr(b), tr(p))); mm_assoc(q, tr(b), tr(p)); same_sym(mm(mm(q, tr(b)), tr(p)), mm(q, mm(tr(b), tr(p))));
    same_trans(tr(two(p, b, q)), mm(q, tr(pb)), mm(q, mm(tr(b), tr(p)))); same_trans(tr(two(p, b, q)), mm(q, mm(tr(b), tr(p))), m);
}
pub proof fn svd_fin(a0: M, a1: M, k: real, ul: M, bm: M, vl: M, up: bool, d0: M, o0: M, u0: OM, v0: OM, d: M, o: M, u: OM, v: OM, s: M, u2: OM)
    requires is_bidiag(a1, ul, bm, vl), shape(a0, a1), k >= 0real, forall|i: int, j: int| inb(a0, i, j) ==> #[trigger] a0.at(i, j) == a1.at(i, j) * k,
        d0.nr == imin(a1.nr, a1.nc), d0.nr >= 1, same(ub0(col(d0, 0), col(o0, 0), d0.nr), if up { bm } else { tr(bm) }),
        u0 matches Some(x) ==> same(x.m(), ul), v0 matches Some(x) ==> same(x.m(), vl), went(d0, o0, u0, v0, d, o, u, v, up), ocut(col(o, 0), 0, d0.nr),
        forall|i: int| 0 <= i < d0.nr ==> #[trigger] s.at(i, 0) == rabs(d.at(i, 0) * k), u2 is Some <==> u is Some, u2 matches Some(x) ==> same(x.m(), colsg(u->0.m(), sgf(col(d, 0), k)))
    ensures has_svd(a0, u2, s, v)
{
    tr_tr();
    reveal(reach);
    let n = d0.nr; let (b0, b) = (ub0(col(d0, 0), col(o0, 0), n), ub0(col(d, 0), col(o, 0), n)); let yl = tr(vl); let dd = col(d, 0);
    let (p, q) = choose|p: M, q: M| #[trigger] steps(p, q, b0, b) && lk(u0, v0, u, v, up, p, q);
    let (f, g) = if up { (p, q) } else { (q, p) };
    let bd = if up { b } else { tr(b) };
    let (x, y) = (mm(ul, f), mm(yl, g));
    assert(same(bd, diagm(dd, n))) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] bd.at(i, j) == diagm(dd, n).at(i, j) by { if i + 1 < n { assert(col(o, 0)(i) == 0real); } if j + 1 < n { assert(col(o, 0)(j) == 0real); } } }
    // two(f, bd, g) = bm
    if up { same_trans(two(p, b, q), b0, bm); }
    else { two_tr(p, b, q); same_tr(two(p, b, q), b0); same_tr(b0, tr(bm)); same_sym(tr(two(p, b, q)), two(q, tr(b), p)); same_trans(two(q, tr(b), p), tr(two(p, b, q)), tr(b0)); same_trans(two(q, tr(b), p), tr(b0), bm); }
    two_nest(ul, f, bd, g, yl);
    assert(same(ul, ul)); assert(same(yl, yl));
    mm_ext(ul, two(f, bd, g), ul, bm); two_left(ul, two(f, bd, g), ul, bm, yl, yl);
    same_trans(two(x, bd, y), two(ul, two(f, bd, g), yl), two(ul, bm, yl)); same_trans(two(x, bd, y), two(ul, bm, yl), a1);
    orth_mm(ul, f); orth_mm(yl, g);
    sg_fin(a0, a1, k, x, bd, y, dd, col(s, 0));
    let x2 = colsg(x, sgf(dd, k));
    if u2 is Some {
        let (uu, z0) = (u->0.m(), u0->0.m());
        assert(same(f, f)); mm_ext(z0, f, ul, f); same_trans(uu, mm(z0, f), x);
        assert forall|i: int, j: int| inb(x2, i, j) implies #[trigger] u2->0.m().at(i, j) == x2.at(i, j) by { assert(uu.at(i, j) == x.at(i, j)); assert(u2->0.m().at(i, j) == colsg(uu, sgf(dd, k)).at(i, j)); }
        assert(same(u2->0.m(), x2));
    }
    if v is Some {
        let (vv, z0) = (tr(v->0.m()), tr(v0->0.m()));
        same_tr(v0->0.m(), vl);
        assert(same(g, g)); mm_ext(z0, g, yl, g); same_trans(vv, mm(z0, g), y); same_tr(vv, y);
    }
    assert(is_svd(a0, x2, col(s, 0), tr(y)) && eqo(u2, x2) && eqo(v, tr(y)));
}
pub proof fn mul_nz(a: real, b: real) requires a != 0real, b != 0real ensures a * b != 0real { assert(a * b != 0real) by (nonlinear_arith) requires a != 0real, b != 0real; }
F}
// ---- sorting ----------------------------------------------------------------------------------------------------
F:pub open spec fn nan_free(m: M) -> bool { true }
S:pub open spec fn nan_free(m: M) -> bool { forall|i: int| 0 <= i < m.nr ==> !nanv(#[trigger] m.at(i, 0)) }
pub open spec fn ordered(v: V, n: int, o: crate::Order) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> (if o is Largest { ordv(#[trigger] v(i)) >= ordv(#[trigger] v(j)) } else { ordv(v(i)) <= ordv(v(j)) }) }
/// row i of r is row p[i] of m
pub open spec fn taken(r: M, m: M, p: Seq<int>) -> bool { forall|i: int, c: int| 0 <= i < p.len() && 0 <= c < m.nc ==> #[trigger] r.at(i, c) == m.at(p[i], c) }
/// columns (rows) of z are those of m in the order of the indices
pub open spec fn moved(z: M, m: M, x: Seq<(usize, Fl)>, rows: bool) -> bool {
    if rows { forall|i: int, c: int| 0 <= i < x.len() && 0 <= c < m.nc ==> #[trigger] z.at(i, c) == m.at(x[i].0 as int, c) } else { forall|c: int, i: int| 0 <= i < x.len() && 0 <= c < m.nr ==> #[trigger] z.at(c, i) == m.at(c, x[i].0 as int) }
}
pub open spec fn svd_sorted(u0: Option<crate::ndarray::Array2<Fl>>, s0: M, v0: Option<crate::ndarray::Array2<Fl>>, u: Option<crate::ndarray::Array2<Fl>>, s: M, v: Option<crate::ndarray::Array2<Fl>>, o: crate::Order) -> bool {
    same_opt(u, u0) && shape(s, s0) && same_opt(v, v0) && ordered(col(s, 0), s.nr, o)
    && exists|p: Seq<int>| is_perm(p, s0.nr) && #[trigger] taken(s, s0, p) && (u matches Some(x) ==> taken(tr(x.m()), tr(u0->0.m()), p)) && (v matches Some(x) ==> taken(x.m(), v0->0.m(), p))
}
pub use crate::std_shim::is_perm;
}
