//! Executable contracts: one function per property, checking the statement on one generated case.
use crate::gen::*;
use linfa_linalg::{bidiagonal::*, cholesky::*, eigh::*, lobpcg::*, norm::*, qr::*, reflection::*, svd::*, triangular::*, tridiagonal::*, LinalgError, Order};
use ndarray::*;
use rand::prelude::*;
use rand_xoshiro::Xoshiro256Plus;
use std::collections::BTreeMap;
use std::sync::Mutex;

pub type R = Result<(), String>;
pub static WORST: Mutex<BTreeMap<&'static str, f64>> = Mutex::new(BTreeMap::new());

macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } } }
macro_rules! tryc { ($e:expr) => { $e? } }

pub fn m64<A: Fl>(a: &ArrayBase<impl Data<Elem = A>, Ix2>) -> Array2<f64> { a.mapv(|x| x.f()) }
pub fn v64<A: Fl>(a: &ArrayBase<impl Data<Elem = A>, Ix1>) -> Array1<f64> { a.mapv(|x| x.f()) }
pub fn mx<D: Dimension>(a: &ArrayBase<impl Data<Elem = f64>, D>) -> f64 { a.iter().fold(0f64, |m, x| if x.is_nan() { f64::INFINITY } else { m.max(x.abs()) }) }
fn eye(n: usize) -> Array2<f64> { Array2::eye(n) }
fn same<A: Fl, D: Dimension>(a: &ArrayBase<impl Data<Elem = A>, D>, b: &ArrayBase<impl Data<Elem = A>, D>) -> bool {
    a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x.bits() == y.bits() || (x.is_nan() && y.is_nan()))
}
fn eqv<A: Fl, D: Dimension>(a: &ArrayBase<impl Data<Elem = A>, D>, b: &ArrayBase<impl Data<Elem = A>, D>) -> bool {
    a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
}
/// err <= limit * EPS * (n+4) * scale
fn close<A: Fl>(name: &'static str, err: f64, scale: f64, n: usize) -> R { closel::<A>(name, err, scale, n, 40.) }
fn closel<A: Fl>(name: &'static str, err: f64, scale: f64, n: usize, limit: f64) -> R {
    let floor = if A::NAME == "f32" { 1e-36 } else { 1e-292 };
    let slack = if A::NAME == "f32" { 1e-35 } else { 1e-300 };
    let err = if err <= slack { 0. } else { err };
    let q = err / (A::EPS * (n as f64 + 4.) * scale.max(floor));
    let q = if err == 0. { 0. } else { q };
    { let mut w = WORST.lock().unwrap(); let e = w.entry(name).or_insert(0.); if q.is_nan() { *e = f64::INFINITY } else if q > *e { *e = q } }
    if !(q <= limit) { return Err(format!("{name}: error {err:e} at scale {scale:e} is {q:.3e} units of EPS*(n+4), limit {limit}")); }
    Ok(())
}
fn orth_cols<A: Fl>(name: &'static str, q: &Array2<f64>) -> R {
    close::<A>(name, mx(&(q.t().dot(q) - eye(q.ncols()))), 1., q.nrows())
}
fn uplo(g: &mut Gen) -> UPLO { let u = if g.chance(0.5) { UPLO::Upper } else { UPLO::Lower }; g.note(format!("uplo {u:?}")); u }
/// generic dispatch over f32/f64
macro_rules! f3264 { ($g:expr, $f:ident) => { if $g.chance(0.3) { $f::<f32>($g) } else { $f::<f64>($g) } } }

pub fn run(id: &str, g: &mut Gen) -> R {
    match id {
        "C01" => f3264!(g, c01), "C02" => f3264!(g, c02), "C03" => f3264!(g, c03), "C04" => f3264!(g, c04), "C05" => f3264!(g, c05),
        "C06" => f3264!(g, c06), "C07" => f3264!(g, c07), "C08" => f3264!(g, c08), "C09" => f3264!(g, c09), "C10" => f3264!(g, c10),
        "C11" => f3264!(g, c11), "C12" => f3264!(g, c12), "C13" => f3264!(g, c13), "C14" => f3264!(g, c14), "C15" => f3264!(g, c15),
        "C16" => c16(g), "C17" => c17(g), "C18" => c18(g), "C19" => f3264!(g, c19),
        _ => Err(format!("unknown property {id}")),
    }
}

fn err_str<T>(r: &Result<T, LinalgError>) -> String { match r { Ok(_) => "Ok".into(), Err(e) => format!("{e:?}") } }

// ---------------------------------------------------------------- C01
fn c01<A: Fl>(g: &mut Gen) -> R {
    let op = g.below(16);
    g.note(format!("op {op}"));
    let sq = g.chance(0.5);
    let r = g.dim(0);
    let c = if sq { r } else { g.dim(0) };
    let mut a: Array2<A> = g.mat("a", r, c);
    let special = g.chance(0.3) && r * c > 0;
    if special && op != 12 {
        for _ in 0..1 + g.below(3) { let (i, j) = (g.below(r), g.below(c)); a[(i, j)] = [A::nan(), A::infinity(), A::neg_infinity(), A::max_value(), A::min_positive_value()][g.below(5)]; }
        g.record("a with specials", &a);
    }
    let lay = g.layout();
    let u = uplo(g);
    let rb = if g.chance(0.6) { r } else { g.dim(0) };
    let cb = g.dim(0);
    let b: Array2<A> = g.mat("b", rb, cb);
    let (mut la, mut lb) = (Lay::new(&a, lay), Lay::new(&b, lay));
    let sym = |mut a: Array2<A>| { let n = a.nrows().min(a.ncols()); for i in 0..n { for j in 0..i { a[(i, j)] = a[(j, i)] } } a };
    match op {
        0 => { let _ = la.vm().triangular_inplace(u).map(|_| ()); }
        1 => { let _ = la.v().is_triangular(u); }
        2 => { let _ = la.v().solve_triangular_inplace(&mut lb.vm(), u).map(|_| ()); }
        3 => { let _ = la.vm().cholesky_inplace_dirty().map(|_| ()); }
        4 => { let _ = la.vm().cholesky_inplace().map(|_| ()); }
        5 => { let _ = la.vm().solvec_inplace(&mut lb.vm()).map(|_| ()); }
        6 => { let _ = la.v().invc(); }
        7 => { if let Ok(d) = la.vm().qr_into() { let _ = d.generate_q(); let _ = d.is_invertible(); let _ = d.inverse(); let _ = d.solve(&lb.v()); let _ = d.solve_tr(&lb.v()); let _ = d.solve_into(lb.vm()); let _ = d.into_r(); } }
        8 => { let _ = la.v().to_owned().least_squares(&lb.v()); }
        9 => { if let Ok(d) = la.vm().sym_tridiagonal() { let _ = d.generate_q(); let _ = d.into_tridiag_matrix(); } }
        10 => { if let Ok(d) = la.vm().bidiagonal() { let _ = d.generate_u(); let _ = d.generate_vt(); let _ = d.into_b(); } }
        11 => { let m = sym(a.clone()); let f = special; if !f { let _ = Lay::new(&m, lay).v().eigh(); let _ = m.eigvalsh_into(); } else if r <= 2 { let _ = m.eigh(); } }
        12 => { let _ = la.v().svd(g.chance(0.5), g.chance(0.5)); }
        13 => { let x = la.v(); let _ = (x.norm_l1(), x.norm_l2(), x.norm_max()); }
        14 => { let ax = g.mat::<A>("axis", r, 1); let bias = A::of(g.unit()); let l = Lay::new(&ax, lay); Reflection::new(l.v().column(0), bias).reflect_cols(&mut la.vm()); }
        _ => { let ax = g.mat::<A>("axis", c, 1); let bias = A::of(g.unit()); let l = Lay::new(&ax, lay); Reflection::new(l.v().column(0), bias).reflect_rows(&mut la.vm()); }
    }
    ensure!(la.frame_ok(), "elements outside the matrix operand changed");
    ensure!(lb.frame_ok(), "elements outside the right-hand side operand changed");
    Ok(())
}

// ---------------------------------------------------------------- C02
fn is_err<T>(name: &str, r: &Result<T, LinalgError>, want: &str) -> R {
    let got = err_str(r);
    ensure!(got == want, "{name}: expected {want}, got {got}");
    Ok(())
}
fn not_err<T>(name: &str, r: Result<T, LinalgError>) -> Result<T, String> { r.map_err(|e| format!("{name}: unexpected error {e:?}")) }
fn dimsof<A>(name: &str, a: &ArrayBase<impl Data<Elem = A>, Ix2>, d: (usize, usize)) -> R { ensure!(a.dim() == d, "{name}: dimensions {:?}, expected {:?}", a.dim(), d); Ok(()) }
fn len1<A>(name: &str, a: &ArrayBase<impl Data<Elem = A>, Ix1>, d: usize) -> R { ensure!(a.len() == d, "{name}: length {}, expected {}", a.len(), d); Ok(()) }

fn c02<A: Fl>(g: &mut Gen) -> R {
    let sq = g.chance(0.5);
    let r = g.dim(0);
    let c = if sq { r } else { g.dim(0) };
    let a: Array2<A> = g.mat("a", r, c);
    let rb = if g.chance(0.5) { r } else { g.dim(0) };
    let cb = g.dim(0);
    let b: Array2<A> = g.mat("b", rb, cb);
    let u = uplo(g);
    let nsq = format!("NotSquare {{ rows: {r}, cols: {c} }}");
    let wr = |e: usize| format!("WrongRows {{ expected: {e}, actual: {rb} }}");
    let op = g.below(10);
    g.note(format!("op {op}"));
    match op {
        0 => {
            let t = a.clone().into_triangular(u);
            if r != c { tryc!(is_err("into_triangular", &t, &nsq)); tryc!(is_err("triangular_inplace", &a.clone().triangular_inplace(u).map(|_| ()), &nsq)); ensure!(!a.is_triangular(u), "non-square is_triangular"); }
            else { tryc!(dimsof("into_triangular", &not_err("into_triangular", t)?, (r, c))); }
        }
        1 => {
            let t = a.solve_triangular(&b, u);
            let t2 = a.solve_triangular_into(b.clone(), u);
            let mut b3 = b.clone();
            let t3 = a.solve_triangular_inplace(&mut b3, u).map(|_| ());
            if r != c || rb != r {
                let w = if r != c { nsq } else { wr(r) };
                tryc!(is_err("solve_triangular", &t, &w)); tryc!(is_err("solve_triangular_into", &t2, &w)); tryc!(is_err("solve_triangular_inplace", &t3, &w));
                ensure!(same(&b3, &b), "right-hand side modified on error");
            } else { tryc!(dimsof("solve_triangular", &not_err("solve_triangular", t)?, (r, cb))); tryc!(dimsof("solve_triangular_into", &not_err("x", t2)?, (r, cb))); tryc!(not_err("solve_triangular_inplace", t3)); }
        }
        2 => {
            for (nm, t) in [("cholesky", a.cholesky()), ("cholesky_dirty", a.cholesky_dirty()), ("cholesky_into", a.clone().cholesky_into()), ("cholesky_into_dirty", a.clone().cholesky_into_dirty())] {
                if r != c { tryc!(is_err(nm, &t, &nsq)); }
                else { match t { Ok(l) => tryc!(dimsof(nm, &l, (r, r))), Err(LinalgError::NotPositiveDefinite) => {}, Err(e) => return Err(format!("{nm}: {e:?}")) } }
            }
        }
        3 => {
            // make A positive definite when square to see the right-hand side check
            let spd = if r == c { let x = m64(&a); let s = mx(&x).max(1e-30); let x = &x / s; let y = x.dot(&x.t()) + eye(r) ; y.mapv(|q| A::of(q)) } else { a.clone() };
            let t = spd.clone().solvec(&b); let t2 = spd.clone().solvec_into(b.clone()); let mut b3 = b.clone(); let t3 = spd.clone().solvec_inplace(&mut b3).map(|_| ());
            let i1 = spd.invc(); let i2 = spd.clone().invc_inplace();
            if r != c || rb != r {
                let w = if r != c { nsq.clone() } else { wr(r) };
                tryc!(is_err("solvec", &t, &w)); tryc!(is_err("solvec_into", &t2, &w)); tryc!(is_err("solvec_inplace", &t3, &w));
            } else { tryc!(dimsof("solvec", &not_err("solvec", t)?, (r, cb))); tryc!(not_err("solvec_into", t2)); tryc!(not_err("solvec_inplace", t3)); }
            if r != c { tryc!(is_err("invc", &i1, &nsq)); tryc!(is_err("invc_inplace", &i2, &nsq)); } else { tryc!(dimsof("invc", &not_err("invc", i1)?, (r, r))); tryc!(dimsof("invc_inplace", &not_err("invc_inplace", i2)?, (r, r))); }
        }
        4 | 5 => {
            let t = a.qr();
            if r < c { let w = format!("NotThin {{ rows: {r}, cols: {c} }}"); tryc!(is_err("qr", &t, &w)); tryc!(is_err("qr_into", &a.clone().qr_into(), &w)); }
            else {
                let d = not_err("qr", t)?;
                tryc!(dimsof("Q", &d.generate_q(), (r, c)));
                tryc!(dimsof("R", &d.clone().into_r(), (c, c)));
                let (q, rr) = d.clone().into_decomp();
                tryc!(dimsof("Q", &q, (r, c))); tryc!(dimsof("R", &rr, (c, c)));
                let inv = d.is_invertible();
                let s = d.solve(&b); let s2 = d.solve_into(b.clone());
                if rb != r { tryc!(is_err("qr solve", &s, &wr(r))); tryc!(is_err("qr solve_into", &s2, &wr(r))); }
                else if !inv { tryc!(is_err("qr solve", &s, "NonInvertible")); tryc!(is_err("qr solve_into", &s2, "NonInvertible")); }
                else { tryc!(dimsof("qr solve", &not_err("qr solve", s)?, (c, cb))); tryc!(dimsof("qr solve_into", &not_err("qr solve_into", s2)?, (c, cb))); }
                let s = d.solve_tr(&b); let s2 = d.solve_tr_into(b.clone());
                if rb != c { tryc!(is_err("qr solve_tr", &s, &wr(c))); tryc!(is_err("qr solve_tr_into", &s2, &wr(c))); }
                else if !inv { tryc!(is_err("qr solve_tr", &s, "NonInvertible")); tryc!(is_err("qr solve_tr_into", &s2, "NonInvertible")); }
                else { tryc!(dimsof("qr solve_tr", &not_err("qr solve_tr", s)?, (r, cb))); tryc!(dimsof("solve_tr_into", &not_err("solve_tr_into", s2)?, (r, cb))); }
                let i = d.inverse();
                if r != c { tryc!(is_err("qr inverse", &i, &nsq)); } else if !inv { tryc!(is_err("qr inverse", &i, "NonInvertible")); } else { tryc!(dimsof("qr inverse", &not_err("qr inverse", i)?, (r, r))); }
            }
        }
        6 => {
            for t in [a.clone().least_squares(&b), a.clone().least_squares_into(b.clone())] {
                if rb != r { tryc!(is_err("least_squares", &t, &wr(r))); }
                else { match t { Ok(x) => tryc!(dimsof("least_squares", &x, (c, cb))), Err(LinalgError::NonInvertible) => {}, Err(e) => return Err(format!("least_squares: {e:?}")) } }
            }
        }
        7 => {
            let t = a.clone().sym_tridiagonal();
            if r != c { tryc!(is_err("sym_tridiagonal", &t, &nsq)); }
            else if r == 0 { tryc!(is_err("sym_tridiagonal", &t, "EmptyMatrix")); }
            else { let d = not_err("sym_tridiagonal", t)?; tryc!(dimsof("Q", &d.generate_q(), (r, r))); let (dg, of) = d.clone().into_diagonals(); tryc!(len1("diag", &dg, r)); tryc!(len1("off", &of, r - 1)); tryc!(dimsof("T", &d.into_tridiag_matrix(), (r, r))); }
        }
        8 => {
            let t = a.clone().bidiagonal();
            let k = r.min(c);
            if k == 0 { tryc!(is_err("bidiagonal", &t, "EmptyMatrix")); }
            else { let d = not_err("bidiagonal", t)?; tryc!(dimsof("U", &d.generate_u(), (r, k))); tryc!(dimsof("Vt", &d.generate_vt(), (k, c))); let (dg, of) = d.clone().into_diagonals(); tryc!(len1("diag", &dg, k)); tryc!(len1("off", &of, k - 1)); tryc!(dimsof("B", &d.into_b(), (k, k))); }
        }
        _ => {
            let (cu, cv) = (g.chance(0.5), g.chance(0.5));
            for t in [a.svd(cu, cv), a.clone().svd_into(cu, cv)] {
                let k = r.min(c);
                if k == 0 { tryc!(is_err("svd", &t, "EmptyMatrix")); }
                else { let (u, s, vt) = not_err("svd", t)?; tryc!(len1("sigma", &s, k)); ensure!(u.is_some() == cu && vt.is_some() == cv, "svd factors returned: {} {}", u.is_some(), vt.is_some()); if let Some(u) = u { tryc!(dimsof("U", &u, (r, k))); } if let Some(v) = vt { tryc!(dimsof("Vt", &v, (k, c))); } }
            }
            let mut m = a.clone();
            if r == c { for i in 0..r { for j in 0..i { m[(i, j)] = m[(j, i)] } } }
            for t in [m.eigh(), m.clone().eigh_into()] {
                if r != c { tryc!(is_err("eigh", &t, &nsq)); } else { let (w, v) = not_err("eigh", t)?; tryc!(len1("eigenvalues", &w, r)); tryc!(dimsof("eigenvectors", &v, (r, r))); }
            }
            for t in [m.eigvalsh(), m.clone().eigvalsh_into()] {
                if r != c { tryc!(is_err("eigvalsh", &t, &nsq)); } else { tryc!(len1("eigenvalues", &not_err("eigvalsh", t)?, r)); }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03
fn c03<A: Fl>(g: &mut Gen) -> R {
    let n = g.dim(0);
    let mut a: Array2<A> = g.mat("a", n, n);
    if n > 0 && g.chance(0.2) { let (i, j) = (g.below(n), g.below(n)); a[(i, j)] = A::nan(); g.record("a", &a); }
    let u = uplo(g);
    if g.chance(0.4) { for i in 0..n { for j in 0..n { if (u == UPLO::Upper && j < i) || (u == UPLO::Lower && j > i) { a[(i, j)] = if g.chance(0.1) { A::of(-0.0) } else { A::zero() } } } }
        if n > 1 && g.chance(0.4) { let i = g.below(n); let j = g.below(n); if i != j { a[(i, j)] = A::of(1e-30); } }
        g.record("a", &a); }
    let lay = g.layout();
    let mut la = Lay::new(&a, lay);
    let out = |i: usize, j: usize| if u == UPLO::Upper { j < i } else { j > i };
    let want = (0..n).all(|i| (0..n).all(|j| !out(i, j) || a[(i, j)] == A::zero()));
    ensure!(la.v().is_triangular(u) == want, "is_triangular returned {}, expected {want}", !want);
    { let mut v = la.vm(); let r = v.triangular_inplace(u); ensure!(r.is_ok(), "triangular_inplace failed"); }
    let o = la.v().to_owned();
    for i in 0..n { for j in 0..n {
        if out(i, j) { ensure!(o[(i, j)] == A::zero(), "element ({i},{j}) outside the triangle is {}", o[(i, j)]); }
        else { ensure!(o[(i, j)].bits() == a[(i, j)].bits() || o[(i, j)].is_nan() && a[(i, j)].is_nan(), "element ({i},{j}) inside the triangle changed from {} to {}", a[(i, j)], o[(i, j)]); }
    } }
    ensure!(la.frame_ok(), "elements outside the operand changed");
    ensure!(o.is_triangular(u), "result is not triangular");
    let o2 = Lay::new(&a, lay).owned().into_triangular(u).map_err(|e| format!("{e:?}"))?;
    ensure!(same(&o, &o2), "into_triangular differs from triangular_inplace");
    // integer elements
    let ai = Array2::from_shape_fn((n, n), |(i, j)| (i * 31 + j * 7) as i64 % 5 - 2);
    let oi = ai.clone().into_triangular(u).map_err(|e| format!("{e:?}"))?;
    for i in 0..n { for j in 0..n { ensure!(oi[(i, j)] == if out(i, j) { 0 } else { ai[(i, j)] }, "integer matrix wrong at ({i},{j})"); } }
    ensure!(ai.is_triangular(u) == (0..n).all(|i| (0..n).all(|j| !out(i, j) || ai[(i, j)] == 0)), "integer is_triangular wrong");
    Ok(())
}

fn tri64<A: Fl>(a: &Array2<A>, u: UPLO) -> Array2<f64> {
    let n = a.nrows();
    Array2::from_shape_fn((n, n), |(i, j)| if (u == UPLO::Upper && j < i) || (u == UPLO::Lower && j > i) { 0. } else { a[(i, j)].f() })
}
/// max over entries of |A X - B| / (|A||X| + |B|), returned as (err, scale) pairs checked with `close`
fn backward<A: Fl>(name: &'static str, a: &Array2<f64>, x: &Array2<f64>, b: &Array2<f64>) -> R {
    ensure!(x.iter().all(|v| v.is_finite()), "{name}: result not finite: {x}");
    let r = a.dot(x) - b;
    let s = a.mapv(f64::abs).dot(&x.mapv(f64::abs)) + b.mapv(f64::abs);
    for ((i, j), &e) in r.indexed_iter() { tryc!(close::<A>(name, e.abs(), s[(i, j)], a.nrows())); }
    Ok(())
}
// ---------------------------------------------------------------- C04
fn c04<A: Fl>(g: &mut Gen) -> R {
    let n = g.dim(0);
    let k = g.dim(0);
    let u = uplo(g);
    let mut a0 = g.raw(n, n);
    for i in 0..n { let d = a0[(i, i)]; let m = [0.5, 1., 2., 3.][g.below(4)]; a0[(i, i)] = if d < 0. { d - m } else { d + m }; }
    let mut a: Array2<A> = a0.mapv(|x| A::of(x));
    if n > 1 && g.chance(0.4) { // garbage in the other triangle
        for i in 0..n { for j in 0..n { if (u == UPLO::Upper && j < i) || (u == UPLO::Lower && j > i) { a[(i, j)] = [A::nan(), A::infinity(), A::of(1e5), A::of(-3.)][g.below(4)] } } }
    }
    g.record("a", &a);
    let b0 = g.raw(n, k);
    let b: Array2<A> = b0.mapv(|x| A::of(x)); g.record("b", &b);
    let (l1, l2) = (g.layout(), g.layout());
    let (mut la, mut lb) = (Lay::new(&a, l1), Lay::new(&b, l2));
    { let mut v = lb.vm(); la.v().solve_triangular_inplace(&mut v, u).map_err(|e| format!("{e:?}"))?; }
    let x = lb.v().to_owned();
    ensure!(same(&la.v(), &a.view()) && la.frame_ok(), "matrix modified");
    ensure!(lb.frame_ok(), "elements outside the right-hand side changed");
    let t = tri64(&a, u);
    let x64 = m64(&x);
    if x64.iter().all(|v| v.abs() < 1e30) && t.iter().all(|v| v.is_finite()) { tryc!(backward::<A>("A*X=B", &t, &x64, &m64(&b))); }
    // other triangle never read
    let mut a2 = a.clone();
    for i in 0..n { for j in 0..n { if (u == UPLO::Upper && j < i) || (u == UPLO::Lower && j > i) { a2[(i, j)] = A::zero() } } }
    let mut lc = Lay::new(&b, l2);
    { let mut v = lc.vm(); Lay::new(&a2, l1).v().solve_triangular_inplace(&mut v, u).map_err(|e| format!("{e:?}"))?; }
    ensure!(eqv(&x, &lc.v().to_owned()), "result depends on the other triangle");
    let small = x64.iter().all(|v| v.abs() < 1e30);
    let x2 = a2.solve_triangular(&b, u).map_err(|e| format!("{e:?}"))?;
    if small && !eqv(&x, &x2) { tryc!(backward::<A>("A*X=B", &t, &m64(&x2), &m64(&b))); }
    let x3 = la.v().solve_triangular_into(lb_new(&b, l2), u).map_err(|e| format!("{e:?}"))?;
    if small && !eqv(&x, &x3) { tryc!(backward::<A>("A*X=B", &t, &m64(&x3), &m64(&b)).map_err(|e| format!("consuming form: {e}"))); }
    // columns are independent
    if k > 0 { let j = g.below(k); let xj = a2.solve_triangular(&b.slice(s![.., j..j + 1]).to_owned(), u).map_err(|e| format!("{e:?}"))?; if small && !eqv(&xj, &x.slice(s![.., j..j + 1])) { tryc!(backward::<A>("A*X=B", &t, &m64(&xj), &m64(&b.slice(s![.., j..j + 1])))); } }
    Ok(())
}
fn lb_new<A: Fl>(b: &Array2<A>, l: u8) -> Array2<A> { Lay::new(b, l).owned() }

fn pd<A: Fl>(g: &mut Gen, n: usize) -> Array2<f64> {
    let x = g.raw(n, n);
    let s = mx(&x).max(1e-30);
    let x = x / s;
    let mut y = x.dot(&x.t());
    let d = [if A::NAME == "f32" { 0.02 } else { 1e-6 }, 1e-2, 0.1, 1., 3.][g.below(5)] * (1. + n as f64 / 10.);
    for i in 0..n { y[(i, i)] += d; }
    for i in 0..n { for j in 0..i { y[(j, i)] = y[(i, j)]; } }
    let sc = if g.chance(0.2) { 2f64.powi(g.rng.gen_range(-60..60) / if A::NAME == "f32" { 4 } else { 1 }) } else { 1. };
    y.mapv(|x| A::of(x * sc).f())
}
/// smallest eigenvalue sign by f64 Cholesky on a shifted matrix: -1 / 0 (undecided) / 1
fn pd_oracle(a: &Array2<f64>, eps: f64) -> i32 {
    let n = a.nrows();
    let sc: Vec<f64> = (0..n).map(|i| a[(i, i)].abs()).collect();
    if sc.iter().any(|x| !(*x > 0.)) || (0..n).any(|i| a[(i, i)] <= 0.) { return -1; }
    let try_shift = |sh: f64| -> bool {
        // scaled matrix D^-1/2 A D^-1/2 + sh I
        let mut l = Array2::<f64>::zeros((n, n));
        for j in 0..n {
            for k in 0..=j {
                let mut s = a[(j, k)] / (sc[j].sqrt() * sc[k].sqrt()) + if j == k { sh } else { 0. };
                for i in 0..k { s -= l[(j, i)] * l[(k, i)]; }
                if j == k { if !(s > 0.) { return false; } l[(j, j)] = s.sqrt(); } else { l[(j, k)] = s / l[(k, k)]; }
            }
        }
        true
    };
    let t = 50. * (n as f64 + 4.) * eps;
    if try_shift(-t) { 1 } else if !try_shift(t) { -1 } else { 0 }
}
// ---------------------------------------------------------------- C05
fn c05<A: Fl>(g: &mut Gen) -> R {
    let n = g.dim(0);
    let mut a64 = pd::<A>(g, n);
    let mode = g.below(8);
    match mode {
        0 => if n > 0 { let i = g.below(n); a64[(i, i)] = -a64[(i, i)] * [1., 0., 1e-3][g.below(3)]; },
        1 => if n > 0 { let i = n - 1; a64[(i, i)] *= [0.0, 0.1, 0.5, 0.9][g.below(4)]; },
        2 => { let mut m = g.raw(n, n); for i in 0..n { for j in 0..i { m[(j, i)] = m[(i, j)]; } } a64 = m.mapv(|x| A::of(x).f()); }
        3 => { // exactly representable SPD from integer L
            let mut l = Array2::<f64>::zeros((n, n)); for i in 0..n { for j in 0..i { l[(i, j)] = g.rng.gen_range(-2..3) as f64; } l[(i, i)] = g.rng.gen_range(1..4) as f64; } a64 = l.dot(&l.t());
            if n > 0 && g.chance(0.5) { let i = g.below(n); let li: f64 = l[(i, i)]; a64[(i, i)] -= li * li; if g.chance(0.3) { a64[(i, i)] -= 1.; } } }
        _ => {}
    }
    let mut a: Array2<A> = a64.mapv(|x| A::of(x));
    let nan = n > 0 && g.chance(0.06);
    if nan { let i = g.below(n); let j = g.below(i + 1); a[(i, j)] = A::nan(); }
    if g.chance(0.4) { for i in 0..n { for j in i + 1..n { a[(i, j)] = [A::nan(), A::of(1e9), A::of(-5.5), A::infinity()][g.below(4)]; } } }
    g.record("a", &a);
    let lay = g.layout();
    let mut la = Lay::new(&a, lay);
    let ok = { let mut v = la.vm(); let r = v.cholesky_inplace_dirty(); match r { Ok(_) => true, Err(LinalgError::NotPositiveDefinite) => false, Err(e) => return Err(format!("wrong error {e:?}")) } };
    ensure!(la.frame_ok(), "elements outside the operand changed");
    let o = la.v().to_owned();
    for i in 0..n { for j in i + 1..n { ensure!(o[(i, j)].bits() == a[(i, j)].bits() || o[(i, j)].is_nan() && a[(i, j)].is_nan(), "dirty form changed upper element ({i},{j})"); } }
    if nan { ensure!(!ok, "succeeded on NaN"); }
    let alow = { let mut m = Array2::<f64>::zeros((n, n)); for i in 0..n { for j in 0..=i { m[(i, j)] = a[(i, j)].f(); m[(j, i)] = m[(i, j)]; } } m };
    if !nan {
        let exact = mode == 3;
        let o = if exact { let (is, _) = (exact_pd(&alow), 0); if is { 1 } else { -1 } } else { pd_oracle(&alow, A::EPS) };
        ensure!(!(ok && o == -1), "succeeded on a matrix that is not positive definite");
        ensure!(!(!ok && o == 1), "failed on a positive definite matrix");
    }
    if ok {
        let mut l = m64(&o); for i in 0..n { for j in i + 1..n { l[(i, j)] = 0.; } ensure!(l[(i, i)] > 0., "diagonal element {i} of L is {}", l[(i, i)]); }
        let p = l.dot(&l.t());
        let s = l.mapv(f64::abs).dot(&l.t().mapv(f64::abs));
        for ((i, j), &e) in (&p - &alow).indexed_iter() { tryc!(close::<A>("L*L^T=A", e.abs(), s[(i, j)], n)); }
    }
    let c1 = Lay::new(&a, lay).owned().cholesky_into();
    let c2 = Lay::new(&a, lay).v().cholesky();
    let c4 = Lay::new(&a, lay).v().cholesky_dirty();
    let mut l3 = Lay::new(&a, lay); let c3 = { let mut v = l3.vm(); v.cholesky_inplace().map(|_| ()) };
    ensure!(c1.is_ok() == ok && c2.is_ok() == ok && c3.is_ok() == ok && c4.is_ok() == ok, "forms disagree on success");
    if ok {
        let (c1, c2, c4) = (c1.unwrap(), c2.unwrap(), c4.unwrap());
        for i in 0..n { for j in 0..n { let w = if j > i { A::zero() } else { o[(i, j)] };
            let eq = |x: A| if j > i { x == w } else { (x.f() - w.f()).abs() <= 1e4 * A::EPS * (n as f64 + 4.) * mx(&v64(&o.diag())) };
            ensure!(eq(c1[(i, j)]) && eq(c2[(i, j)]) && eq(l3.v()[(i, j)]), "clean form wrong at ({i},{j})");
            ensure!(if j > i { c4[(i, j)] == o[(i, j)] || c4[(i, j)].is_nan() && o[(i, j)].is_nan() } else { eq(c4[(i, j)]) }, "dirty by-reference form differs at ({i},{j})"); } }
    }
    ensure!(l3.frame_ok(), "elements outside the operand changed");
    Ok(())
}
/// positive definiteness of a small integer matrix, exactly (fraction-free elimination in i128)
fn exact_pd(a: &Array2<f64>) -> bool {
    let n = a.nrows();
    let mut m: Vec<Vec<i128>> = (0..n).map(|i| (0..n).map(|j| a[(i, j)] as i128).collect()).collect();
    let mut prev = 1i128;
    for k in 0..n {
        if m[k][k] <= 0 { return false; }
        for i in k + 1..n { for j in k + 1..n {
            let v = m[i][j].checked_mul(m[k][k]).and_then(|x| m[i][k].checked_mul(m[k][j]).and_then(|y| x.checked_sub(y)));
            match v { Some(v) => m[i][j] = v / prev, None => return true }
        } }
        prev = m[k][k];
    }
    true
}
// ---------------------------------------------------------------- C06
fn c06<A: Fl>(g: &mut Gen) -> R {
    let n = g.dim(0);
    let k = g.dim(0);
    let mut a: Array2<A> = pd::<A>(g, n).mapv(|x| A::of(x));
    let bad = n > 0 && g.chance(0.15);
    if bad { let i = g.below(n); a[(i, i)] = -a[(i, i)]; }
    let clean = a.clone();
    if g.chance(0.3) { for i in 0..n { for j in i + 1..n { a[(i, j)] = [A::nan(), A::of(7.)][g.below(2)]; } } }
    g.record("a", &a);
    let b: Array2<A> = g.raw(n, k).mapv(|x| A::of(x)); g.record("b", &b);
    let (l1, l2) = (g.layout(), g.layout());
    let (mut la, mut lb) = (Lay::new(&a, l1), Lay::new(&b, l2));
    let r = { let mut v = lb.vm(); let mut w = la.vm(); w.solvec_inplace(&mut v).map(|_| ()) };
    ensure!(la.frame_ok() && lb.frame_ok(), "elements outside the operands changed");
    let s2 = a.clone().solvec(&b);
    let s3 = a.clone().solvec_into(lb_new(&b, l2));
    let i1 = Lay::new(&a, l1).v().invc();
    let keep = a.clone();
    let i2 = a.clone().invc_inplace();
    let i3 = a.invc();
    ensure!(same(&keep, &a), "invc modified its argument");
    if bad {
        for e in [err_str(&r), err_str(&s2), err_str(&s3), err_str(&i1), err_str(&i2), err_str(&i3)] { ensure!(e == "NotPositiveDefinite", "expected NotPositiveDefinite, got {e}"); }
        return Ok(());
    }
    r.map_err(|e| format!("solvec_inplace: {e:?}"))?;
    let x = lb.v().to_owned();
    let (s2, s3, i1, i2, i3) = (s2.map_err(|e| format!("{e:?}"))?, s3.map_err(|e| format!("{e:?}"))?, i1.map_err(|e| format!("{e:?}"))?, i2.map_err(|e| format!("{e:?}"))?, i3.map_err(|e| format!("{e:?}"))?);
    let a64 = m64(&clean);
    let chk = |name: &'static str, x: &Array2<f64>, b: &Array2<f64>| -> R {
        ensure!(x.iter().all(|v| v.is_finite()), "{name}: result not finite");
        // backward error of Cholesky solve: ||A|| ||x||
        let rr = a64.dot(x) - b;
        for j in 0..b.ncols() { tryc!(close::<A>(name, mx(&rr.column(j)), mx(&a64) * mx(&x.column(j)) * n as f64 + mx(&b.column(j)), n)); }
        Ok(())
    };
    for x in [&x, &s2, &s3] { tryc!(chk("A*X=B (SPD)", &m64(x), &m64(&b))); }
    for i in [&i1, &i2, &i3] { tryc!(chk("A*inv(A)=I (SPD)", &m64(i), &eye(n))); }
    Ok(())
}

// ---------------------------------------------------------------- C07
fn c07<A: Fl>(g: &mut Gen) -> R {
    let (x, y) = (g.dim(0), g.dim(0));
    let (r, c) = (x.max(y), x.min(y));
    let a: Array2<A> = g.mat("a", r, c);
    let lay = g.layout();
    let mut la = Lay::new(&a, lay);
    let d = la.v().qr().map_err(|e| format!("qr: {e:?}"))?;
    ensure!(same(&la.v(), &a.view()), "qr modified its argument");
    let (q, rr) = d.clone().into_decomp();
    let q2 = d.generate_q(); let r2 = d.clone().into_r();
    ensure!(same(&q, &q2) && same(&rr, &r2), "into_decomp differs from generate_q/into_r");
    tryc!(dimsof("Q", &q, (r, c))); tryc!(dimsof("R", &rr, (c, c)));
    let (q64, r64) = (m64(&q), m64(&rr));
    for i in 0..c { ensure!(r64[(i, i)] >= 0., "R diagonal {i} is {}", r64[(i, i)]); for j in 0..i { ensure!(r64[(i, j)] == 0., "R[{i},{j}] = {} is not zero", r64[(i, j)]); } }
    tryc!(orth_cols::<A>("Q^T*Q=I (QR)", &q64));
    let a64 = m64(&a);
    let e = q64.dot(&r64) - &a64;
    for j in 0..c { tryc!(close::<A>("Q*R=A", mx(&e.column(j)), mx(&a64.column(j)), r)); }
    let dd = { let v = la.vm(); let d = v.qr_into().map_err(|e| format!("qr_into: {e:?}"))?; let (q, rr) = (d.generate_q(), d.into_r()); (q, rr.to_owned()) };
    ensure!(la.frame_ok(), "elements outside the operand changed");
    ensure!(eqv(&dd.0, &q) && eqv(&dd.1, &rr) || { let t = 1e3 * A::EPS; mx(&(m64(&dd.0) - &q64)) < t * 1e3 && mx(&(m64(&dd.1) - &r64)) <= t * mx(&a64) }, "qr_into differs from qr");
    Ok(())
}

/// orthonormal basis by twice-iterated Gram-Schmidt; None if (nearly) rank deficient
fn mgs(a: &Array2<f64>, tol: f64) -> Option<Array2<f64>> {
    let mut q = a.clone();
    for j in 0..a.ncols() {
        let n0 = q.column(j).dot(&q.column(j)).sqrt();
        if n0 == 0. { return None; }
        for _ in 0..3 { for k in 0..j { let d = q.column(k).dot(&q.column(j)); let qk = q.column(k).to_owned(); q.column_mut(j).scaled_add(-d, &qk); } }
        let n1 = q.column(j).dot(&q.column(j)).sqrt();
        if !(n1 > tol * n0) { return None; }
        q.column_mut(j).mapv_inplace(|x| x / n1);
    }
    Some(q)
}
// ---------------------------------------------------------------- C08
fn c08<A: Fl>(g: &mut Gen) -> R {
    let (x, y) = (g.dim(0), g.dim(0));
    let (mut r, mut c) = (x.max(y), x.min(y));
    if g.chance(0.3) { r = c.max(1); c = r; }
    let a: Array2<A> = { let mut m = g.raw(r, c); if g.chance(0.6) { for i in 0..c { m[(i, i)] += 2. * [1., -1.][g.below(2)]; } } let m = m.mapv(|x| A::of(x)); g.record("a", &m); m };
    let k = g.dim(0);
    let b: Array2<A> = g.raw(r, k).mapv(|x| A::of(x)); g.record("b", &b);
    let bt: Array2<A> = g.raw(c, k).mapv(|x| A::of(x)); g.record("bt", &bt);
    let lay = g.layout();
    let d = Lay::new(&a, lay).v().qr().map_err(|e| format!("{e:?}"))?;
    let a64 = m64(&a);
    let zero_diag = { let rr = d.clone().into_r(); (0..c).any(|i| rr[(i, i)].is_zero()) };
    ensure!(d.is_invertible() != zero_diag, "is_invertible returned {} although R's diagonal {} a zero", d.is_invertible(), if zero_diag { "has" } else { "has no" });
    if (0..c).any(|j| a64.column(j).iter().all(|x| *x == 0.)) { ensure!(zero_diag, "zero column but reported invertible"); }
    if zero_diag {
        ensure!(err_str(&d.solve(&b)) == "NonInvertible", "solve: {}", err_str(&d.solve(&b)));
        ensure!(err_str(&d.solve_into(b.clone())) == "NonInvertible", "solve_into: {}", err_str(&d.solve_into(b.clone())));
        ensure!(err_str(&d.solve_tr(&bt)) == "NonInvertible", "solve_tr: {}", err_str(&d.solve_tr(&bt)));
        if (0..c).any(|j| a64.column(j).iter().all(|x| *x == 0.)) { ensure!(err_str(&a.clone().least_squares(&b)) == "NonInvertible", "least_squares: {}", err_str(&a.clone().least_squares(&b))); }
        if r == c { ensure!(err_str(&d.inverse()) == "NonInvertible", "inverse: {}", err_str(&d.inverse())); }
        return Ok(());
    }
    let x = d.solve(&b).map_err(|e| format!("solve: {e:?}"))?;
    let xt = d.solve_tr(&bt).map_err(|e| format!("solve_tr: {e:?}"))?;
    tryc!(dimsof("solve", &x, (c, k))); tryc!(dimsof("solve_tr", &xt, (r, k)));
    // conditioning: skip numerically singular inputs
    let tolq = 2e3 * A::EPS;
    let q = match mgs(&a64, tolq) { Some(q) => q, None => return Ok(()) };
    // other decompositions of (nearly) singular matrices may find an exact zero: skip them
    if c > 0 {
        let rr = q.t().dot(&a64);
        let mut inv = Array2::<f64>::zeros((c, c));
        for j in 0..c { for i in (0..c).rev() { let mut s = if i == j { 1. } else { 0. }; for k in i + 1..c { s -= rr[(i, k)] * inv[(k, j)]; } inv[(i, j)] = s / rr[(i, i)]; } }
        if !(mx(&inv) * mx(&a64) * tolq * (r as f64) * (c as f64) < 1.) { return Ok(()); }
    }
    let ls = a.clone().least_squares(&b).map_err(|e| format!("least_squares: {e:?}"))?;
    let ls2 = { let mut l = Lay::new(&a, lay); let mut lb = Lay::new(&b, lay); let v = l.vm(); let w = lb.vm(); v.least_squares_into(w).map_err(|e| format!("{e:?}"))? };
    let lsw = a.clone().reversed_axes().least_squares(&bt).map_err(|e| format!("least_squares wide: {e:?}"))?;
    tryc!(dimsof("least_squares", &ls, (c, k)));
    let na = mx(&a64) * (r.max(1) as f64);
    for (nm, x) in [("least squares optimality (solve)", &x), ("least squares optimality (least_squares)", &ls), ("least squares optimality (into)", &ls2)] {
        let x = m64(x);
        ensure!(x.iter().all(|v| v.is_finite()), "{nm}: not finite");
        let res = a64.dot(&x) - m64(&b);
        let proj = a64.t().dot(&res);
        for j in 0..k { for l in 0..c { tryc!(closel::<A>("least squares optimality", proj[(l, j)].abs(), mx(&a64.column(l)) * (r as f64) * (na * mx(&x.column(j)) + mx(&m64(&b).column(j))), r, 40.).map_err(|e| format!("{nm}: {e}"))); } }
    }
    let square_b = a64.t().to_owned();
    for (nm, x) in [("min norm (solve_tr)", &xt), ("min norm (least_squares wide)", &lsw)] {
        let x = m64(x);
        ensure!(x.iter().all(|v| v.is_finite()), "{nm}: not finite");
        let res = square_b.dot(&x) - m64(&bt);
        let perp = &x - &q.dot(&q.t().dot(&x));
        for j in 0..k {
            tryc!(closel::<A>("A^T*x=b", mx(&res.column(j)), na * mx(&x.column(j)) + mx(&m64(&bt).column(j)), r, 40.).map_err(|e| format!("{nm}: {e}")));
            // component outside the row space, amplified by the conditioning of Q
            let cond = { let mut m = 1f64; let rr = q.t().dot(&a64); for i in 0..c { m = m.max(mx(&a64.column(i)) * (r as f64) / rr[(i, i)].abs().max(1e-300)); } m };
            tryc!(closel::<A>("min norm", mx(&perp.column(j)), mx(&x.column(j)) * cond * (c as f64 + 1.), r, 600.).map_err(|e| format!("{nm}: {e}")));
        }
    }
    if r == c {
        let inv = m64(&d.inverse().map_err(|e| format!("inverse: {e:?}"))?);
        let e = a64.dot(&inv) - eye(r);
        for j in 0..r { tryc!(close::<A>("A*inv(A)=I (QR)", mx(&e.column(j)), na * mx(&inv.column(j)) + 1., r)); }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09
fn c09<A: Fl>(g: &mut Gen) -> R {
    let n = g.dim(1);
    let k = g.dim(0);
    let mut ax = g.raw(n, 1);
    let nn = ax.iter().map(|x| x * x).sum::<f64>().sqrt();
    if nn < 1e-6 || nn > 1e12 { ax.fill(0.); ax[(g.below(n), 0)] = 1.; } else { ax /= nn; }
    let axis: Array2<A> = ax.mapv(|x| A::of(x)); g.record("axis", &axis);
    let bias = A::of(if g.chance(0.3) { 0. } else { g.unit() * 4. }); g.note(format!("bias {bias}"));
    let m: Array2<A> = g.raw_kind_small(n, k).mapv(|x| A::of(x)); g.record("m", &m);
    let lay = g.layout();
    let lax = Lay::new(&axis, lay);
    let refl = Reflection::new(lax.v().column(0).to_owned(), bias);
    ensure!(same(refl.axis(), &axis.column(0)), "axis() returns something else");
    let rows = g.chance(0.5);
    g.note(format!("rows {rows}"));
    let mut lm = if rows { Lay::new(&m.t().to_owned(), lay) } else { Lay::new(&m, lay) };
    let get = |l: &Lay<A>| -> Array2<A> { if rows { l.v().t().to_owned() } else { l.v().to_owned() } };
    let app = |l: &mut Lay<A>| { if rows { refl.reflect_rows(&mut l.vm()) } else { refl.reflect_cols(&mut l.vm()) } };
    app(&mut lm);
    ensure!(lm.frame_ok(), "elements outside the operand changed");
    let o = get(&lm);
    let (a64, m6, o6) = (m64(&axis).column(0).to_owned(), m64(&m), m64(&o));
    for j in 0..k {
        let d = a64.dot(&m6.column(j)) - bias.f();
        let s = mx(&m6.column(j)) * n as f64 + bias.f().abs();
        for i in 0..n { let w = m6[(i, j)] - 2. * d * a64[i]; tryc!(close::<A>("x - 2(axis.x-bias)axis", (o6[(i, j)] - w).abs(), s, n)); }
    }
    app(&mut lm);
    let o2 = m64(&get(&lm));
    for j in 0..k { let s = mx(&m6.column(j)) * n as f64 + bias.f().abs(); tryc!(close::<A>("reflecting twice restores", mx(&(&o2.column(j) - &m6.column(j))), s, n)); }
    for j in 0..k { for l in 0..j {
        let d0 = (&m6.column(j) - &m6.column(l)).mapv(|x| x * x).sum().sqrt(); let d1 = (&o6.column(j) - &o6.column(l)).mapv(|x| x * x).sum().sqrt();
        tryc!(close::<A>("distances preserved", (d0 - d1).abs(), (mx(&m6) + bias.f().abs()) * n as f64, n)); } }
    Ok(())
}
impl Gen {
    pub fn raw_kind_small(&mut self, r: usize, c: usize) -> Array2<f64> { let mut a = self.raw(r, c); a.mapv_inplace(|x| if x.abs() > 1e8 { x * 1e-8 } else { x }); a }
}

// ---------------------------------------------------------------- C10
fn c10<A: Fl>(g: &mut Gen) -> R {
    let n = g.dim(1);
    let a: Array2<A> = g.sym("a", n);
    let lay = g.layout();
    let a64 = m64(&a);
    let d = Lay::new(&a, lay).owned().sym_tridiagonal().map_err(|e| format!("{e:?}"))?;
    let q = m64(&d.generate_q());
    let (dg, of) = d.clone().into_diagonals();
    let t = d.into_tridiag_matrix();
    tryc!(dimsof("T", &t, (n, n))); tryc!(len1("diag", &dg, n)); tryc!(len1("off", &of, n - 1)); tryc!(dimsof("Q", &q, (n, n)));
    for i in 0..n { for j in 0..n {
        let w = if i == j { dg[i] } else if i + 1 == j { of[i] } else if j + 1 == i { of[j] } else { A::zero() };
        ensure!(t[(i, j)] == w, "T[{i},{j}] = {} but the diagonals say {w}", t[(i, j)]);
    } }
    for x in of.iter() { ensure!(*x >= A::zero(), "negative off-diagonal {x}"); }
    tryc!(orth_cols::<A>("Q^T*Q=I (tridiagonal)", &q));
    let t64 = m64(&t);
    let s = mx(&a64);
    let e = (&q.dot(&(&t64 / s.max(1e-290))).dot(&q.t()) - &(&a64 / s.max(1e-290))).mapv(|x| x);
    tryc!(close::<A>("Q*T*Q^T=A", mx(&e), 1.0 * if n > 0 { 1. } else { 0. }, 2 * n));
    let mut lm = Lay::new(&a, lay);
    let (q2, t2) = { let v = lm.vm(); let d = v.sym_tridiagonal().map_err(|e| format!("{e:?}"))?; (m64(&d.generate_q()), m64(&d.into_tridiag_matrix())) };
    ensure!(lm.frame_ok(), "elements outside the operand changed");
    tryc!(orth_cols::<A>("Q^T*Q=I (tridiagonal)", &q2));
    tryc!(close::<A>("Q*T*Q^T=A", mx(&(q2.dot(&(&t2 / s.max(1e-290))).dot(&q2.t()) - &(&a64 / s.max(1e-290)))), 1., 2 * n));
    Ok(())
}
// ---------------------------------------------------------------- C11
fn c11<A: Fl>(g: &mut Gen) -> R {
    let (r, c) = (g.dim(1), g.dim(1));
    let a: Array2<A> = g.mat("a", r, c);
    let lay = g.layout();
    let a64 = m64(&a);
    let mut la = Lay::new(&a, lay);
    let (u, vt, dg, of, up, b) = {
        let d = la.vm().bidiagonal().map_err(|e| format!("{e:?}"))?;
        let (u, vt, up) = (d.generate_u(), d.generate_vt(), d.is_upper_diag());
        let d2 = a.clone().bidiagonal().map_err(|e| format!("{e:?}"))?;
        let (dg, of) = d2.clone().into_diagonals();
        let b2 = d2.into_b();
        let b = d.into_b();
        { let s = mx(&a64).max(1e-290); let (u, v) = (m64(&u), m64(&vt)); tryc!(close::<A>("U*B*V^T=A", mx(&(u.dot(&(m64(&b) / s)).dot(&v) - &a64 / s)), 1., r + c)); tryc!(orth_cols::<A>("U^T*U=I (bidiagonal)", &u)); tryc!(orth_cols::<A>("V^T*V=I (bidiagonal)", &v.t().to_owned())); }
        let d3 = a.clone().bidiagonal().map_err(|e| format!("{e:?}"))?;
        let (u, vt) = (d3.generate_u(), d3.generate_vt());
        (u, vt, dg, of, up, b2)
    };
    ensure!(la.frame_ok(), "elements outside the operand changed");
    let k = r.min(c);
    tryc!(dimsof("U", &u, (r, k))); tryc!(dimsof("Vt", &vt, (k, c))); tryc!(dimsof("B", &b, (k, k)));
    ensure!(up == (r >= c), "is_upper_diag = {up} for a {r}x{c} matrix");
    for i in 0..k { for j in 0..k {
        let w = if i == j { dg[i] } else if up && i + 1 == j { of[i] } else if !up && j + 1 == i { of[j] } else { A::zero() };
        ensure!(b[(i, j)] == w, "B[{i},{j}] = {} but the diagonals say {w}", b[(i, j)]);
        ensure!(b[(i, j)] >= A::zero(), "negative entry {} in B", b[(i, j)]);
    } }
    let (u, vt, b) = (m64(&u), m64(&vt), m64(&b));
    tryc!(orth_cols::<A>("U^T*U=I (bidiagonal)", &u)); tryc!(orth_cols::<A>("V^T*V=I (bidiagonal)", &vt.t().to_owned()));
    let s = mx(&a64).max(1e-290);
    tryc!(close::<A>("U*B*V^T=A", mx(&(u.dot(&(&b / s)).dot(&vt) - &a64 / s)), 1., r + c));
    Ok(())
}
// ---------------------------------------------------------------- C12
fn c12<A: Fl>(g: &mut Gen) -> R {
    let n = g.dim(0);
    let a: Array2<A> = g.sym("a", n);
    let lay = g.layout();
    let s = mx(&m64(&a)).max(1e-290);
    let a64 = m64(&a) / s;
    let l = Lay::new(&a, lay);
    let (w, v) = l.v().eigh().map_err(|e| format!("{e:?}"))?;
    ensure!(same(&l.v(), &a.view()), "eigh modified its argument");
    tryc!(len1("eigenvalues", &w, n)); tryc!(dimsof("eigenvectors", &v, (n, n)));
    let (w64, v64) = (v64(&w) / s, m64(&v));
    tryc!(orth_cols::<A>("V^T*V=I (eigh)", &v64));
    tryc!(close::<A>("A*V=V*diag(w)", mx(&(a64.dot(&v64) - v64.dot(&Array2::from_diag(&w64)))), 1., 2 * n));
    let (w2, v2) = l.owned().eigh_into().map_err(|e| format!("{e:?}"))?;
    ensure!(eqv(&w, &w2) && eqv(&v, &v2) || { let m = m64(&v2); let x = w2.mapv(|x| x.f()) / s; mx(&(a64.dot(&m) - m.dot(&Array2::from_diag(&x)))) < 1e3 * A::EPS * (n as f64 + 4.) }, "eigh_into differs");
    for vals in [l.v().eigvalsh(), l.owned().eigvalsh_into()] {
        let vals = vals.map_err(|e| format!("{e:?}"))?;
        tryc!(len1("eigvalsh", &vals, n));
        let mut x: Vec<f64> = vals.iter().map(|x| x.f() / s).collect(); let mut y: Vec<f64> = w64.to_vec();
        ensure!(x.iter().all(|v| v.is_finite()), "eigvalsh not finite");
        x.sort_by(|a, b| a.partial_cmp(b).unwrap()); y.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for i in 0..n { tryc!(close::<A>("eigvalsh = eigh values", (x[i] - y[i]).abs(), 1., 2 * n)); }
    }
    Ok(())
}
// ---------------------------------------------------------------- C13
fn c13<A: Fl>(g: &mut Gen) -> R {
    let (r, c) = (g.dim(1), g.dim(1));
    let a: Array2<A> = g.mat("a", r, c);
    let lay = g.layout();
    let s = mx(&m64(&a)).max(1e-290);
    let a64 = m64(&a) / s;
    let k = r.min(c);
    let l = Lay::new(&a, lay);
    let mut vals: Vec<Vec<f64>> = vec![];
    for (cu, cv) in [(true, true), (true, false), (false, true), (false, false)] {
        let (u, sg, vt) = if g.chance(0.5) { l.v().svd(cu, cv) } else { l.owned().svd_into(cu, cv) }.map_err(|e| format!("{e:?}"))?;
        ensure!(same(&l.v(), &a.view()), "svd modified its argument");
        ensure!(u.is_some() == cu && vt.is_some() == cv, "requested factors ({cu},{cv}), got ({},{})", u.is_some(), vt.is_some());
        tryc!(len1("sigma", &sg, k));
        for x in sg.iter() { ensure!(*x >= A::zero(), "singular value {x}"); }
        let sg = v64(&sg) / s;
        if let Some(u) = &u { tryc!(dimsof("U", u, (r, k))); tryc!(orth_cols::<A>("U^T*U=I (svd)", &m64(u))); }
        if let Some(v) = &vt { tryc!(dimsof("Vt", v, (k, c))); tryc!(orth_cols::<A>("V^T*V=I (svd)", &m64(v).t().to_owned())); }
        match (&u, &vt) {
            (Some(u), Some(v)) => tryc!(close::<A>("U*S*V^T=A", mx(&(m64(u).dot(&Array2::from_diag(&sg)).dot(&m64(v)) - &a64)), 1., r + c)),
            (Some(u), None) => { // A A^T u = s^2 u
                let u = m64(u); let p = a64.t().dot(&u); let gm = p.t().dot(&p); let w = sg.mapv(|x| x * x);
                tryc!(close::<A>("U diagonalises A*A^T", mx(&(gm - Array2::from_diag(&w))), (k + 1) as f64, r + c)); }
            (None, Some(v)) => { let v = m64(v); let p = a64.dot(&v.t()); let gm = p.t().dot(&p); let w = sg.mapv(|x| x * x);
                tryc!(close::<A>("V diagonalises A^T*A", mx(&(gm - Array2::from_diag(&w))), (k + 1) as f64, r + c)); }
            _ => {}
        }
        let mut x = sg.to_vec(); x.sort_by(|a, b| a.partial_cmp(b).unwrap());
        vals.push(x);
    }
    for v in &vals[1..] { for i in 0..k { tryc!(close::<A>("values independent of requested factors", (v[i] - vals[0][i]).abs(), 1., r + c)); } }
    Ok(())
}
// ---------------------------------------------------------------- C14
fn c14<A: Fl>(g: &mut Gen) -> R {
    let n = g.dim(0);
    let (r, c) = (n + g.below(3), n + g.below(3));
    let w: Array2<A> = { let x = g.raw(n, 1); x.mapv(|x| A::of(x)) }; g.record("w", &w);
    let w = w.column(0).to_owned();
    let ord = if g.chance(0.5) { Order::Largest } else { Order::Smallest }; g.note(format!("{ord:?}"));
    let short = g.chance(0.4); g.note(format!("shorthand {short}"));
    // each vector carries its value and a tag
    let tag = |i: usize, k: usize| A::of((i * 100 + k) as f64);
    let sorted = |o: &Array1<A>| -> R { for i in 1..n { let ok = if ord == Order::Largest { o[i - 1] >= o[i] } else { o[i - 1] <= o[i] }; ensure!(ok, "values out of order at {i}: {o}"); } Ok(()) };
    let perm = |o: &Array1<A>, get: &dyn Fn(usize, usize) -> A, len: usize, what: &str| -> R {
        let mut seen = vec![false; n];
        for j in 0..n {
            if len == 0 { continue; }
            let t = get(j, 0).f() as usize / 100;
            ensure!(t < n && !seen[t], "{what}: vector {j} is not a permuted input vector");
            seen[t] = true;
            ensure!(o[j].bits() == w[t].bits(), "{what}: vector {t} now sits with value {} instead of {}", o[j], w[t]);
            for k in 0..len { ensure!(get(j, k) == tag(t, k), "{what}: vector {j} mixed up"); }
        }
        Ok(())
    };
    let multiset = |o: &Array1<A>| -> R { let mut x: Vec<u64> = o.iter().map(|v| v.bits()).collect(); let mut y: Vec<u64> = w.iter().map(|v| v.bits()).collect(); x.sort(); y.sort(); ensure!(x == y, "values are not a permutation of the input"); Ok(()) };
    // values only
    let o = if short { if ord == Order::Largest { w.clone().sort_eig_desc() } else { w.clone().sort_eig_asc() } } else { w.clone().sort_eig(ord) };
    tryc!(sorted(&o)); tryc!(multiset(&o));
    let vecs = Array2::from_shape_fn((r, n), |(k, i)| tag(i, k));
    let e = (w.clone(), vecs);
    let (o, v) = if short { if ord == Order::Largest { e.sort_eig_desc() } else { e.sort_eig_asc() } } else { e.sort_eig(ord) };
    tryc!(sorted(&o)); tryc!(multiset(&o)); tryc!(dimsof("eigenvectors", &v, (r, n)));
    tryc!(perm(&o, &|j, k| v[(k, j)], r, "eigenvectors"));
    let (cu, cv) = (g.chance(0.6), g.chance(0.6));
    let u = cu.then(|| Array2::from_shape_fn((r, n), |(k, i)| tag(i, k)));
    let vt = cv.then(|| Array2::from_shape_fn((n, c), |(i, k)| tag(i, k)));
    let e = (u, w.clone(), vt);
    let (u, o, vt) = if short { if ord == Order::Largest { e.sort_svd_desc() } else { e.sort_svd_asc() } } else { e.sort_svd(ord) };
    tryc!(sorted(&o)); tryc!(multiset(&o));
    ensure!(u.is_some() == cu && vt.is_some() == cv, "factors appeared or vanished");
    if let Some(u) = &u { tryc!(dimsof("U", u, (r, n))); tryc!(perm(&o, &|j, k| u[(k, j)], r, "U")); }
    if let Some(v) = &vt { tryc!(dimsof("Vt", v, (n, c))); tryc!(perm(&o, &|j, k| v[(j, k)], c, "Vt")); }
    if let (Some(u), Some(v)) = (&u, &vt) { for j in 0..n { if r > 0 && c > 0 { ensure!(u[(0, j)] == v[(j, 0)], "U and Vt use different permutations"); } } }
    Ok(())
}
// ---------------------------------------------------------------- C15
fn c15<A: Fl>(g: &mut Gen) -> R {
    let (r, c) = (g.dim(0), g.dim(0));
    let a: Array2<A> = g.mat("a", r, c);
    let lay = g.layout();
    let l = Lay::new(&a, lay);
    let chk = |l1: f64, l2: f64, lm: f64, it: Vec<f64>, what: &str| -> R {
        let n = it.len();
        let (w1, w2, wm) = (it.iter().map(|x| x.abs()).sum::<f64>(), it.iter().map(|x| x * x).sum::<f64>().sqrt(), it.iter().fold(0f64, |m, x| m.max(x.abs())));
        ensure!(lm == wm, "{what}: max norm {lm}, expected {wm}");
        tryc!(close::<A>("l1", (l1 - w1).abs(), w1, n)); let tiny = if A::NAME == "f32" { 1e-15 } else { 1e-140 }; if !(w2 < tiny && l2 <= tiny) { tryc!(close::<A>("l2", (l2 - w2).abs(), w2, n)); }
        Ok(())
    };
    let it: Vec<f64> = a.iter().map(|x| x.f()).collect();
    let v = l.v();
    tryc!(chk(v.norm_l1().f(), v.norm_l2().f(), v.norm_max().f(), it.clone(), "2-D"));
    let d = v.to_owned().into_dyn();
    tryc!(chk(d.norm_l1().f(), d.norm_l2().f(), d.norm_max().f(), it.clone(), "dyn"));
    let f = Array1::from(a.iter().copied().collect::<Vec<_>>());
    tryc!(chk(f.norm_l1().f(), f.norm_l2().f(), f.norm_max().f(), it.clone(), "1-D"));
    if c > 0 { let j = g.below(c); let col = v.column(j); tryc!(chk(col.norm_l1().f(), col.norm_l2().f(), col.norm_max().f(), col.iter().map(|x| x.f()).collect(), "column")); }
    if r > 0 { let j = g.below(r); let t = v.t(); let col = t.column(j); tryc!(chk(col.norm_l1().f(), col.norm_l2().f(), col.norm_max().f(), col.iter().map(|x| x.f()).collect(), "row")); }
    let z = ArrayView3::from_shape((r, 1, c), a.as_slice().unwrap()).unwrap();
    tryc!(chk(z.norm_l1().f(), z.norm_l2().f(), z.norm_max().f(), it, "3-D"));
    if r * c == 1 { let z = arr0(a[(0, 0)]); tryc!(chk(z.norm_l1().f(), z.norm_l2().f(), z.norm_max().f(), vec![a[(0, 0)].f()], "0-D")); }
    Ok(())
}
include!("iterative.rs");
include!("forms.rs");
