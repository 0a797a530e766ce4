// ---------------------------------------------------------------- C16
fn randmat(g: &mut Gen, r: usize, c: usize) -> Array2<f64> { let mut a = Array2::zeros((r, c)); a.mapv_inplace(|_: f64| g.unit()); a }
/// symmetric operator with entries of order one
fn symop(g: &mut Gen, n: usize) -> Array2<f64> {
    let mut a = match g.below(5) {
        0 => { let mut a = Array2::zeros((n, n)); for i in 0..n { a[(i, i)] = (i + 1) as f64; } a }
        1 => { let x = randmat(g, n, n); x.dot(&x.t()) / (n as f64) }
        2 => { let k = g.below(n + 1).max(1); let x = randmat(g, n, k); x.dot(&x.t()) }
        _ => randmat(g, n, n),
    };
    for i in 0..n { for j in 0..i { a[(i, j)] = a[(j, i)]; } }
    a
}
fn ordr(g: &mut Gen) -> Order { let o = if g.chance(0.5) { Order::Largest } else { Order::Smallest }; g.note(format!("{o:?}")); o }
fn check_lobpcg(a: &Array2<f64>, vals: &Array1<f64>, vecs: &Array2<f64>, rnorm: Option<&Vec<f64>>, y: Option<&Array2<f64>>, k: usize, ord: Order) -> R {
    let n = a.nrows();
    tryc!(len1("eigenvalues", vals, k)); tryc!(dimsof("eigenvectors", vecs, (n, k)));
    ensure!(vals.iter().all(|x| x.is_finite()) && vecs.iter().all(|x| x.is_finite()), "result not finite");
    let s = mx(a) * n as f64 + 1.;
    let res = a.dot(vecs) - vecs.dot(&Array2::from_diag(vals));
    if let Some(rn) = rnorm {
        ensure!(rn.len() == k, "{} residual norms for {k} pairs", rn.len());
        for j in 0..k { let w = res.column(j).dot(&res.column(j)).sqrt(); tryc!(closel::<f64>("reported residual", (w - rn[j]).abs(), s, n, LOB)); }
    }
    tryc!(closel::<f64>("X^T*X=I (lobpcg)", mx(&(vecs.t().dot(vecs) - eye(k))), 1., n, LOB));
    if let Some(y) = y { let yq = mgs(y, 1e-9); if let Some(yq) = yq { tryc!(closel::<f64>("Y^T*X=0", mx(&yq.t().dot(vecs)), 1., n, LOB)); } }
    for j in 1..k { let ok = if ord == Order::Largest { vals[j - 1] >= vals[j] } else { vals[j - 1] <= vals[j] }; ensure!(ok, "eigenvalues not in requested order: {vals}"); }
    Ok(())
}
const LOB: f64 = 1e9;
fn c16(g: &mut Gen) -> R {
    let n = 1 + g.below(24);
    if g.chance(0.05) {
        let k = n + 1 + g.below(3);
        let r = lobpcg(|_| -> Array2<f64> { panic!("operator called") }, Array2::zeros((n, k)), |_| {}, None, 1e-5, 10, Order::Largest);
        return match r { Err((LinalgError::NotThin { rows, cols }, None)) if rows == n && cols == k => Ok(()), Err((e, r)) => Err(format!("wrong error {e:?} {}", r.is_some())), Ok(_) => Err("accepted".into()) };
    }
    let k = 1 + g.below((n + 2) / 3);
    let ny = if n - k >= 3 && g.chance(0.4) { 1 + g.below((n - k) / 3) } else { 0 };
    let a = symop(g, n); g.record("a", &a);
    let x = randmat(g, n, k); g.record("x", &x);
    let y = if ny > 0 { let y = randmat(g, n, ny); let y = if g.chance(0.5) { mgs(&y, 1e-9).unwrap_or(y) } else { y }; g.record("y", &y); Some(y) } else { None };
    let pre = g.chance(0.3);
    let tol = [1e-2f32, 1e-5, 1e-8, 0.][g.below(4)];
    let maxit = [0, 1, 2, 3, 5, 8, 20, if tol == 0. { 20 } else { 200 }][g.below(8)];
    let ord = ordr(g);
    g.note(format!("precondition {pre} tol {tol} maxiter {maxit}"));
    let dg: Array1<f64> = (0..n).map(|i| 1. / (1. + (i % 3) as f64)).collect();
    let run = |maxit: usize| lobpcg(|v| a.dot(&v), x.clone(), |mut v| { if pre { for mut c in v.columns_mut() { c *= &dg; } } }, y.as_ref().map(|y| y.view()), tol, maxit, ord);
    let sum = |r: &Lobpcg<f64>| r.rnorm.iter().sum::<f64>();
    let take = |r: LobpcgResult<f64>| -> (bool, Option<Lobpcg<f64>>) { match r { Ok(x) => (true, Some(x)), Err((_, x)) => (false, x) } };
    let (ok, res) = take(run(maxit));
    let res = match res { Some(r) => r, None => { ensure!(!ok, "ok without result"); return Ok(()); } };
    tryc!(check_lobpcg(&a, &res.eigvals, &res.eigvecs, Some(&res.rnorm), y.as_ref(), k, ord));
    // prefix runs: the best total residual never grows with more iterations, and is the minimum seen
    if maxit > 0 && maxit <= 20 {
        let mut best = f64::INFINITY;
        for it in 0..=maxit {
            if let (_, Some(r)) = take(run(it)) {
                let s = sum(&r);
                ensure!(s <= best, "total residual grew from {best:e} to {s:e} when allowing iteration {it}");
                best = s;
            }
        }
        ensure!(best == sum(&res), "result is not reproducible");
    }
    Ok(())
}
// ---------------------------------------------------------------- C17
fn rng(g: &mut Gen) -> Xoshiro256Plus { let s = g.rng.gen(); g.note(format!("solver seed {s}")); Xoshiro256Plus::seed_from_u64(s) }
fn c17(g: &mut Gen) -> R {
    let n = 1 + g.below(16);
    let a = symop(g, n); g.record("a", &a);
    let ord = ordr(g);
    let seed = rng(g);
    if g.chance(0.1) {
        let r = TruncatedEig::new_with_rng(a.clone(), ord, seed).decompose(0);
        return match r { Ok(l) => { ensure!(l.eigvals.is_empty() && l.eigvecs.is_empty() && l.rnorm.is_empty(), "decompose(0) not empty"); Ok(()) } Err(_) => Err("decompose(0) failed".into()) };
    }
    let prec = [1e-3f32, 1e-5, 1e-7][g.below(3)];
    let maxit = [0, 1, 3, 20, 200][g.below(5)];
    let ny = if n >= 6 && g.chance(0.4) { 1 + g.below(2) } else { 0 };
    let y = if ny > 0 { let y = randmat(g, n, ny); g.record("y", &y); Some(y) } else { None };
    let pm = if g.chance(0.3) { let mut m = Array2::<f64>::zeros((n, n)); for i in 0..n { m[(i, i)] = 1. / (1. + (i % 3) as f64); } Some(m) } else { None };
    // builder order
    let order = g.below(6);
    g.note(format!("precision {prec} maxiter {maxit} precond {} builder order {order}", pm.is_some()));
    let build = |seed: Xoshiro256Plus| {
        let mut t = TruncatedEig::new_with_rng(a.clone(), ord, seed);
        let seq: [usize; 4] = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1], [0, 3, 1, 2], [1, 2, 3, 0]][order];
        for s in seq { t = match s { 0 => t.precision(0.5).precision(prec), 1 => t.maxiter(7).maxiter(maxit), 2 => if let Some(y) = &y { t.orthogonal_to(y.clone()) } else { t }, _ => if let Some(m) = &pm { t.precondition_with(m.clone()) } else { t } }; }
        t
    };
    if g.chance(0.5) {
        // decompose(k) is lobpcg on the configured problem
        let k = 1 + g.below((n + 2) / 3);
        g.note(format!("k {k}"));
        let got = build(seed.clone()).decompose(k);
        let mut r = seed.clone();
        let x: Array2<f64> = Array2::from_shape_fn((n, k), |_| r.gen::<f64>());
        let want = if let Some(m) = &pm { lobpcg(|v| a.dot(&v), x, |mut v| { let p = m.dot(&v); v.assign(&p) }, y.as_ref().map(|y| y.view()), prec, maxit, ord) }
            else { lobpcg(|v| a.dot(&v), x, |_| {}, y.as_ref().map(|y| y.view()), prec, maxit, ord) };
        let t = |r: LobpcgResult<f64>| match r { Ok(x) => (true, Some(x)), Err((_, x)) => (false, x) };
        let ((o1, r1), (o2, r2)) = (t(got), t(want));
        ensure!(o1 == o2 && r1.is_some() == r2.is_some(), "decompose and lobpcg on the configured problem differ in outcome");
        if let (Some(r1), Some(r2)) = (r1, r2) {
            ensure!(same(&r1.eigvals, &r2.eigvals) && same(&r1.eigvecs, &r2.eigvecs) && r1.rnorm == r2.rnorm, "decompose differs from lobpcg on the configured problem");
            tryc!(check_lobpcg(&a, &r1.eigvals, &r1.eigvecs, Some(&r1.rnorm), y.as_ref(), k, ord));
        }
        return Ok(());
    }
    let dflt = g.chance(0.4);
    let step = if dflt { 1 } else { 1 + g.below(n + 2) };
    g.note(format!("step {step}"));
    let it = if dflt { build(seed).into_iter() } else { build(seed).into_iter_step_size(step).map_err(|e| format!("{e:?}"))? };
    let mut left = n - ny;
    let mut all: Option<Array2<f64>> = y.clone();
    let mut cnt = 0;
    for (vals, vecs) in it {
        cnt += 1;
        ensure!(left > 0 && cnt <= n, "iterator yields more values than the complement of the constraints has dimensions");
        let k = step.min(left);
        left -= k;
        tryc!(len1("block", &vals, k)); tryc!(dimsof("block vectors", &vecs, (n, k)));
        let res = a.dot(&vecs) - vecs.dot(&Array2::from_diag(&vals));
        for j in 0..k { let w = res.column(j).dot(&res.column(j)).sqrt(); ensure!(w <= 0.1 + 1e-6, "block with residual {w}"); }
        tryc!(check_lobpcg(&a, &vals, &vecs, None, all.as_ref(), k, ord));
        all = Some(match all { Some(c) => concatenate![Axis(1), c, vecs], None => vecs });
    }
    Ok(())
}
// ---------------------------------------------------------------- C18
fn c18(g: &mut Gen) -> R {
    let (n, m) = (1 + g.below(12), 1 + g.below(12));
    let k0 = g.below(4);
    let a = if g.chance(0.03) { Array2::zeros((n, m)) } else { match k0 { 0 => { let r = 1 + g.below(3); randmat(g, n, r).dot(&randmat(g, r, m)) } 1 => { let mut a = randmat(g, n, m); for i in 0..n { for j in 0..m { if i != j { a[(i, j)] = 0.; } } } a } _ => randmat(g, n, m) } };
    g.record("a", &a);
    let ord = ordr(g);
    let seed = rng(g);
    let d = n.min(m);
    let k = if g.chance(0.06) { 0 } else { 1 + g.below(d) };
    let (prec, maxit) = ([1e-3f32, 1e-5][g.below(2)], [5usize, 50, 200][g.below(3)]);
    g.note(format!("k {k} precision {prec} maxiter {maxit}"));
    let res = TruncatedSvd::new_with_rng(a.clone(), ord, seed.clone()).precision(0.3).maxiter(1).precision(prec).maxiter(maxit).decompose(k);
    // the eigenproblem the truncated SVD reduces to
    let want = if k > 0 {
        let mut r = seed;
        let x: Array2<f64> = Array2::from_shape_fn((d, k), |_| r.gen::<f32>()).mapv(|x| x as f64);
        let p = prec * prec;
        Some(match if n > m { lobpcg(|y| a.t().dot(&a.dot(&y)), x, |_| {}, None, p, maxit, ord) } else { lobpcg(|y| a.dot(&a.t().dot(&y)), x, |_| {}, None, p, maxit, ord) } { Ok(x) | Err((_, Some(x))) => Some(x), Err((_, None)) => None })
    } else { None };
    let res = match res { Ok(r) => r, Err(e) => { ensure!(matches!(want, Some(None)), "decompose failed with {e:?} although the eigenproblem has a result"); return Ok(()); } };
    let vals = res.values();
    let (u, s, vt) = res.values_vectors();
    ensure!(same(&vals, &s), "values() and values_vectors() disagree");
    if k == 0 { ensure!(vals.is_empty() && u.is_empty() && vt.is_empty(), "decompose(0) not empty"); return Ok(()); }
    let want = match want { Some(Some(w)) => w, _ => return Err("result although the eigenproblem has none".into()) };
    let mut ev: Vec<f64> = want.eigvals.to_vec();
    if ord == Order::Largest { ev.sort_by(|a, b| b.partial_cmp(a).unwrap()); let cut = f64::EPSILON * 1e6 * ev[0]; ev.retain(|x| *x > cut); } else { ev.sort_by(|a, b| a.partial_cmp(b).unwrap()); }
    ensure!(ev.len() == s.len(), "{} singular values, expected {}", s.len(), ev.len());
    for (i, e) in ev.iter().enumerate() { tryc!(close::<f64>("sigma = sqrt(lambda)", (s[i] - e.max(0.).sqrt()).abs(), e.abs().sqrt(), 1)); }
    tryc!(dimsof("U", &u, (n, s.len()))); tryc!(dimsof("Vt", &vt, (s.len(), m)));
    ensure!(ord != Order::Largest || u.iter().chain(vt.iter()).all(|x| x.is_finite()), "non-finite singular vectors");
    let v = vt.t();
    for j in 0..s.len() {
        if s[j] < 1e-7 * (mx(&a) + 1e-30) { continue; }
        let r = if n > m { a.dot(&v.column(j)) - &u.column(j) * s[j] } else { a.t().dot(&u.column(j)) - &v.column(j) * s[j] };
        tryc!(close::<f64>("A*v=sigma*u", mx(&r), mx(&a) * d as f64, n + m));
        // the iterate vector is the eigenvector that belongs to this eigenvalue
        let base = if n > m { v.column(j).to_owned() } else { u.column(j).to_owned() };
        let hit = (0..k).any(|i| (want.eigvals[i].max(0.).sqrt() - s[j]).abs() <= 1e-12 * s[j] && mx(&(&want.eigvecs.column(i) - &base)) == 0.);
        ensure!(hit, "singular value {j} paired with the wrong vector");
    }
    Ok(())
}
