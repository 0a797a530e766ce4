// ---------------------------------------------------------------- C19
fn c19<A: Fl>(g: &mut Gen) -> R {
    let op = g.below(9);
    g.note(format!("op {op}"));
    let sq = g.chance(0.8);
    let r = g.dim(0);
    let c = if sq { r } else { g.dim(0) };
    let u = uplo(g);
    let rb = if g.chance(0.9) { r } else { g.dim(0) };
    let cb = g.dim(0);
    let mut a: Array2<A> = g.mat("a", r, c);
    if op == 1 || op == 2 { if g.chance(0.8) && r == c { a = pd::<A>(g, r).mapv(|x| A::of(x)); g.record("a", &a); } }
    let b: Array2<A> = g.mat("b", rb, cb);
    let (a0, b0) = (a.clone(), b.clone());
    // outcome of a form: error text or matrices
    type O<A> = Result<Vec<ArrayD<A>>, String>;
    fn o1<A: Fl, D: Dimension>(r: Result<Array<A, D>, LinalgError>) -> O<A> { r.map(|x| vec![x.into_dyn()]).map_err(|e| format!("{e:?}")) }
    fn agree<A: Fl>(name: &str, forms: Vec<(&str, O<A>)>) -> R {
        for (n, f) in &forms[1..] {
            match (&forms[0].1, f) {
                (Ok(x), Ok(y)) => { ensure!(x.len() == y.len(), "{name}: {n} returns a different number of results"); for (p, q) in x.iter().zip(y) { ensure!(p.shape() == q.shape(), "{name}: {n} and {} have different shapes", forms[0].0); ensure!(p.iter().zip(q.iter()).all(|(x, y)| x == y || x.is_nan() && y.is_nan()), "{name}: {n} and {} differ", forms[0].0); } }
                (Err(x), Err(y)) => ensure!(x == y, "{name}: {n} fails with {y}, {} with {x}", forms[0].0),
                (x, y) => return Err(format!("{name}: {n} is {}, {} is {}", if y.is_ok() { "Ok" } else { "an error" }, forms[0].0, if x.is_ok() { "Ok" } else { "an error" })),
            }
        }
        Ok(())
    }
    let up = |mut m: Array2<A>| { let (r, c) = m.dim(); for i in 0..r { for j in i + 1..c { m[(i, j)] = A::zero(); } } m };
    match op {
        0 => {
            let mut x = a.clone(); let e = x.triangular_inplace(u).map(|_| ()); let f1 = match e { Ok(_) => Ok(x), Err(e) => Err(e) };
            tryc!(agree("triangular", vec![("inplace", o1(f1)), ("into", o1(a.clone().into_triangular(u)))]));
        }
        1 => {
            let mut x = a.clone(); let e = x.cholesky_inplace_dirty().map(|_| ()); let f1 = match e { Ok(_) => Ok(x), Err(e) => Err(e) };
            let mut y = a.clone(); let e = y.cholesky_inplace().map(|_| ()); let f2 = match e { Ok(_) => Ok(y), Err(e) => Err(e) };
            tryc!(agree("cholesky dirty", vec![("inplace", o1(f1)), ("into", o1(a.clone().cholesky_into_dirty())), ("by reference", o1(a.cholesky_dirty()))]));
            tryc!(agree("cholesky", vec![("inplace", o1(f2)), ("into", o1(a.clone().cholesky_into())), ("by reference", o1(a.cholesky())), ("dirty", o1(a.cholesky_dirty().map(up)))]));
        }
        2 => {
            let mut x = b.clone(); let e = a.clone().solvec_inplace(&mut x).map(|_| ()); let f1 = match e { Ok(_) => Ok(x), Err(e) => Err(e) };
            tryc!(agree("solvec", vec![("inplace", o1(f1)), ("into", o1(a.clone().solvec_into(b.clone()))), ("by reference", o1(a.clone().solvec(&b)))]));
            tryc!(agree("invc", vec![("inplace", o1(a.clone().invc_inplace())), ("by reference", o1(a.invc())), ("solve identity", o1(a.clone().solvec_into(Array2::eye(r))))]));
        }
        3 => {
            let mut x = b.clone(); let e = a.solve_triangular_inplace(&mut x, u).map(|_| ()); let f1 = match e { Ok(_) => Ok(x), Err(e) => Err(e) };
            tryc!(agree("solve_triangular", vec![("inplace", o1(f1)), ("into", o1(a.solve_triangular_into(b.clone(), u))), ("by reference", o1(a.solve_triangular(&b, u)))]));
        }
        4 => {
            let f = |d: Result<QRDecomp<A, OwnedRepr<A>>, LinalgError>| -> O<A> { d.map(|d| { let (q, r) = d.into_decomp(); vec![q.into_dyn(), r.into_dyn()] }).map_err(|e| format!("{e:?}")) };
            let sep = a.qr().map(|d| vec![d.generate_q().into_dyn(), d.into_r().into_dyn()]).map_err(|e| format!("{e:?}"));
            tryc!(agree("qr", vec![("by reference", f(a.qr())), ("into", f(a.clone().qr_into())), ("separate", sep)]));
        }
        5 => {
            if let Ok(d) = a.qr() {
                tryc!(agree("qr solve", vec![("by reference", o1(d.solve(&b))), ("into", o1(d.solve_into(b.clone())))]));
                tryc!(agree("qr solve_tr", vec![("by reference", o1(d.solve_tr(&b))), ("into", o1(d.solve_tr_into(b.clone())))]));
                if r == c { tryc!(agree("qr inverse", vec![("inverse", o1(d.inverse())), ("solve identity", o1(d.solve_into(Array2::eye(r))))])); }
            }
            tryc!(agree("least squares", vec![("by reference", o1(a.clone().least_squares(&b))), ("into", o1(a.clone().least_squares_into(b.clone())))]));
        }
        6 => {
            let n = r.min(c);
            let mut m = a.clone(); for i in 0..n { for j in 0..i { m[(i, j)] = m[(j, i)]; } }
            let m0 = m.clone();
            let f = |x: Result<(Array1<A>, Array2<A>), LinalgError>| -> O<A> { x.map(|(w, v)| vec![w.into_dyn(), v.into_dyn()]).map_err(|e| format!("{e:?}")) };
            let w = |x: Result<(Array1<A>, Array2<A>), LinalgError>| -> O<A> { x.map(|(w, _)| vec![w.into_dyn()]).map_err(|e| format!("{e:?}")) };
            tryc!(agree("eigh", vec![("by reference", f(m.eigh())), ("into", f(m.clone().eigh_into()))]));
            tryc!(agree("eigvalsh", vec![("by reference", o1(m.eigvalsh())), ("into", o1(m.clone().eigvalsh_into())), ("eigh", w(m.eigh()))]));
            ensure!(same(&m, &m0), "input modified");
        }
        7 => {
            for (cu, cv) in [(true, true), (false, true), (true, false), (false, false)] {
                let f = |x: Result<(Option<Array2<A>>, Array1<A>, Option<Array2<A>>), LinalgError>| -> O<A> { x.map(|(u, s, v)| { let mut o = vec![s.into_dyn()]; if let Some(u) = u { o.push(u.into_dyn()) } if let Some(v) = v { o.push(v.into_dyn()) } o }).map_err(|e| format!("{e:?}")) };
                tryc!(agree("svd", vec![("by reference", f(a.svd(cu, cv))), ("into", f(a.clone().svd_into(cu, cv)))]));
            }
        }
        _ => {
            let n = r;
            if n > 0 && r == c {
                let mut m = a.clone(); for i in 0..n { for j in 0..i { m[(i, j)] = m[(j, i)]; } }
                let d = m.clone().sym_tridiagonal().map_err(|e| format!("{e:?}"))?;
                let (dg, of) = d.clone().into_diagonals(); let t = d.into_tridiag_matrix();
                for i in 0..n { ensure!(t[(i, i)] == dg[i], "tridiagonal forms differ"); if i + 1 < n { ensure!(t[(i, i + 1)] == of[i] && t[(i + 1, i)] == of[i], "tridiagonal forms differ"); } }
            }
            if r > 0 && c > 0 {
                let d = a.clone().bidiagonal().map_err(|e| format!("{e:?}"))?;
                let up = d.is_upper_diag();
                let (dg, of) = d.clone().into_diagonals(); let t = d.into_b();
                for i in 0..r.min(c) { ensure!(t[(i, i)] == dg[i], "bidiagonal forms differ"); if i + 1 < r.min(c) { let x = if up { t[(i, i + 1)] } else { t[(i + 1, i)] }; ensure!(x == of[i], "bidiagonal forms differ"); } }
            }
        }
    }
    ensure!(same(&a, &a0) && same(&b, &b0), "an input was modified by a by-reference form");
    Ok(())
}
