//! Dense and banded matrices: algebra and solvers
use crate::core::*;
use crate::ensure;
use matrix::{GenericMatrix, Matrix, NDiagMatrix};

fn val(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0,
        1 => r.int(-3, 3) as f64,
        2 => r.normal() * 1e6,
        3 => r.normal() * 1e-6,
        _ => r.normal(),
    }
}
type V = Vec<Vec<f64>>;
fn rnd(r: &mut Rng, n: usize, m: usize) -> V {
    (0..n).map(|_| (0..m).map(|_| val(r)).collect()).collect()
}
fn build(v: &V) -> Matrix {
    let (n, m) = (v.len(), v[0].len());
    Matrix::from_data(n, m, v.iter().flatten().cloned().collect())
}
fn entries(a: &Matrix, what: &str) -> Result<V, Fail> {
    let (n, m) = a.size();
    ensure!(a.as_slice().len() == n * m, "{}: size is {}x{} but it holds {} elements", what, n, m, a.as_slice().len());
    let mut out = vec![vec![0.0; m]; n];
    for i in 0..n {
        for j in 0..m {
            match a.get(i, j) {
                Ok(v) => out[i][j] = v,
                Err(e) => return Err(Fail::Bad(format!("{}: element ({},{}) of a {}x{} matrix unavailable: {}", what, i, j, n, m, e))),
            }
        }
    }
    ensure!(a.get(n, 0).is_err() && a.get(0, m).is_err(), "{}: element outside a {}x{} matrix is readable", what, n, m);
    Ok(out)
}
fn close(x: f64, y: f64, scale: f64) -> bool {
    x == y || (x - y).abs() <= 1e-11 * scale.max(1e-300)
}
fn same(got: &Matrix, exp: &dyn Fn(usize, usize) -> (f64, f64), n: usize, m: usize, what: &str) -> R {
    ensure!(got.size() == (n, m), "{}: size is {:?}, expected {:?}", what, got.size(), (n, m));
    let g = entries(got, what)?;
    for i in 0..n {
        for j in 0..m {
            let (e, sc) = exp(i, j);
            ensure!(close(g[i][j], e, sc), "{}: element ({},{}) of {}x{} is {:e}, by definition {:e}", what, i, j, n, m, g[i][j], e);
        }
    }
    Ok(())
}
fn dims(c: &mut Case) -> usize {
    match c.rng.below(5) {
        0 => 1,
        1 => 2,
        2 => 1 + c.rng.below(40),
        _ => 1 + c.rng.below(9),
    }
}

fn algebra(c: &mut Case) -> R {
    let (n, m, k) = (dims(c), dims(c), dims(c));
    c.desc(format!("{}x{} and {}x{}", n, m, m, k));
    c.seen(&format!("{} {} {}", n, m, k));
    let a = rnd(&mut c.rng, n, m);
    let a2 = rnd(&mut c.rng, n, m);
    let b = rnd(&mut c.rng, m, k);
    let (ma, ma2, mb) = (build(&a), build(&a2), build(&b));
    let s = val(&mut c.rng);
    let junk = |r: &mut Rng, n: usize, m: usize| -> Matrix {
        let x = if r.chance(0.3) { f64::NAN } else { r.normal() * 100. };
        Matrix::new(x, n, m)
    };
    let sum = |i: usize, j: usize| (a[i][j] + a2[i][j], a[i][j].abs() + a2[i][j].abs());
    let sub = |i: usize, j: usize| (a[i][j] - a2[i][j], a[i][j].abs() + a2[i][j].abs());
    let sc = |i: usize, j: usize| (a[i][j] * s, (a[i][j] * s).abs());
    let prod = |i: usize, j: usize| {
        let mut v = 0.0;
        let mut w = 0.0;
        for l in 0..m {
            v += a[i][l] * b[l][j];
            w += (a[i][l] * b[l][j]).abs();
        }
        (v, w)
    };
    same(&ma, &|i, j| (a[i][j], 0.0), n, m, "from_data")?;
    same(&(&ma + &ma2), &sum, n, m, "A + B")?;
    same(&(&ma - &ma2), &sub, n, m, "A - B")?;
    same(&(&ma * s), &sc, n, m, "A * s")?;
    same(&(&ma * &mb), &prod, n, k, "A * B")?;
    let mut t = ma.clone();
    t += &ma2;
    same(&t, &sum, n, m, "A += B")?;
    let mut t = ma.clone();
    t -= &ma2;
    same(&t, &sub, n, m, "A -= B")?;
    let mut t = ma.clone();
    t *= s;
    same(&t, &sc, n, m, "A *= s")?;
    if s != 0.0 {
        let dv = |i: usize, j: usize| (a[i][j] / s, (a[i][j] / s).abs());
        same(&(&ma / s), &dv, n, m, "A / s")?;
        let mut t = ma.clone();
        t /= s;
        same(&t, &dv, n, m, "A /= s")?;
    }
    let mut t = junk(&mut c.rng, n, m);
    ensure!(ma.add_into(&ma2, &mut t).is_ok(), "add_into refused matching sizes");
    same(&t, &sum, n, m, "add_into")?;
    let mut t = junk(&mut c.rng, n, m);
    ensure!(ma.sub_into(&ma2, &mut t).is_ok(), "sub_into refused matching sizes");
    same(&t, &sub, n, m, "sub_into")?;
    let mut t = junk(&mut c.rng, n, m);
    ensure!(ma.scale_into(s, &mut t).is_ok(), "scale_into refused matching sizes");
    same(&t, &sc, n, m, "scale_into")?;
    let mut t = junk(&mut c.rng, n, k);
    ensure!(ma.prod_into(&mb, &mut t).is_ok(), "prod_into refused matching sizes");
    same(&t, &prod, n, k, "prod_into")?;
    let mut t = junk(&mut c.rng, n, m);
    t.copy_from(&ma);
    same(&t, &|i, j| (a[i][j], 0.0), n, m, "copy_from")?;
    // operands untouched
    same(&ma, &|i, j| (a[i][j], 0.0), n, m, "left operand after the operations")?;
    same(&mb, &|i, j| (b[i][j], 0.0), m, k, "right operand after the operations")?;
    // mismatched sizes are refused, not computed
    let (n2, m2) = (n + 1 + c.rng.below(3), m + 1 + c.rng.below(3));
    for wrong in [Matrix::new(1., n2, m), Matrix::new(1., n, m2), Matrix::new(1., n2, m2)] {
        let mut t = Matrix::new(7., n, m);
        ensure!(ma.add_into(&wrong, &mut t).is_err(), "add_into accepted {:?} + {:?}", ma.size(), wrong.size());
        ensure!(ma.sub_into(&wrong, &mut t).is_err(), "sub_into accepted {:?} - {:?}", ma.size(), wrong.size());
        same(&t, &|_, _| (7., 0.0), n, m, "destination of a refused operation")?;
        let mut w = wrong.clone();
        ensure!(ma.scale_into(2., &mut w).is_err(), "scale_into accepted destination {:?} for {:?}", w.size(), ma.size());
        ensure!(ma.add_into(&ma2, &mut w).is_err(), "add_into accepted destination {:?} for {:?}", w.size(), ma.size());
        ensure!(ma.sub_into(&ma2, &mut w).is_err(), "sub_into accepted destination {:?} for {:?}", w.size(), ma.size());
        ensure!(guarded(|| &ma + &wrong).is_err(), "{:?} + {:?} computed something", ma.size(), wrong.size());
        ensure!(guarded(|| &ma - &wrong).is_err(), "{:?} - {:?} computed something", ma.size(), wrong.size());
        ensure!(!ma.compare(&wrong), "matrices of sizes {:?} and {:?} compare equal", ma.size(), wrong.size());
    }
    let mut t = Matrix::new(0., n, k);
    ensure!(ma.prod_into(&Matrix::new(1., m2, k), &mut t).is_err(), "prod_into accepted mismatched operands");
    ensure!(ma.prod_into(&mb, &mut Matrix::new(0., n2, k)).is_err(), "prod_into accepted a mismatched destination");
    ensure!(ma.prod_into(&mb, &mut Matrix::new(0., n, k + 1)).is_err(), "prod_into accepted a mismatched destination");
    // element access, constructors, concatenation
    let (i, j) = (c.rng.below(n), c.rng.below(m));
    let v = val(&mut c.rng);
    for op in 0..3 {
        let mut t = ma.clone();
        let (ok, e) = match op {
            0 => (t.set(i, j, v).is_ok(), v),
            1 => (t.add_to_element(i, j, v).is_ok(), a[i][j] + v),
            _ => (t.scale_element(i, j, v).is_ok(), a[i][j] * v),
        };
        ensure!(ok, "element update {} refused inside the matrix", op);
        same(&t, &|p, q| if (p, q) == (i, j) { (e, e.abs()) } else { (a[p][q], 0.0) }, n, m, "element update")?;
        for (p, q) in [(n, 0), (0, m), (n, m), (i, m + j), (n + i, j)] {
            let bad = match op {
                0 => t.set(p, q, v).is_ok(),
                1 => t.add_to_element(p, q, v).is_ok(),
                _ => t.scale_element(p, q, v).is_ok(),
            };
            ensure!(!bad, "element update {} accepted ({},{}) in a {}x{} matrix", op, p, q, n, m);
        }
        same(&t, &|p, q| if (p, q) == (i, j) { (e, e.abs()) } else { (a[p][q], 0.0) }, n, m, "matrix after refused element updates")?;
        let differ = v != a[i][j] && op == 0;
        if differ && !v.is_nan() {
            ensure!(!t.compare(&ma) && !ma.compare(&t), "matrices that differ at ({},{}) compare equal", i, j);
        }
    }
    ensure!(ma.compare(&ma.clone()), "a matrix does not compare equal to its copy");
    same(&Matrix::eye(n), &|i, j| (if i == j { 1. } else { 0. }, 0.), n, n, "eye")?;
    let dg: Vec<f64> = (0..n).map(|_| val(&mut c.rng)).collect();
    same(&Matrix::diag(dg.clone()), &|i, j| (if i == j { dg[i] } else { 0. }, 0.), n, n, "diag")?;
    let top = rnd(&mut c.rng, k, m);
    let mut t = ma.clone();
    ensure!(t.concat_rows(&build(&top)).is_ok(), "concat_rows refused");
    same(&t, &|i, j| (if i < n { a[i][j] } else { top[i - n][j] }, 0.), n + k, m, "concat_rows")?;
    let mut t = ma.clone();
    ensure!(t.concat_rows(&Matrix::new(1., k, m2)).is_err(), "concat_rows accepted another number of columns");
    same(&t, &|i, j| (a[i][j], 0.), n, m, "matrix after refused concat_rows")?;
    // serialization keeps the matrix
    let js = serde_json::to_string(&ma).map_err(|e| Fail::Bad(format!("cannot serialize a matrix: {}", e)))?;
    let back: GenericMatrix<f64> = serde_json::from_str(&js).map_err(|e| Fail::Bad(format!("cannot deserialize a matrix: {}", e)))?;
    same(&back, &|i, j| (a[i][j], a[i][j].abs() * 1e-3), n, m, "JSON round trip")?;
    c.event("operations", 40);
    c.event("elements", (n * m + m * k + n * k) as u64);
    Ok(())
}

fn big_prod(c: &mut Case) -> R {
    // large enough to be split among threads
    let n = 60 + c.rng.below(if c.tier_thorough { 300 } else { 100 });
    let m = 1 + c.rng.below(80);
    let k = 1 + c.rng.below(80);
    c.desc(format!("{}x{} * {}x{}", n, m, m, k));
    c.seen(&format!("{} {} {}", n, m, k));
    let a = rnd(&mut c.rng, n, m);
    let b = rnd(&mut c.rng, m, k);
    let (ma, mb) = (build(&a), build(&b));
    let mut t = Matrix::new(3., n, k);
    ensure!(ma.prod_into(&mb, &mut t).is_ok(), "prod_into refused");
    let prod = |i: usize, j: usize| {
        let mut v = 0.0;
        let mut w = 0.0;
        for l in 0..m {
            v += a[i][l] * b[l][j];
            w += (a[i][l] * b[l][j]).abs();
        }
        (v, w)
    };
    same(&t, &prod, n, k, "large product")?;
    let again = &ma * &mb;
    ensure!(again.compare(&t), "two evaluations of the same product differ");
    c.event("large_products", 1);
    Ok(())
}

fn banded_dense(r: &mut Rng, n: usize, m: usize, half: usize, dominant: bool) -> V {
    let mut a = vec![vec![0.0; m]; n];
    for i in 0..n {
        let mut s = 0.0;
        for j in 0..m {
            if (i as i64 - j as i64).unsigned_abs() as usize <= half && i != j {
                a[i][j] = val(r);
                s += a[i][j].abs();
            }
        }
        if i < m {
            a[i][i] = if dominant { (s * r.range(1.05, 4.0) + r.range(0.1, 2.0)) * if r.chance(0.5) { 1. } else { -1. } } else { val(r) };
        }
    }
    a
}

fn ndiag_n<const N: usize>(c: &mut Case) -> R {
    let half = N / 2;
    let (n, m) = (1 + c.rng.below(14), 1 + c.rng.below(14));
    c.desc(format!("{}-diagonal {}x{}", N, n, m));
    c.seen(&format!("{} {} {}", N, n, m));
    let fill = val(&mut c.rng);
    let mut nd = NDiagMatrix::<N>::new(fill, n, m);
    ensure!(nd.size() == (n, m), "size {:?}", nd.size());
    let inb = |i: usize, j: usize| (i as i64 - j as i64).unsigned_abs() as usize <= half;
    let mut a = vec![vec![0.0; m]; n];
    for i in 0..n {
        for j in 0..m {
            a[i][j] = if inb(i, j) { fill } else { 0.0 };
        }
    }
    let chk = |nd: &NDiagMatrix<N>, a: &V, what: &str| -> R {
        for i in 0..n {
            for j in 0..m {
                match nd.get(i, j) {
                    Ok(v) => ensure!(close(v, a[i][j], a[i][j].abs()), "{}-diagonal {}x{} {}: ({},{}) is {} instead of {}", N, n, m, what, i, j, v, a[i][j]),
                    Err(e) => return Err(Fail::Bad(format!("{}-diagonal {}x{}: ({},{}) unavailable: {}", N, n, m, i, j, e))),
                }
            }
        }
        ensure!(nd.get(n, 0).is_err() && nd.get(0, m).is_err(), "element outside the matrix is readable");
        Ok(())
    };
    chk(&nd, &a, "after construction")?;
    // random history of element updates
    for _ in 0..(3 * n * N.min(m)) {
        let (i, j) = (c.rng.below(n + 1), c.rng.below(m + 1));
        let v = val(&mut c.rng);
        let op = c.rng.below(3);
        let ok = match op {
            0 => nd.set(i, j, v).is_ok(),
            1 => nd.add_to_element(i, j, v).is_ok(),
            _ => nd.scale_element(i, j, v).is_ok(),
        };
        let should = i < n && j < m && inb(i, j);
        ensure!(ok == should, "{}-diagonal {}x{}: update of ({},{}) gave {}", N, n, m, i, j, if ok { "Ok" } else { "an error" });
        if should {
            match op {
                0 => a[i][j] = v,
                1 => a[i][j] += v,
                _ => a[i][j] *= v,
            }
        }
    }
    chk(&nd, &a, "after updates")?;
    let s = val(&mut c.rng);
    let mut t = nd.clone();
    t *= s;
    let sa: V = a.iter().map(|r| r.iter().map(|x| x * s).collect()).collect();
    chk(&t, &sa, "*= s")?;
    let mut t = NDiagMatrix::<N>::new(9., n, m);
    ensure!(nd.scale_into(s, &mut t).is_ok(), "scale_into refused");
    chk(&t, &sa, "scale_into")?;
    ensure!(nd.scale_into(s, &mut NDiagMatrix::<N>::new(9., n + 1, m)).is_err(), "scale_into accepted a mismatched destination");
    ensure!(nd.scale_into(s, &mut NDiagMatrix::<N>::new(9., n, m + 1)).is_err(), "scale_into accepted a mismatched destination");
    let mut t = NDiagMatrix::<N>::new(5., n, m);
    t.copy_from(&nd);
    chk(&t, &a, "copy_from")?;
    // column product
    let x: Vec<f64> = (0..m).map(|_| val(&mut c.rng)).collect();
    let mut y = vec![f64::NAN; n];
    if let Err(e) = nd.column_prod_into(&x, &mut y) {
        return Err(Fail::Bad(format!("column product refused: {}", e)));
    }
    for i in 0..n {
        let (mut v, mut w) = (0.0, 0.0);
        for j in 0..m {
            v += a[i][j] * x[j];
            w += (a[i][j] * x[j]).abs();
        }
        ensure!(close(y[i], v, w), "{}-diagonal {}x{} times vector: row {} is {} instead of {}", N, n, m, i, y[i], v);
    }
    ensure!(nd.column_prod_into(&vec![1.; m + 1], &mut y).is_err(), "column product accepted a longer vector");
    ensure!(nd.column_prod_into(&x, &mut vec![0.; n + 1]).is_err(), "column product accepted a longer destination");
    // dense product exploiting the band
    let k = 1 + c.rng.below(4);
    let b = rnd(&mut c.rng, m, k);
    let (ma, mb) = (build(&a), build(&b));
    let prod = |i: usize, j: usize| {
        let mut v = 0.0;
        let mut w = 0.0;
        for l in 0..m {
            v += a[i][l] * b[l][j];
            w += (a[i][l] * b[l][j]).abs();
        }
        (v, w)
    };
    match ma.from_prod_n_diag(&mb, N) {
        Ok(t) => same(&t, &prod, n, k, "n-diagonal product")?,
        Err(e) => return Err(Fail::Bad(format!("n-diagonal product refused: {}", e))),
    }
    let mut t = Matrix::new(if c.rng.chance(0.5) { f64::NAN } else { 11. }, n, k);
    ensure!(ma.prod_n_diag_into(&mb, N, &mut t).is_ok(), "prod_n_diag_into refused");
    same(&t, &prod, n, k, "prod_n_diag_into")?;
    if N == 3 {
        let mut t = Matrix::new(2., n, k);
        ensure!(ma.prod_tri_diag_into(&mb, &mut t).is_ok(), "prod_tri_diag_into refused");
        same(&t, &prod, n, k, "prod_tri_diag_into")?;
    }
    ensure!(ma.prod_n_diag_into(&Matrix::new(1., m + 1, k), N, &mut Matrix::new(2., n, k)).is_err(), "n-diagonal product accepted mismatched operands");
    ensure!(ma.prod_n_diag_into(&mb, N, &mut Matrix::new(2., n + 1, k)).is_err(), "n-diagonal product accepted a mismatched destination");
    c.event("updates", (3 * n) as u64);
    c.event("products", 3);
    Ok(())
}
fn ndiag(c: &mut Case) -> R {
    match c.rng.below(4) {
        0 => ndiag_n::<1>(c),
        1 => ndiag_n::<5>(c),
        2 => ndiag_n::<7>(c),
        _ => ndiag_n::<3>(c),
    }
}

fn resid(a: &V, x: &V, b: &V, what: &str) -> R {
    let n = a.len();
    for col in 0..b[0].len() {
        for i in 0..n {
            let mut v = -b[i][col];
            let mut w = b[i][col].abs();
            for j in 0..n {
                v += a[i][j] * x[j][col];
                w += (a[i][j] * x[j][col]).abs();
            }
            ensure!(v.abs() <= 1e-9 * w.max(1e-250), "{}: residual of row {} (column {}) is {:e}, magnitude of its terms {:e}", what, i, col, v, w);
        }
    }
    Ok(())
}
fn gauss_n<const N: usize>(c: &mut Case) -> R {
    let n = 1 + c.rng.below(if c.tier_thorough { 60 } else { 24 });
    let a = banded_dense(&mut c.rng, n, n, N / 2, true);
    let k = 1 + c.rng.below(3);
    let b = rnd(&mut c.rng, n, k);
    c.desc(format!("{}-diagonal {}x{}, {} right-hand sides", N, n, n, k));
    c.seen(&format!("{} {} {}", N, n, k));
    let (ma, mb) = (build(&a), build(&b));
    let x = ma.n_diag_gaussian(&mb, N).map_err(|e| Fail::Bad(format!("diagonally dominant system refused: {}", e)))?;
    ensure!(x.size() == (n, k), "size of the solution {:?}", x.size());
    resid(&a, &entries(&x, "solution")?, &b, "n_diag_gaussian")?;
    same(&ma, &|i, j| (a[i][j], 0.), n, n, "matrix after n_diag_gaussian")?;
    same(&mb, &|i, j| (b[i][j], 0.), n, k, "right-hand side after n_diag_gaussian")?;
    let (mut ma2, mut mb2) = (ma.clone(), mb.clone());
    ma2.mut_n_diag_gaussian(&mut mb2, N).map_err(|e| Fail::Bad(format!("diagonally dominant system refused: {}", e)))?;
    resid(&a, &entries(&mb2, "solution")?, &b, "mut_n_diag_gaussian")?;
    // compact storage
    let mut nd = NDiagMatrix::<N>::new(0., n, n);
    for i in 0..n {
        for j in 0..n {
            if (i as i64 - j as i64).unsigned_abs() as usize <= N / 2 {
                nd.set(i, j, a[i][j]).map_err(|e| Fail::Bad(format!("cannot fill the band: {}", e)))?;
            }
        }
    }
    let rhs: Vec<f64> = b.iter().map(|r| r[0]).collect();
    let mut xs = rhs.clone();
    nd.mut_gaussian(&mut xs).map_err(|e| Fail::Bad(format!("diagonally dominant system refused: {}", e)))?;
    let xv: V = xs.iter().map(|x| vec![*x]).collect();
    let bv: V = rhs.iter().map(|x| vec![*x]).collect();
    resid(&a, &xv, &bv, "compact gaussian")?;
    c.event("solved", 3);
    // singular: an exactly zero column makes a zero pivot
    if n > 1 {
        let z = c.rng.below(n);
        let mut s = a.clone();
        for r in s.iter_mut() {
            r[z] = 0.0;
        }
        let ms = build(&s);
        ensure!(ms.n_diag_gaussian(&mb, N).is_err(), "a singular {}-diagonal system (column {} is zero) of size {} was 'solved'", N, z, n);
        c.event("singular_refused", 1);
    }
    Ok(())
}
fn gaussian(c: &mut Case) -> R {
    match c.rng.below(5) {
        0 => gauss_n::<1>(c),
        1 => gauss_n::<5>(c),
        2 => gauss_n::<7>(c),
        _ => gauss_n::<3>(c),
    }
}
fn seidel(c: &mut Case) -> R {
    let n = 1 + c.rng.below(20);
    let mut a = banded_dense(&mut c.rng, n, n, n, true);
    let b: V = (0..n).map(|_| vec![val(&mut c.rng)]).collect();
    let kind = c.rng.below(4);
    match kind {
        0 => {} // converges
        1 => {
            let z = c.rng.below(n);
            a[z][z] = 0.0
        }
        2 => {
            for i in 0..n {
                a[i][i] *= c.rng.range(0.0, 0.6)
            }
        }
        _ => {}
    }
    let maxit = *c.rng.pick(&[1usize, 2, 5, 50, 5000]);
    let conv = *c.rng.pick(&[1e-3, 1e-6, 1e-9]);
    c.desc(format!("gauss-seidel n={} kind={} maxit={} conv={:e}", n, kind, maxit, conv));
    c.seen(&format!("{} {} {} {:e}", n, kind, maxit, conv));
    let ma = build(&a);
    let mb = build(&b);
    let x0: V = (0..n).map(|_| vec![c.rng.normal()]).collect();
    let mut x = build(&x0);
    match ma.gauss_seidel(&mb, &mut x, maxit, conv) {
        Ok(()) => {
            let xv = entries(&x, "solution")?;
            for i in 0..n {
                let mut v = -b[i][0];
                let (mut w, mut sa) = (b[i][0].abs(), 0.0);
                for j in 0..n {
                    v += a[i][j] * xv[j][0];
                    w += (a[i][j] * xv[j][0]).abs();
                    sa += a[i][j].abs();
                }
                ensure!(v.is_finite() && v.abs() <= conv * sa * 1.000001 + 1e-10 * w, "gauss_seidel reported convergence to {:e} but row {} has a residual of {:e} (row sum {:e})", conv, i, v, sa);
            }
            c.event("converged", 1);
        }
        Err(_) => {
            ensure!(!((kind == 0 || kind == 3) && maxit == 5000 && conv >= 1e-6 && !big(&b)), "gauss_seidel did not converge on a diagonally dominant system in {} iterations", maxit);
            c.event("not_converged", 1);
        }
    }
    let mut x = Matrix::new(0., n, 1);
    ensure!(Matrix::new(1., n, n + 1).gauss_seidel(&mb, &mut x, 5, conv).is_err(), "gauss_seidel accepted a non-square matrix");
    ensure!(ma.gauss_seidel(&Matrix::new(1., n + 1, 1), &mut x, 5, conv).is_err(), "gauss_seidel accepted a mismatched right-hand side");
    ensure!(ma.gauss_seidel(&mb, &mut Matrix::new(1., n + 1, 1), 5, conv).is_err(), "gauss_seidel accepted a mismatched solution vector");
    Ok(())
}
fn big(b: &V) -> bool {
    b.iter().any(|r| r[0].abs() > 1e3)
}

pub static PROPS: &[&Prop] = &[
    &Prop {
        id: "M01",
        rule: "random dense and n-diagonal (n=1,3,5,7) matrices of random shape (degenerate 1xN/Nx1, narrow, large enough to be split among threads), histories of element updates, destinations pre-filled with junk/NaN; every element of every result is compared with the definition of the operation. Non-trivial: distinct shapes.",
        assumptions: &["double precision; comparison tolerance 1e-11 of the sum of magnitudes of the terms"],
        workloads: &[
            wl("algebra", 4000, 60000, algebra).need(&[("operations", 1000)]),
            wl("big_products", 60, 1500, big_prod).need(&[("large_products", 20)]),
            wl("ndiag", 6000, 80000, ndiag).need(&[("products", 1000), ("updates", 1000)]),
        ],
    },
    &Prop {
        id: "M02",
        rule: "random diagonally dominant banded systems (1,3,5,7 diagonals; several right-hand sides; dense and compact storage), exactly singular ones, and Gauss-Seidel runs that converge, diverge or run out of iterations; the residual of every returned solution is recomputed. Non-trivial: distinct (band, size, kind).",
        assumptions: &["elimination is only required to be accurate for diagonally dominant systems (no pivoting is promised)"],
        workloads: &[
            wl("gaussian", 8000, 100000, gaussian).need(&[("solved", 1000), ("singular_refused", 500)]),
            wl("gauss_seidel", 4000, 50000, seidel).need(&[("converged", 300), ("not_converged", 300)]),
        ],
    },
];
