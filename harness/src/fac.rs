//! Factorizations, inverses, solves and eigenproblems of dense matrices
use crate::pde::whole;
use crate::util::*;
use russell_lab::*;
use serde_json::{Value, json};

const S: f64 = 1e6;

fn rows(v: &Value, key: &str) -> (usize, usize) {
    let a = geta(v, key);
    (a.len(), if a.is_empty() { 0 } else { a[0].as_array().unwrap().len() })
}
fn rm(v: &Value, key: &str) -> Matrix {
    let (m, n) = rows(v, key);
    Matrix::initialized(m, n, |i, j| v[key][i][j][0].as_f64().unwrap())
}
fn cm(v: &Value, key: &str) -> ComplexMatrix {
    let (m, n) = rows(v, key);
    ComplexMatrix::initialized(m, n, |i, j| cpx!(v[key][i][j][0].as_f64().unwrap(), v[key][i][j][1].as_f64().unwrap()))
}
fn rv(v: &Value, key: &str) -> Vec<Complex64> {
    geta(v, key).iter().map(|z| cpx!(z[0].as_f64().unwrap(), z[1].as_f64().unwrap())).collect()
}
fn pr(re: f64, im: f64) -> Value {
    json!([sc(re, S), sc(im, S)])
}
fn sm(a: &Matrix) -> Value {
    json!((0..a.nrow()).map(|i| (0..a.ncol()).map(|j| pr(a.get(i, j), 0.0)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn sm2(a: &Matrix, b: &Matrix) -> Value {
    json!((0..a.nrow()).map(|i| (0..a.ncol()).map(|j| pr(a.get(i, j), b.get(i, j))).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn scm(a: &ComplexMatrix) -> Value {
    json!((0..a.nrow()).map(|i| (0..a.ncol()).map(|j| pr(a.get(i, j).re, a.get(i, j).im)).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn sv(a: &Vector) -> Value {
    json!((0..a.dim()).map(|i| pr(a[i], 0.0)).collect::<Vec<_>>())
}
fn sv2(a: &Vector, b: &Vector) -> Value {
    json!((0..a.dim()).map(|i| pr(a[i], b[i])).collect::<Vec<_>>())
}
fn scv(a: &ComplexVector) -> Value {
    json!((0..a.dim()).map(|i| pr(a[i].re, a[i].im)).collect::<Vec<_>>())
}
fn grow(a: &mut [f64], by: f64) {
    a.iter_mut().for_each(|x| *x *= by);
}
fn cgrow(a: &mut [Complex64], by: f64) {
    a.iter_mut().for_each(|x| *x *= by);
}
fn det(re: f64, im: f64) -> Value {
    json!([whole(re), whole(im)])
}

fn small<const N: usize>(op: &Value) -> Result<Value, &'static str> {
    let n = getu(op, "n");
    let (r, c) = rows(op, "a");
    let mut a = [[9.0f64; N]; N];
    for i in 0..r.min(N) {
        for j in 0..c.min(N) {
            a[i][j] = op["a"][i][j][0].as_f64().unwrap();
        }
    }
    let show = |x: &[[f64; N]; N]| json!(x.iter().map(|w| w.iter().map(|y| pr(*y, 0.0)).collect::<Vec<_>>()).collect::<Vec<_>>());
    match gets(op, "f") {
        "sinv" => {
            let mut ai = [[7.0; N]; N];
            let d = small_mat_inv(&mut ai, &a, n)?;
            Ok(json!({"det":det(d, 0.0),"x":show(&ai)}))
        }
        "gji" => {
            num_recipes_gaussj_inv(&mut a)?;
            Ok(json!({"x":show(&a)}))
        }
        "gjs" => {
            let mut b = [[0.0; 2]; N];
            for i in 0..N {
                for k in 0..2 {
                    b[i][k] = op["b"][i][k][0].as_f64().unwrap();
                }
            }
            num_recipes_gaussj_sol(&mut a, &mut b)?;
            Ok(json!({"x":show(&a),"y":b.iter().map(|w| w.iter().map(|z| pr(*z, 0.0)).collect::<Vec<_>>()).collect::<Vec<_>>()}))
        }
        _ => {
            let mut b = [0.0; N];
            for i in 0..N {
                b[i] = op["b"][i][0][0].as_f64().unwrap();
            }
            small_solve_lin_sys(&mut b, &mut a)?;
            Ok(json!({"y":b.iter().map(|z| vec![pr(*z, 0.0)]).collect::<Vec<_>>()}))
        }
    }
}

fn run(op: &Value) -> Result<Value, &'static str> {
    let bad = getu(op, "bad");
    let k = |w: usize| if bad == w { 1 } else { 0 };
    let up = geti(op, "up") == 1;
    let cplx = geti(op, "cx") == 1;
    let (m, n) = rows(op, "a");
    let mn = m.min(n);
    let mut a = rm(op, "a");
    let mut c = cm(op, "a");
    let f = gets(op, "f");
    // a power of two is the unit of the entries and is removed from the results
    let unit = f64::powi(2.0, op.get("ks").map_or(0, |x| x.as_i64().unwrap() as i32));
    grow(a.as_mut_data(), unit);
    cgrow(c.as_mut_data(), unit);
    match (f, cplx) {
        ("inv", false) => {
            let mut x = Matrix::filled(m + k(1), n, 7.0);
            let d = mat_inverse(&mut x, &a)?;
            grow(x.as_mut_data(), unit);
            let d = d / f64::powi(unit, m as i32);
            Ok(json!({"det":det(d, 0.0),"x":sm(&x)}))
        }
        ("inv", true) => {
            let mut x = ComplexMatrix::filled(m + k(1), n, cpx!(7.0, 7.0));
            let d = complex_mat_inverse(&mut x, &c)?;
            cgrow(x.as_mut_data(), unit);
            let d = d / f64::powi(unit, m as i32);
            Ok(json!({"det":det(d.re, d.im),"x":scm(&x)}))
        }
        ("pinv", _) => {
            let mut x = Matrix::filled(n + k(1), m, 7.0);
            mat_pseudo_inverse(&mut x, &mut a)?;
            grow(x.as_mut_data(), unit);
            Ok(json!({"x":sm(&x)}))
        }
        ("solve", false) => {
            let b = rv(op, "v");
            let mut x = Vector::initialized(b.len(), |i| b[i].re);
            solve_lin_sys(&mut x, &mut a)?;
            grow(x.as_mut_data(), unit);
            Ok(json!({"y":sv(&x)}))
        }
        ("solve", true) => {
            let b = rv(op, "v");
            let mut x = ComplexVector::initialized(b.len(), |i| b[i]);
            complex_solve_lin_sys(&mut x, &mut c)?;
            cgrow(x.as_mut_data(), unit);
            Ok(json!({"y":scv(&x)}))
        }
        ("chol", false) => {
            mat_cholesky(&mut a, up)?;
            for i in 0..m {
                for j in 0..n {
                    let other = if up { i > j } else { i < j };
                    a.set(i, j, a.get(i, j) / if other { unit } else { unit.sqrt() });
                }
            }
            Ok(json!({"x":sm(&a)}))
        }
        ("chol", true) => {
            complex_mat_cholesky(&mut c, up)?;
            for i in 0..m {
                for j in 0..n {
                    let other = if up { i > j } else { i < j };
                    c.set(i, j, c.get(i, j) / if other { unit } else { unit.sqrt() });
                }
            }
            Ok(json!({"x":scm(&c)}))
        }
        ("svd", false) => {
            let (mut s, mut u, mut vt) = (Vector::new(mn + k(1)), Matrix::new(m + k(2), m), Matrix::new(n, n + k(3)));
            mat_svd(&mut s, &mut u, &mut vt, &mut a)?;
            grow(s.as_mut_data(), 1.0 / unit);
            Ok(json!({"l":sv(&s),"u":sm(&u),"v":sm(&vt)}))
        }
        ("svd", true) => {
            let (mut s, mut u, mut vt) = (Vector::new(mn + k(1)), ComplexMatrix::new(m + k(2), m), ComplexMatrix::new(n, n + k(3)));
            complex_mat_svd(&mut s, &mut u, &mut vt, &mut c)?;
            grow(s.as_mut_data(), 1.0 / unit);
            Ok(json!({"l":sv(&s),"u":scm(&u),"v":scm(&vt)}))
        }
        ("eig", false) => {
            let (mut lr, mut li) = (Vector::new(m + k(1)), Vector::new(m + k(2)));
            let (mut vr, mut vi) = (Matrix::filled(m + k(3), m, 7.0), Matrix::filled(m, m + k(4), 7.0));
            mat_eigen(&mut lr, &mut li, &mut vr, &mut vi, &mut a)?;
            grow(lr.as_mut_data(), 1.0 / unit);
            grow(li.as_mut_data(), 1.0 / unit);
            Ok(json!({"l":sv2(&lr, &li),"v":sm2(&vr, &vi)}))
        }
        ("eig", true) => {
            let (mut l, mut v) = (ComplexVector::new(m + k(1)), ComplexMatrix::new(m + k(3), m));
            complex_mat_eigen(&mut l, &mut v, &mut c)?;
            cgrow(l.as_mut_data(), 1.0 / unit);
            Ok(json!({"l":scv(&l),"v":scm(&v)}))
        }
        ("eiglr", false) => {
            let (mut lr, mut li) = (Vector::new(m + k(1)), Vector::new(m + k(2)));
            let (mut vr, mut vi) = (Matrix::filled(m + k(3), m, 7.0), Matrix::filled(m, m + k(4), 7.0));
            let (mut ur, mut ui) = (Matrix::filled(m + k(5), m, 7.0), Matrix::filled(m, m + k(6), 7.0));
            mat_eigen_lr(&mut lr, &mut li, &mut ur, &mut ui, &mut vr, &mut vi, &mut a)?;
            grow(lr.as_mut_data(), 1.0 / unit);
            grow(li.as_mut_data(), 1.0 / unit);
            Ok(json!({"l":sv2(&lr, &li),"v":sm2(&vr, &vi),"u":sm2(&ur, &ui)}))
        }
        ("eiglr", true) => {
            let (mut l, mut v, mut u) = (ComplexVector::new(m + k(1)), ComplexMatrix::new(m + k(3), m), ComplexMatrix::new(m, m + k(5)));
            complex_mat_eigen_lr(&mut l, &mut u, &mut v, &mut c)?;
            cgrow(l.as_mut_data(), 1.0 / unit);
            Ok(json!({"l":scv(&l),"v":scm(&v),"u":scm(&u)}))
        }
        ("eigval", _) => {
            let (mut lr, mut li) = (Vector::new(m + k(1)), Vector::new(m + k(2)));
            mat_eigenvalues(&mut lr, &mut li, &mut a)?;
            grow(lr.as_mut_data(), 1.0 / unit);
            grow(li.as_mut_data(), 1.0 / unit);
            Ok(json!({"l":sv2(&lr, &li)}))
        }
        ("sym", false) => {
            let mut l = Vector::new(m + k(1));
            mat_eigen_sym(&mut l, &mut a, up)?;
            grow(l.as_mut_data(), 1.0 / unit);
            Ok(json!({"l":sv(&l),"v":sm(&a)}))
        }
        ("sym", true) => {
            let mut l = Vector::new(m + k(1));
            complex_mat_eigen_herm(&mut l, &mut c, up)?;
            grow(l.as_mut_data(), 1.0 / unit);
            Ok(json!({"l":sv(&l),"v":scm(&c)}))
        }
        ("jacobi", _) => {
            let (mut l, mut v) = (Vector::new(m + k(1)), Matrix::new(m + k(2), m));
            mat_eigen_sym_jacobi(&mut l, &mut v, &mut a)?;
            Ok(json!({"l":sv(&l),"v":sm(&v)}))
        }
        ("gen", false) | ("genlr", false) => {
            let mut b = rm(op, "b");
            let (mut ar, mut ai, mut be) = (Vector::new(m + k(1)), Vector::new(m + k(2)), Vector::new(m + k(3)));
            let (mut u, mut v) = (Matrix::new(m + k(5), m), Matrix::new(m, m + k(4)));
            if f == "gen" {
                mat_gen_eigen(&mut ar, &mut ai, &mut be, &mut v, &mut a, &mut b)?;
            } else {
                mat_gen_eigen_lr(&mut ar, &mut ai, &mut be, &mut u, &mut v, &mut a, &mut b)?;
            }
            let q: Vec<Value> = (0..m).map(|i| pr(ar[i] / be[i], ai[i] / be[i])).collect();
            let sg: Vec<i64> = (0..m).map(|i| if ai[i] > 0.0 { 1 } else if ai[i] < 0.0 { -1 } else { 0 }).collect();
            Ok(json!({"sg":sg,"l":sv2(&ar, &ai),"d":sv(&be),"q":q,"v":sm(&v),"u":sm(&u)}))
        }
        ("gen", true) | ("genlr", true) => {
            let mut b = cm(op, "b");
            let (mut al, mut be) = (ComplexVector::new(m + k(1)), ComplexVector::new(m + k(3)));
            let (mut u, mut v) = (ComplexMatrix::new(m + k(5), m), ComplexMatrix::new(m, m + k(4)));
            if f == "gen" {
                complex_mat_gen_eigen(&mut al, &mut be, &mut v, &mut c, &mut b)?;
            } else {
                complex_mat_gen_eigen_lr(&mut al, &mut be, &mut u, &mut v, &mut c, &mut b)?;
            }
            let q: Vec<Value> = (0..m).map(|i| al[i] / be[i]).map(|z| pr(z.re, z.im)).collect();
            Ok(json!({"l":scv(&al),"d":scv(&be),"q":q,"v":scm(&v),"u":scm(&u)}))
        }
        _ => match getu(op, "big") {
            1 => small::<1>(op),
            2 => small::<2>(op),
            3 => small::<3>(op),
            4 => small::<4>(op),
            5 => small::<5>(op),
            _ => small::<6>(op),
        },
    }
}

pub fn exec(ops: &[Value], log: &mut Log) {
    for op in ops {
        let o = if gets(op, "e") == "op" { obs(|| run(op), |v| v) } else { json!({}) };
        log.ev(op, o);
    }
}

type M = Vec<Vec<[i64; 2]>>;

/// kind of matrix structures that stress the algorithms
fn matrix(rng: &mut Rng, m: usize, n: usize, cplx: bool, wide: i64) -> M {
    let z = |rng: &mut Rng| [rng.int(-wide, wide), if cplx { rng.int(-wide, wide) } else { 0 }];
    let mut a: M = (0..m).map(|_| (0..n).map(|_| z(rng)).collect()).collect();
    let sq = m == n;
    match rng.int(0, 15) {
        // zero matrix, diagonal with repeats, triangular
        0 if rng.chance(1, 3) => a.iter_mut().flatten().for_each(|x| *x = [0, 0]),
        1 if sq => {
            let pool = [z(rng), z(rng)];
            for i in 0..m {
                for j in 0..n {
                    a[i][j] = if i == j { *rng.pick(&pool) } else { [0, 0] };
                }
            }
        }
        2 | 3 => {
            let low = rng.chance(1, 2);
            for i in 0..m {
                for j in 0..n {
                    if (low && j > i) || (!low && i > j) {
                        a[i][j] = [0, 0];
                    }
                }
            }
        }
        // Jordan block
        4 if sq => {
            let d = z(rng);
            for i in 0..m {
                for j in 0..n {
                    a[i][j] = if i == j { d } else if j == i + 1 { [rng.int(0, 1), 0] } else { [0, 0] };
                }
            }
        }
        // plane rotations and reals along the diagonal
        5 | 6 if sq => {
            let mut i = 0;
            a.iter_mut().flatten().for_each(|x| *x = [0, 0]);
            while i < m {
                if i + 1 < m && rng.chance(2, 3) {
                    let (p, q) = (rng.int(-wide, wide), rng.int(1, wide.max(1)));
                    a[i][i] = [p, 0];
                    a[i + 1][i + 1] = [p, 0];
                    a[i][i + 1] = [q, 0];
                    a[i + 1][i] = [-q, 0];
                    i += 2;
                } else {
                    a[i][i] = z(rng);
                    i += 1;
                }
            }
        }
        // dependent rows
        7 | 8 if m >= 2 => {
            let (p, q) = (rng.us(0, m - 1), rng.us(0, m - 1));
            let f = rng.int(-1, 2);
            for j in 0..n {
                let x = a[p][j];
                a[q][j] = if p == q { [0, 0] } else { [f * x[0], f * x[1]] };
            }
        }
        // signed permutation
        9 if sq => {
            let mut p: Vec<usize> = (0..m).collect();
            for i in (1..m).rev() {
                let j = rng.us(0, i);
                p.swap(i, j);
            }
            for i in 0..m {
                for j in 0..n {
                    a[i][j] = if p[i] == j { [*rng.pick(&[1, -1, 2]), 0] } else { [0, 0] };
                }
            }
        }
        // sparse
        10 => a.iter_mut().flatten().for_each(|x| {
            if rng.chance(1, 2) {
                *x = [0, 0]
            }
        }),
        _ => {}
    }
    a
}
fn hermitian(a: &mut M) {
    for i in 0..a.len() {
        a[i][i][1] = 0;
        for j in 0..i {
            a[i][j] = [a[j][i][0], -a[j][i][1]];
        }
    }
}

pub fn random(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e":"reset","prop":"L02"})];
    for _ in 0..rng.us(2, 5) {
        let f = *rng.pick(&[
            "inv", "inv", "pinv", "solve", "chol", "chol", "svd", "svd", "eig", "eig", "eiglr", "eiglr", "eigval", "sym", "sym", "jacobi", "jacobi", "gen", "genlr", "sinv", "sinv", "gji",
            "gjs", "ssol",
        ]);
        let smallf = ["sinv", "gji", "gjs", "ssol"].contains(&f);
        let cplx = rng.chance(2, 5) && !["pinv", "eigval", "jacobi"].contains(&f) && !smallf;
        let n = rng.us(1, if cplx { 5 } else { 6 });
        let mut m = if ["svd", "pinv"].contains(&f) && rng.chance(2, 3) { rng.us(1, 5) } else { n };
        if rng.chance(1, 30) && !smallf {
            m = rng.us(1, 5);
        }
        let wide = if cplx { *rng.pick(&[1, 2]) } else { *rng.pick(&[1, 2, 3]) };
        let mut a = matrix(rng, m, n, cplx, wide);
        let up = rng.chance(1, 2);
        if m == n && ["chol", "sym", "jacobi"].contains(&f) {
            hermitian(&mut a);
            if f == "chol" {
                if rng.chance(3, 4) {
                    // diagonally dominant, or a product with its adjoint
                    let d = rng.int(0, 2);
                    for i in 0..n {
                        let s: i64 = (0..n).filter(|j| *j != i).map(|j| a[i][j][0].abs() + a[i][j][1].abs()).sum();
                        a[i][i][0] = s + d;
                    }
                }
                if rng.chance(1, 6) {
                    let k = rng.us(0, n - 1);
                    a[k][k][0] -= rng.int(0, 3);
                }
            }
            if f != "jacobi" && rng.chance(1, 2) {
                // the other triangle is not looked at
                for i in 0..n {
                    for j in 0..n {
                        if (up && i > j) || (!up && i < j) {
                            a[i][j] = [rng.int(-4, 4), if cplx { rng.int(-4, 4) } else { 0 }];
                        }
                    }
                }
            }
        }
        let mut op = json!({"e":"op","f":f,"cx":cplx as i64,"up":up as i64,"bad":0,"n":n,"big":n,"a":a});
        match f {
            "solve" => {
                let len = if rng.chance(1, 20) { m + 1 } else { m };
                op["v"] = json!((0..len).map(|_| [rng.int(-5, 5), if cplx { rng.int(-5, 5) } else { 0 }]).collect::<Vec<_>>());
            }
            "gen" | "genlr" => {
                let mut b = matrix(rng, n, n, cplx, 2);
                if rng.chance(1, 3) {
                    for i in 0..n {
                        for j in 0..n {
                            b[i][j] = if i == j { [1, 0] } else if j > i { b[i][j] } else { [0, 0] };
                        }
                    }
                }
                op["b"] = json!(b);
            }
            "gjs" | "ssol" => op["b"] = json!((0..n).map(|_| [[rng.int(-5, 5), 0], [rng.int(-5, 5), 0]]).collect::<Vec<_>>()),
            "sinv" => op["big"] = json!(rng.us(n, 6)),
            _ => {}
        }
        if rng.chance(1, 3) {
            // inverses of matrices with a tiny determinant are refused
            match f {
                "inv" => op["ks"] = json!(rng.int(0, 40)),
                "pinv" | "solve" | "chol" | "svd" | "eig" | "eiglr" | "eigval" | "sym" => op["ks"] = json!(2 * rng.int(-40, 40)),
                _ => {}
            }
        }
        if rng.chance(1, 12) {
            op["bad"] = json!(match (f, cplx) {
                ("inv" | "pinv" | "sym", _) => 1,
                ("svd", _) => rng.us(1, 3),
                ("jacobi" | "eigval", _) => rng.us(1, 2),
                ("eig", false) => rng.us(1, 4),
                ("eiglr", false) => rng.us(1, 6),
                ("eig", true) => *rng.pick(&[1, 3]),
                ("eiglr", true) => *rng.pick(&[1, 3, 5]),
                ("gen", false) => rng.us(1, 4),
                ("genlr", false) => rng.us(1, 5),
                ("gen", true) => *rng.pick(&[1, 3, 4]),
                ("genlr", true) => *rng.pick(&[1, 3, 4, 5]),
                _ => 0,
            });
        }
        ops.push(op);
    }
    ops
}
