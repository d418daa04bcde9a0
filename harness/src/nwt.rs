//! Newton's method, line search, numerical derivatives and comparison helpers
use crate::util::*;
use russell_lab::*;
use serde_json::{Value, json};

struct Sys {
    n: usize,
    a: Vec<Vec<f64>>,
    b: Vec<Vec<f64>>,
    c: Vec<f64>,
    fail: i64,
    nan: i64,
    calls: Vec<Value>,
    nf: i64,
    nj: i64,
}
fn mat(op: &Value, k: &str) -> Vec<Vec<f64>> {
    geta(op, k).iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f64).collect()).collect()
}
impl Sys {
    fn f(&mut self, r: &mut Vector, x: &Vector) -> Result<(), StrError> {
        self.nf += 1;
        for i in 0..self.n {
            r[i] = (0..self.n).map(|j| self.a[i][j] * x[j] + self.b[i][j] * x[j] * x[j]).sum::<f64>() - self.c[i];
        }
        if self.nf == self.nan {
            r[self.n - 1] = f64::NAN;
        }
        let top = (0..self.n).fold(0.0, |m: f64, i| if m.is_nan() || r[i].is_nan() { f64::NAN } else { m.max(r[i].abs()) });
        let phi: f64 = (0..self.n).map(|i| r[i] * r[i]).sum();
        let xb: Vec<Value> = (0..self.n).map(|i| bits3(x[i])).collect();
        self.calls.push(json!({"k":"f","x":scs(x.as_data(), 1e4),"xb":xb,"r":scs(r.as_data(), 1e4),"nb":bits3(top),"ln":sc(top.ln(), 1e6),"lp":sc(phi.ln(), 1e7)}));
        if self.nf + self.nj == self.fail { Err("stop") } else { Ok(()) }
    }
    fn j(&mut self, jj: &mut Matrix, x: &Vector) -> Result<(), StrError> {
        self.nj += 1;
        for i in 0..self.n {
            for j in 0..self.n {
                jj.set(i, j, self.a[i][j] + 2.0 * self.b[i][j] * x[j]);
            }
        }
        self.calls.push(json!({"k":"j","x":scs(x.as_data(), 1e4)}));
        if self.nf + self.nj == self.fail { Err("stop") } else { Ok(()) }
    }
}

fn poly(c: &[f64], x: f64) -> f64 {
    c.iter().rev().fold(0.0, |s, a| s * x + a)
}
fn special(v: &Value) -> f64 {
    match v.as_i64().unwrap() {
        900001 => f64::NAN,
        900002 => f64::INFINITY,
        900003 => f64::NEG_INFINITY,
        900004 => -0.0,
        x => x as f64 / 4.0,
    }
}

fn run(op: &Value, ns: &mut Option<NewtonSolver>) -> Value {
    match gets(op, "f") {
        "newton" => {
            let n = getu(op, "n");
            let mut sys = Sys { n, a: mat(op, "a"), b: mat(op, "b"), c: getf(op, "c"), fail: geti(op, "fail"), nan: geti(op, "nan"), calls: vec![], nf: 0, nj: 0 };
            let x0 = getf(op, "x0");
            let mut x = Vector::from(&x0);
            if ns.is_none() || geti(op, "fresh") == 1 {
                *ns = NewtonSolver::new(getu(op, "dim")).ok();
            }
            let Some(s) = ns.as_mut() else { return json!({"st":"err","calls":[],"on":0,"made":0}) };
            let tol = 10f64.powi(-(geti(op, "tol") as i32));
            s.set_max_iterations(getu(op, "max")).set_tolerance(tol).set_divergent_tol(geti(op, "div") as f64);
            s.set_use_line_search(geti(op, "ls") == 1).set_initial_alpha(geti(op, "al") as f64 / 4.0).set_enable_stats(geti(op, "stats") == 1);
            let o = obs(|| s.solve(&mut x, &mut sys, |r: &mut Vector, x: &Vector, a: &mut Sys| a.f(r, x), |j: &mut Matrix, x: &Vector, a: &mut Sys| a.j(j, x)), |_| json!({}));
            let c = match s.get_stats() {
                Ok(s) => json!({"on":1,"nf":s.get_n_function(),"nj":s.get_n_jacobian(),"ni":s.get_n_iterations()}),
                Err(_) => json!({"on":0}),
            };
            let xb: Vec<Value> = (0..x.dim()).map(|i| bits3(x[i])).collect();
            o.merge(c).merge(json!({"calls":sys.calls,"xb":xb,"made":1,"tb":bits3(tol),"ld":sc((geti(op, "div") as f64).ln(), 1e6)}))
        }
        "line" => {
            let c = getf(op, "c");
            let mut seen: Vec<i64> = vec![];
            let (x, p, fx, slope) = (geti(op, "x") as f64, geti(op, "p") as f64, geti(op, "fx") as f64, geti(op, "slope") as f64);
            let fail = geti(op, "fail");
            let f = |x: f64, s: &mut Vec<i64>| {
                s.push(xi(x * 65536.0));
                if s.len() as i64 == fail { Err("stop") } else { Ok(poly(&c, x)) }
            };
            let o = match geti(op, "way") {
                0 => {
                    let s = LineSearcher { c1: geti(op, "c1") as f64 / 16.0, rho: geti(op, "rho") as f64 / 4.0, min_alpha: geti(op, "mina") as f64 / 256.0, max_iterations: getu(op, "max") };
                    obs(|| s.search(x, p, fx, slope, &mut seen, f), |(a, n)| json!({"al":xi(a * 65536.0),"n":n}))
                }
                1 => obs(|| line_search(x, p, fx, slope, &mut seen, f), |a| json!({"al":xi(a * 65536.0),"n":-1})),
                _ => obs(|| line_search_with_stats(x, p, fx, slope, &mut seen, f), |(a, n)| json!({"al":xi(a * 65536.0),"n":n})),
            };
            o.merge(json!({"seen":seen}))
        }
        "jac" => {
            let n = getu(op, "n");
            let c: Vec<Vec<Vec<f64>>> = geta(op, "c").iter().map(|r| r.as_array().unwrap().iter().map(|v| v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f64).collect()).collect()).collect();
            let y = Vector::from(&getf(op, "y"));
            let fail = geti(op, "fail");
            let mut count = 0;
            obs(
                || {
                    num_jacobian(n, geti(op, "x") as f64, &y, geti(op, "al") as f64, &mut count, |f: &mut Vector, x, y: &Vector, k: &mut i64| {
                        *k += 1;
                        for i in 0..n {
                            // every component is a product of the factors of its variables, times x
                            f[i] = (0..n).map(|j| poly(&c[i][j], y[j])).sum::<f64>() * x + if n > 1 { y[0] * y[1] * (i as f64 + 1.0) } else { 0.0 };
                        }
                        if *k == fail { Err("stop") } else { Ok(()) }
                    })
                },
                |j| json!({"j":(0..n).map(|r| (0..n).map(|s| sc(j.get(r, s), 1e6)).collect::<Vec<_>>()).collect::<Vec<_>>()}),
            )
            .merge(json!({"n":n,"k":count}))
        }
        "sjac" => {
            use russell_sparse::{CooMatrix, Sym, numerical_jacobian};
            let n = getu(op, "n");
            let c: Vec<Vec<Vec<f64>>> = geta(op, "c").iter().map(|r| r.as_array().unwrap().iter().map(|v| v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f64).collect()).collect()).collect();
            let fail = geti(op, "fail");
            let sym = [Sym::No, Sym::YesFull, Sym::YesLower, Sym::YesUpper][getu(op, "sym")];
            // sizes of the matrix and of the vectors relative to what is needed
            let d: Vec<i64> = geta(op, "d").iter().map(|x| x.as_i64().unwrap()).collect();
            let need = if geti(op, "sym") > 1 { (n + n * n) / 2 } else { n * n } as i64;
            let at = |k: i64| (n as i64 + k) as usize;
            let mut jj = match CooMatrix::new(at(d[0]), at(d[1]), (need + d[2]).max(1) as usize, sym) {
                Ok(m) => m,
                Err(_) => return json!({"st":"none"}),
            };
            if geti(op, "used") == 1 {
                let _ = jj.put(0, 0, 77.0);
            }
            let full: Vec<f64> = (0..at(d[3]).max(n)).map(|k| geta(op, "y").get(k).map_or(5.0, |v| v.as_i64().unwrap() as f64)).collect();
            let mut y = Vector::from(&full[..at(d[3])].to_vec());
            let before = y.as_data().to_vec();
            let (mut w1, mut w2) = (Vector::new(at(d[4])), Vector::new(at(d[5])));
            let mut count = 0;
            let o = obs(
                || {
                    numerical_jacobian(&mut jj, n, geti(op, "al") as f64, geti(op, "x") as f64, &mut y, &mut w1, &mut w2, &mut count, |f: &mut Vector, x, y: &Vector, k: &mut i64| {
                        *k += 1;
                        for i in 0..n {
                            f[i] = (0..n).map(|j| poly(&c[i][j], y[j])).sum::<f64>() * x + if n > 1 { y[0] * y[1] * (i as f64 + 1.0) } else { 0.0 };
                        }
                        if *k == fail { Err("stop") } else { Ok(()) }
                    })
                },
                |_| json!({}),
            );
            let nnz = jj.get_nnz();
            let t: Vec<Value> = (0..nnz).map(|p| json!([jj.get_row_indices()[p], jj.get_col_indices()[p], sc(jj.get_values()[p], 1e3)])).collect();
            o.merge(json!({"k":count,"kept":(before == *y.as_data()) as i64,"t":t}))
        }
        "deriv" => {
            let c = getf(op, "c");
            let x = geti(op, "x") as f64 / 4.0;
            let fail = geti(op, "fail");
            let mut count = 0;
            let mut f = |x: f64, k: &mut i64| {
                *k += 1;
                if *k == fail { Err("stop") } else { Ok(poly(&c, x)) }
            };
            let k = &mut count;
            let o = match gets(op, "w") {
                "c1" => obs(|| deriv1_central5(x, k, &mut f), |d| json!({"d":sc(d, 1e5)})),
                "f1" => obs(|| deriv1_forward7(x, k, &mut f), |d| json!({"d":sc(d, 1e5)})),
                "b1" => obs(|| deriv1_backward7(x, k, &mut f), |d| json!({"d":sc(d, 1e5)})),
                "c2" => obs(|| deriv2_central9(x, k, &mut f), |d| json!({"d":sc(d, 1e4)})),
                "f2" => obs(|| deriv2_forward8(x, k, &mut f), |d| json!({"d":sc(d, 1e4)})),
                _ => obs(|| deriv2_backward8(x, k, &mut f), |d| json!({"d":sc(d, 1e4)})),
            };
            o.merge(json!({"k":count}))
        }
        "same" => {
            // comparison of a claimed derivative
            let c = getf(op, "c");
            let x = geti(op, "x") as f64 / 4.0;
            let d = special(&op["d"]);
            let tol = geti(op, "tol") as f64 / 4.0;
            let f = |x: f64, _: &mut i64| Ok(poly(&c, x));
            let k = &mut 0;
            obs(
                || {
                    match gets(op, "w") {
                        "c1" => deriv1_approx_eq(d, x, k, tol, f),
                        "f1" => deriv1_approx_eq_fw(d, x, k, tol, f),
                        "b1" => deriv1_approx_eq_bw(d, x, k, tol, f),
                        "c2" => deriv2_approx_eq(d, x, k, tol, f),
                        "f2" => deriv2_approx_eq_fw(d, x, k, tol, f),
                        _ => deriv2_approx_eq_bw(d, x, k, tol, f),
                    }
                    Ok(())
                },
                |_| json!({}),
            )
        }
        "cmp" => {
            let u: Vec<f64> = geta(op, "u").iter().map(special).collect();
            let v: Vec<f64> = geta(op, "v").iter().map(special).collect();
            let tol = geti(op, "tol") as f64 / 4.0;
            let cx = |a: &[f64]| -> Vec<Complex64> { a.chunks(2).map(|p| Complex64::new(p[0], p[1])).collect() };
            obs(
                || {
                    match gets(op, "w") {
                        "one" => approx_eq(u[0], v[0], tol),
                        "array" => array_approx_eq(&u, &v, tol),
                        "alike" => assert_alike(u[0], v[0]),
                        "cone" => complex_approx_eq(cx(&u)[0], cx(&v)[0], tol),
                        _ => complex_array_approx_eq(&cx(&u), &cx(&v), tol),
                    }
                    Ok(())
                },
                |_| json!({}),
            )
        }
        f => panic!("harness: unknown function {f}"),
    }
}

pub fn exec(ops: &[Value], log: &mut Log) {
    log.ev(&ops[0], json!({}));
    let mut ns = None;
    for op in &ops[1..] {
        let o = run(op, &mut ns);
        log.ev(op, o);
    }
}

pub fn random(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e":"reset","prop":"L06"})];
    let dim = rng.int(1, 3);
    for _ in 0..rng.int(1, 4) {
        let f = *rng.pick(&["newton", "newton", "newton", "line", "line", "jac", "sjac", "deriv", "deriv", "same", "cmp"]);
        let mut op = json!({"e":"op","f":f,"fail":0});
        if rng.chance(1, 8) {
            op["fail"] = json!(rng.int(1, 9));
        }
        match f {
            "newton" => {
                let n = if rng.chance(1, 30) { dim + 1 } else { dim };
                let quad = rng.chance(2, 3);
                let rows = |rng: &mut Rng, w: i64| -> Vec<Vec<i64>> { (0..n).map(|_| rng.ints(n as usize, -w, w)).collect() };
                op["n"] = json!(n);
                op["dim"] = json!(if rng.chance(1, 60) { 0 } else { dim });
                op["a"] = json!(rows(rng, 4));
                op["b"] = json!(rows(rng, if quad { 2 } else { 0 }));
                op["c"] = json!(rng.ints(n as usize, -6, 6));
                op["x0"] = json!(rng.ints(n as usize, -5, 5));
                op["max"] = json!(*rng.pick(&[20, 20, 20, 50, 3, 1, 0, 2]));
                op["tol"] = json!(*rng.pick(&[10, 10, 8, 6, 3, 13, 16]));
                op["div"] = json!(*rng.pick(&[1000000, 1000000, 10, 1, 0, 2]));
                op["ls"] = json!(rng.int(0, 1));
                op["al"] = json!(*rng.pick(&[4, 4, 4, 2, 8, 0, 1]));
                op["nan"] = json!(if rng.chance(1, 10) { rng.int(1, 4) } else { 0 });
                op["stats"] = json!(rng.int(0, 2).min(1));
                op["fresh"] = json!(rng.int(0, 1));
            }
            "line" => {
                let c = rng.ints(3, -6, 6);
                let (x, p) = (rng.int(-4, 4), rng.int(-4, 4));
                let honest = rng.chance(2, 3);
                op["c"] = json!(c);
                op["x"] = json!(x);
                op["p"] = json!(p);
                op["fx"] = json!(if honest { c[0] + c[1] * x + c[2] * x * x } else { rng.int(-20, 20) });
                op["slope"] = json!(if honest { p * (c[1] + 2 * c[2] * x) } else { rng.int(-30, 3) });
                op["way"] = json!(*rng.pick(&[0, 0, 0, 1, 2]));
                op["c1"] = json!(*rng.pick(&[1, 4, 8, 12, 15, 0, 16]));
                op["rho"] = json!(*rng.pick(&[1, 2, 2, 2, 0, 4]));
                op["mina"] = json!(*rng.pick(&[1, 2, 4, 16, 64, 128, 0, 256]));
                op["max"] = json!(*rng.pick(&[8, 8, 5, 3, 2, 1, 0]));
            }
            "jac" | "sjac" => {
                if f == "sjac" {
                    let mut d = vec![0; 6];
                    for x in d.iter_mut() {
                        *x = if rng.chance(1, 6) { rng.int(0, 2) } else if rng.chance(1, 30) { -1 } else { 0 };
                    }
                    op["d"] = json!(d);
                    op["sym"] = json!(rng.int(0, 3));
                    op["used"] = json!(rng.int(0, 1));
                }
                let n = rng.us(1, 3);
                let c: Vec<Vec<Vec<i64>>> = (0..n).map(|_| (0..n).map(|_| rng.ints(4, -5, 5)).collect()).collect();
                op["n"] = json!(n);
                op["c"] = json!(c);
                op["y"] = json!(rng.ints(n, -3, 3));
                op["x"] = json!(rng.int(-2, 3));
                op["al"] = json!(rng.int(-2, 3));
            }
            "deriv" | "same" => {
                let deg = rng.us(0, 4);
                op["c"] = json!(rng.ints(deg + 1, -9, 9));
                op["x"] = json!(rng.int(-8, 8));
                op["w"] = json!(*rng.pick(&["c1", "f1", "b1", "c2", "f2", "b2"]));
                if f == "same" {
                    op["c"] = json!(rng.ints(rng.clone().us(1, 3), -9, 9));
                    op["x"] = json!(rng.int(-2, 2) * 4);
                    let c = getf(&op, "c");
                    let x = geti(&op, "x") as f64 / 4.0;
                    let g = |k: usize| c.get(k).copied().unwrap_or(0.0);
                    let d = if gets(&op, "w").ends_with('1') { g(1) + 2.0 * g(2) * x } else { 2.0 * g(2) };
                    op["d"] = json!(if rng.chance(1, 8) { *rng.pick(&[900001, 900002, 900003]) } else { (d * 4.0) as i64 + rng.int(-3, 3) });
                    op["tol"] = json!(rng.int(0, 3));
                }
            }
            _ => {
                let w = *rng.pick(&["one", "array", "alike", "cone", "carray"]);
                let n = match w {
                    "one" | "alike" => 1,
                    "cone" => 2,
                    "carray" => 2 * rng.us(0, 3),
                    _ => rng.us(0, 4),
                };
                let u: Vec<i64> = rng.ints(n, -8, 8);
                let mut v: Vec<i64> = u.iter().map(|x| x + if rng.chance(1, 2) { rng.int(-3, 3) } else { 0 }).collect();
                let mut u = u;
                if n > 0 && rng.chance(1, 3) {
                    let k = rng.us(0, n - 1);
                    let s = *rng.pick(&[900001, 900002, 900003, 900004]);
                    match rng.int(0, 2) {
                        0 => u[k] = s,
                        1 => v[k] = s,
                        _ => {
                            u[k] = s;
                            v[k] = if rng.chance(1, 3) { 0 } else { s }
                        }
                    }
                }
                if (w == "array" || w == "carray") && rng.chance(1, 8) {
                    let more = if w == "array" { 1 } else { 2 };
                    for _ in 0..more {
                        v.push(0);
                    }
                }
                op["w"] = json!(w);
                op["u"] = json!(u);
                op["v"] = json!(v);
                op["tol"] = json!(rng.int(0, 3));
            }
        }
        ops.push(op);
    }
    ops
}
