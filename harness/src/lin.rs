use crate::sparse::{sym_of, Num2};
use crate::util::*;
use russell_lab::*;
use russell_sparse::prelude::*;
use russell_sparse::*;
use serde_json::{json, Value};

const S: f64 = 1e6;

fn coo_of<T: Num2>(m: &Value) -> NumCooMatrix<T> {
    let t = geta(m, "trip");
    let mut a = NumCooMatrix::<T>::new(getu(m, "nrow"), getu(m, "ncol"), t.len().max(1), sym_of(gets(m, "sym"))).unwrap();
    for x in t {
        a.put(x[0].as_u64().unwrap() as usize, x[1].as_u64().unwrap() as usize, T::of(&x[2])).unwrap();
    }
    a
}
pub fn params_of(p: &Value) -> Option<LinSolParams> {
    if !p["given"].as_bool().unwrap() {
        return None;
    }
    let mut q = LinSolParams::new();
    q.ordering = russell_sparse::Ordering::from(gets(p, "ord"));
    q.scaling = Scaling::from(gets(p, "sca"));
    q.compute_determinant = p["det"].as_bool().unwrap();
    q.umfpack_enforce_unsymmetric_strategy = p["uns"].as_bool().unwrap();
    Some(q)
}
fn cvec(b: &[Value]) -> ComplexVector {
    ComplexVector::initialized(b.len(), |i| Complex64::of(&b[i]))
}
fn rvec(b: &[Value]) -> Vector {
    Vector::initialized(b.len(), |i| f64::of(&b[i]))
}
/// solution scaled by a power of ten such that sums of products stay in the integer range of the spec
fn xs(x: &[(f64, f64)]) -> Value {
    let big = x.iter().fold(0.0, |a: f64, z| a.max(z.0.abs()).max(z.1.abs()));
    let mut s = S;
    while s > 1.0 && big * s > 2e7 {
        s /= 10.0;
    }
    json!({"S": s as i64, "x": x.iter().map(|z| json!([sc(z.0, s), sc(z.1, s)])).collect::<Vec<_>>()})
}
fn xs_c(x: &ComplexVector) -> Value {
    xs(&x.as_data().iter().map(|z| (z.re, z.im)).collect::<Vec<_>>())
}
fn xs_r(x: &Vector) -> Value {
    xs(&x.as_data().iter().map(|z| (*z, 0.0)).collect::<Vec<_>>())
}
fn genie(s: &str) -> Genie {
    Genie::from(s)
}
fn ver(v: VerifyLinSys) -> Value {
    let rel = v.max_abs_diff / (v.max_abs_a + 1.0);
    json!({"a2":sc(v.max_abs_a * v.max_abs_a,1e3),"ax2":sc(v.max_abs_ax * v.max_abs_ax,1e3),"d2":sc(v.max_abs_diff * v.max_abs_diff,1e3),"relok": (v.relative_error - rel).abs() <= 1e-14 * (1.0 + rel)})
}
fn det(st: &StatsLinSol) -> Value {
    let d = &st.determinant;
    let f = f64::powf(d.base, d.exponent);
    json!({"det":[sc(d.mantissa_real * f, 10.0), sc(d.mantissa_imag * f, 10.0)], "st":"ok"})
}

pub fn exec(ops: &[Value], log: &mut Log) {
    let cx = geti(&ops[0], "cx") == 1;
    log.ev(&json!({"e":"reset"}), ops[0].clone());
    let mut rs = LinSolver::new(Genie::Umfpack).unwrap();
    let mut cs = ComplexLinSolver::new(Genie::Umfpack).unwrap();
    for op in &ops[1..] {
        let o = match gets(op, "e") {
            "fact" => {
                let p = params_of(&op["p"]);
                if cx {
                    let m = coo_of::<Complex64>(&op["m"]);
                    obs(|| cs.actual.factorize(&m, p), |_| json!({}))
                } else {
                    let m = coo_of::<f64>(&op["m"]);
                    obs(|| rs.actual.factorize(&m, p), |_| json!({}))
                }
            }
            "solve" => {
                let n = getu(op, "dx");
                if cx {
                    let mut x = ComplexVector::initialized(n, |_| Complex64::new(7.0, 7.0));
                    let b = cvec(geta(op, "b"));
                    obs(|| cs.actual.solve(&mut x, &b, false), |_| json!({})).merge(xs_c(&x))
                } else {
                    let mut x = Vector::filled(n, 7.0);
                    let b = rvec(geta(op, "b"));
                    obs(|| rs.actual.solve(&mut x, &b, false), |_| json!({})).merge(xs_r(&x))
                }
            }
            "compute" => {
                let n = getu(op, "dx");
                let p = params_of(&op["p"]);
                if cx {
                    let mut x = ComplexVector::initialized(n, |_| Complex64::new(7.0, 7.0));
                    let (b, m) = (cvec(geta(op, "b")), coo_of::<Complex64>(&op["m"]));
                    obs(|| ComplexLinSolver::compute(Genie::Umfpack, &mut x, &m, &b, p), |_| json!({})).merge(xs_c(&x))
                } else {
                    let mut x = Vector::filled(n, 7.0);
                    let (b, m) = (rvec(geta(op, "b")), coo_of::<f64>(&op["m"]));
                    obs(|| LinSolver::compute(Genie::Umfpack, &mut x, &m, &b, p), |_| json!({})).merge(xs_r(&x))
                }
            }
            "verify" => {
                if cx {
                    let m = coo_of::<Complex64>(&op["m"]);
                    obs(|| VerifyLinSys::from_complex(&m, &cvec(geta(op, "x")), &cvec(geta(op, "b"))), ver)
                } else {
                    let m = coo_of::<f64>(&op["m"]);
                    obs(|| VerifyLinSys::from(&m, &rvec(geta(op, "x")), &rvec(geta(op, "b"))), ver)
                }
            }
            "det" => {
                let mut st = StatsLinSol::new();
                if cx {
                    cs.actual.update_stats(&mut st);
                } else {
                    rs.actual.update_stats(&mut st);
                }
                det(&st)
            }
            "genie" => {
                let g = genie(gets(op, "g"));
                if cx {
                    obs(|| ComplexLinSolver::new(g), |_| json!({}))
                } else {
                    obs(|| LinSolver::new(g), |_| json!({}))
                }
            }
            _ => panic!("harness: unknown op"),
        };
        log.ev(op, o);
    }
}

/// matrix, its integer right-hand side for a small integer solution
fn rand_mat(rng: &mut Rng, cx: bool, n: usize, sym: &str, kind: usize) -> Vec<(usize, usize, i64, i64)> {
    let mut t: Vec<(usize, usize, i64, i64)> = Vec::new();
    let val = |rng: &mut Rng| (rng.int(-3, 3), if cx { rng.int(-3, 3) } else { 0 });
    match kind {
        // dense-ish small
        0 => {
            for i in 0..n {
                for j in 0..n {
                    if sym == "full" && j < i {
                        continue;
                    }
                    if i == j || rng.chance(2, 3) {
                        let (a, b) = val(rng);
                        t.push((i, j, a, b));
                        if sym == "full" && i != j {
                            t.push((j, i, a, b));
                        }
                    }
                }
            }
        }
        // diagonally dominant sparse
        _ => {
            let mut row = vec![0i64; n];
            for i in 0..n {
                for j in i + 1..n {
                    if rng.chance(3, n as u64 + 2) {
                        let (a, b) = val(rng);
                        t.push((i, j, a, b));
                        row[i] += a.abs() + b.abs();
                        let (c, d) = if sym == "full" { (a, b) } else { val(rng) };
                        t.push((j, i, c, d));
                        row[j] += c.abs() + d.abs();
                    }
                }
            }
            for i in 0..n {
                let d = row[i] + rng.int(1, 3);
                let s = if rng.chance(1, 4) { -1 } else { 1 };
                // sometimes split the diagonal into duplicates
                if rng.chance(1, 3) {
                    t.push((i, i, s * d + 2, 0));
                    t.push((i, i, -2, if cx { 1 } else { 0 }));
                } else {
                    t.push((i, i, s * d, 0));
                }
            }
        }
    }
    for k in (1..t.len()).rev() {
        let p = rng.us(0, k);
        t.swap(k, p);
    }
    t
}
fn trip(t: &[(usize, usize, i64, i64)]) -> Value {
    Value::Array(t.iter().map(|x| json!([x.0, x.1, [x.2, x.3]])).collect())
}
fn rhs_of(t: &[(usize, usize, i64, i64)], x: &[(i64, i64)], n: usize) -> Value {
    let mut b = vec![(0i64, 0i64); n];
    for e in t {
        let z = x[e.1];
        b[e.0].0 += e.2 * z.0 - e.3 * z.1;
        b[e.0].1 += e.2 * z.1 + e.3 * z.0;
    }
    Value::Array(b.iter().map(|z| json!([z.0, z.1])).collect())
}
fn rand_x(rng: &mut Rng, cx: bool, n: usize) -> Vec<(i64, i64)> {
    (0..n).map(|_| (rng.int(-5, 5), if cx { rng.int(-5, 5) } else { 0 })).collect()
}
fn rand_p(rng: &mut Rng) -> Value {
    let ord = *rng.pick(&["amd", "amf", "auto", "best", "cholmod", "colamd", "metis", "no", "pord", "qamd", "scotch"]);
    let sca = *rng.pick(&["auto", "column", "diagonal", "max", "no", "rowcol", "rowcoliter", "sum"]);
    json!({"given":rng.chance(1,2),"det":rng.chance(1,2),"ord":ord,"sca":sca,"uns":rng.chance(1,3)})
}
fn nopar() -> Value {
    json!({"given":false,"det":false,"ord":"auto","sca":"auto","uns":false})
}

pub fn random(rng: &mut Rng, thorough: bool) -> Vec<Value> {
    let cx = rng.chance(1, 2);
    let mut ops = vec![json!({"cx": cx as i64})];
    let big = rng.chance(1, 4);
    let n = if big { rng.us(6, if thorough { 24 } else { 14 }) } else { rng.us(1, 5) };
    let sym = *rng.pick(&["no", "no", "full"]);
    let kind = if big { 1 } else { rng.us(0, 2) };
    let mut t = rand_mat(rng, cx, n, sym, kind);
    let mut cur: Option<Vec<(usize, usize, i64, i64)>> = None;
    let len = rng.us(3, 9);
    for k in 0..len {
        match rng.us(0, 9) {
            0..=3 => {
                // factorize: same structure with new values, or something incompatible
                let what = if k == 0 { rng.us(0, 6) } else { rng.us(0, 9) };
                let mut tt = t.clone();
                let mut nn = n;
                let mut nc = n;
                let mut ss = sym.to_string();
                if cur.is_some() || k > 0 {
                    // new values on the same structure
                    let f = rng.int(1, 3) * if rng.chance(1, 3) { -1 } else { 1 };
                    for e in tt.iter_mut() {
                        e.2 *= f;
                        e.3 *= f;
                    }
                    if kind != 0 && sym == "no" {
                        for e in tt.iter_mut() {
                            if e.0 != e.1 && rng.chance(1, 3) {
                                e.2 = -e.2;
                            }
                        }
                    }
                }
                match what {
                    6 if k > 0 => ss = (*rng.pick(&["no", "full", "lower", "upper"])).to_string(),
                    7 => {
                        tt.pop();
                    }
                    8 => {
                        if rng.chance(1, 2) {
                            nn += 1;
                        }
                        nc += 1;
                    }
                    9 => {
                        let z = rng.us(0, n - 1);
                        for e in tt.iter_mut() {
                            if e.0 == z {
                                e.2 = 0;
                                e.3 = 0;
                            }
                        }
                    }
                    _ => (),
                }
                if ss == "lower" || ss == "upper" {
                    tt.retain(|e| if ss == "lower" { e.1 <= e.0 } else { e.1 >= e.0 });
                }
                if nn != nc && ss != "no" {
                    nn = nc;
                }
                if ss == "full" && sym == "no" {
                    ss = "no".to_string();
                }
                for p in (1..tt.len()).rev() {
                    let q = rng.us(0, p);
                    tt.swap(p, q);
                }
                let p = if k == 0 || rng.chance(1, 8) { rand_p(rng) } else { nopar() };
                ops.push(json!({"e":"fact","m":{"nrow":nn,"ncol":nc,"sym":ss,"trip":trip(&tt)},"p":p}));
                if what < 6 {
                    cur = Some(tt);
                }
                if rng.chance(1, 20) {
                    t = rand_mat(rng, cx, n, sym, kind);
                }
            }
            4..=6 => {
                let base = cur.clone().unwrap_or(t.clone());
                let x = rand_x(rng, cx, n);
                let nx = if rng.chance(1, 12) { n + 1 } else { n };
                let mut b = rhs_of(&base, &x, n);
                if rng.chance(1, 12) {
                    b.as_array_mut().unwrap().pop();
                } else if rng.chance(1, 12) {
                    b.as_array_mut().unwrap().push(json!([1, 0]));
                }
                ops.push(json!({"e":"solve","dx":nx,"b":b}));
                ops.push(json!({"e":"det"}));
            }
            7 => {
                let m = rand_mat(rng, cx, n, sym, kind);
                let x = rand_x(rng, cx, n);
                let nx = if rng.chance(1, 12) { n + 1 } else { n };
                let mut b = json!(rhs_of(&m, &x, n));
                if rng.chance(1, 12) {
                    b.as_array_mut().unwrap().push(json!([1, 0]));
                }
                ops.push(json!({"e":"compute","m":{"nrow":n,"ncol":n,"sym":sym,"trip":trip(&m)},"dx":nx,"b":b,"p":rand_p(rng)}));
            }
            8 => {
                let m = rand_mat(rng, cx, n, sym, kind);
                let nx = if rng.chance(1, 12) { n + 1 } else { n };
                let nb = if rng.chance(1, 12) { n + 1 } else { n };
                let x: Vec<Value> = rand_x(rng, cx, nx).iter().map(|z| json!([z.0, z.1])).collect();
                let b: Vec<Value> = rand_x(rng, cx, nb).iter().map(|z| json!([z.0, z.1])).collect();
                let mut m = m;
                let mut ss = sym;
                if rng.chance(1, 2) {
                    ss = *rng.pick(&["lower", "upper"]);
                    m.retain(|e| if ss == "lower" { e.1 <= e.0 } else { e.1 >= e.0 });
                }
                ops.push(json!({"e":"verify","m":{"nrow":n,"ncol":n,"sym":ss,"trip":trip(&m)},"x":x,"b":b}));
            }
            _ => {
                let g = *rng.pick(&["umfpack", "mumps", "cudss"]);
                ops.push(json!({"e":"genie","g":g}));
            }
        }
    }
    ops
}
