//! Tensors: representations, operations, invariants, elasticity and derivatives
use crate::util::*;
use russell_lab::{Matrix, Vector};
use russell_tensor::*;
use serde_json::{Value, json};

pub fn gd(f: impl FnOnce() -> Value) -> Value {
    match guarded(f) {
        Ok(mut v) => { if !has(&v, "st") { v["st"] = json!("ok"); } v }
        Err(m) => json!({"st": "panic", "msg": m}),
    }
}
/// nearest integer of a scaled value if it is one up to rounding errors
pub fn ni(x: f64, scale: f64) -> i64 {
    let y = x * scale;
    if !y.is_finite() { return 2_000_000_001; }
    let r = y.round();
    if r.abs() > 1e9 { return 2_000_000_000; }
    if (y - r).abs() > 1e-8 * f64::max(1.0, y.abs()) { return 1_999_999_999; }
    r as i64
}
pub fn nis(v: &[f64], scale: f64) -> Value {
    Value::Array(v.iter().map(|x| json!(ni(*x, scale))).collect())
}
/// order of the components in vectors and matrices
pub const PAIR: [(usize, usize); 9] = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2), (1, 0), (2, 1), (2, 0)];
pub fn rep(k: i64) -> Rep {
    match k { 0 => Rep::General, 1 => Rep::Symmetric, _ => Rep::Symmetric2D }
}
fn rep_id(r: Rep) -> i64 {
    match r { Rep::General => 0, Rep::Symmetric => 1, Rep::Symmetric2D => 2 }
}
fn wt(m: usize) -> f64 {
    if m < 3 { 1.0 } else { f64::sqrt(2.0) }
}
fn mat3(x: &[f64]) -> [[f64; 3]; 3] {
    let mut m = [[0.0; 3]; 3];
    for i in 0..3 { for j in 0..3 { m[i][j] = x[3 * i + j]; } }
    m
}
fn arr3(x: &[f64]) -> [[[f64; 3]; 3]; 3] {
    let mut m = [[[0.0; 3]; 3]; 3];
    for i in 0..3 { for j in 0..3 { for k in 0..3 { m[i][j][k] = x[9 * i + 3 * j + k]; } } }
    m
}
fn arr4(x: &[f64]) -> [[[[f64; 3]; 3]; 3]; 3] {
    let mut m = [[[[0.0; 3]; 3]; 3]; 3];
    for i in 0..3 { for j in 0..3 { for k in 0..3 { for l in 0..3 { m[i][j][k][l] = x[27 * i + 9 * j + 3 * k + l]; } } } }
    m
}
/// matrix with the pair (ij) ordered as in vectors
fn smat(x: &[f64], np: usize, nq: usize) -> Matrix {
    let row = |m: usize, n: usize| if n == 9 { let (i, j) = PAIR[m]; 3 * i + j } else { m };
    let mut a = Matrix::new(np, nq);
    for m in 0..np { for n in 0..nq { a.set(m, n, x[row(m, np) * nq + row(n, nq)]); } }
    a
}
pub fn t2(k: i64, x: &[f64]) -> Tensor2 {
    Tensor2::from_std_matrix(&mat3(x), rep(k)).expect("harness: second-order tensor")
}
pub fn t3(k: i64, ca: bool, x: &[f64]) -> Tensor3 {
    Tensor3::from_std_array(&arr3(x), rep(k), ca).expect("harness: third-order tensor")
}
pub fn t4(k: i64, x: &[f64]) -> Tensor4 {
    Tensor4::from_std_array(&arr4(x), rep(k)).expect("harness: fourth-order tensor")
}
pub fn std2(t: &Tensor2) -> Vec<f64> {
    (0..9).map(|p| t.get_std(p / 3, p % 3)).collect()
}
pub fn std3(t: &Tensor3) -> Vec<f64> {
    (0..27).map(|p| t.get_std(p / 9, (p / 3) % 3, p % 3)).collect()
}
pub fn std4(t: &Tensor4) -> Vec<f64> {
    (0..81).map(|p| t.get_std(p / 27, (p / 9) % 3, (p / 3) % 3, p % 3)).collect()
}
pub fn std1(t: &Tensor1) -> Vec<f64> {
    (0..3).map(|i| t.get(i)).collect()
}

enum Ten { T2(Tensor2), T3(Tensor3), T4(Tensor4) }

fn view(t: &Ten) -> Value {
    const S: f64 = 4.0;
    let flat = |m: &Matrix| { let (r, c) = m.dims(); let v: Vec<f64> = (0..r * c).map(|p| m.get(p / c, p % c)).collect(); nis(&v, S) };
    match t {
        Ten::T2(t) => {
            let mut junk = Matrix::filled(3, 3, 77.5);
            t.to_std_matrix(&mut junk);
            let k: Vec<f64> = (0..t.dim()).map(|m| t.get(m) * wt(m)).collect();
            let h = if t.rep() == Rep::Symmetric2D {
                let (z, m) = t.as_std_matrix_2d();
                nis(&[z, m.get(0, 0), m.get(0, 1), m.get(1, 0), m.get(1, 1)], S)
            } else {
                json!([])
            };
            let a = std2(t);
            json!({"rp": rep_id(t.rep()), "dm": [t.dim(), 1], "a": nis(&a, S), "b": flat(&t.as_std_matrix()), "c": flat(&junk), "d": [], "g": [], "k": nis(&k, S), "h": h})
        }
        Ten::T3(t) => {
            let (r, c) = t.dims();
            let mut junk = if t.is_case_a() { Matrix::filled(9, 3, 77.5) } else { Matrix::filled(3, 9, 77.5) };
            t.to_std_matrix(&mut junk);
            let mut ja = vec![vec![vec![77.5; 3]; 3]; 3];
            t.to_std_array(&mut ja);
            let d: Vec<f64> = t.as_std_array().into_iter().flatten().flatten().collect();
            let g: Vec<f64> = ja.into_iter().flatten().flatten().collect();
            let k: Vec<f64> = (0..r * c).map(|p| t.get(p / c, p % c) * if t.is_case_a() { wt(p / c) } else { wt(p % c) }).collect();
            json!({"rp": rep_id(t.rep()), "dm": [r, c], "a": nis(&std3(t), S), "b": flat(&t.as_std_matrix()), "c": flat(&junk), "d": nis(&d, S), "g": nis(&g, S), "k": nis(&k, S), "h": []})
        }
        Ten::T4(t) => {
            let c = t.dim();
            let mut junk = Matrix::filled(9, 9, 77.5);
            t.to_std_matrix(&mut junk);
            let mut ja = vec![vec![vec![vec![77.5; 3]; 3]; 3]; 3];
            t.to_std_array(&mut ja);
            let d: Vec<f64> = t.as_std_array().into_iter().flatten().flatten().flatten().collect();
            let g: Vec<f64> = ja.into_iter().flatten().flatten().flatten().collect();
            let k: Vec<f64> = (0..c * c).map(|p| t.get(p / c, p % c) * wt(p / c) * wt(p % c)).collect();
            json!({"rp": rep_id(t.rep()), "dm": [c, c], "a": nis(&std4(t), S), "b": flat(&t.as_std_matrix()), "c": flat(&junk), "d": nis(&d, S), "g": nis(&g, S), "k": nis(&k, S), "h": []})
        }
    }
}

fn step(cur: &mut Ten, r: i64, op: &Value) -> Value {
    let al = || geti(op, "al") as f64;
    let err = |m: &'static str| json!({"st": "err", "msg": m});
    match gets(op, "f") {
        "std" => {
            let x = getf(op, "x");
            let via = geti(op, "via");
            let res = match cur {
                Ten::T2(t) => match via {
                    0 => t.set_std_matrix(&mat3(&x)),
                    1 => t.set_std_matrix(&smat3(&x)),
                    _ => Tensor2::from_std_matrix(&mat3(&x), t.rep()).map(|n| *t = n),
                },
                Ten::T3(t) => {
                    let (np, nq) = if t.is_case_a() { (9, 3) } else { (3, 9) };
                    match via {
                        0 => t.set_std_array(&arr3(&x)),
                        1 => t.set_std_matrix(&smat(&x, np, nq)),
                        2 => Tensor3::from_std_array(&arr3(&x), t.rep(), t.is_case_a()).map(|n| *t = n),
                        _ => Tensor3::from_std_matrix(&smat(&x, np, nq), t.rep(), t.is_case_a()).map(|n| *t = n),
                    }
                }
                Ten::T4(t) => match via {
                    0 => t.set_std_array(&arr4(&x)),
                    1 => t.set_std_matrix(&smat(&x, 9, 9)),
                    2 => Tensor4::from_std_array(&arr4(&x), t.rep()).map(|n| *t = n),
                    _ => Tensor4::from_std_matrix(&smat(&x, 9, 9), t.rep()).map(|n| *t = n),
                },
            };
            if let Err(m) = res { return err(m); }
        }
        "sym" => {
            let i = getus(op, "ix");
            let v = geti(op, "v") as f64;
            match cur {
                Ten::T2(t) => t.sym_set_std(i[0], i[1], v),
                Ten::T3(t) => t.sym_set_std(i[0], i[1], i[2], v),
                Ten::T4(t) => t.sym_set_std(i[0], i[1], i[2], i[3], v),
            }
        }
        "raw" => {
            let (m, n, v) = (getu(op, "m"), getu(op, "n"), geti(op, "v") as f64);
            match cur {
                Ten::T2(t) => t.set(m, v / wt(m)),
                Ten::T3(t) => { let w = if t.is_case_a() { wt(m) } else { wt(n) }; t.set(m, n, v / w) }
                Ten::T4(t) => t.set(m, n, v / (wt(m) * wt(n))),
            }
        }
        "add" => {
            let i = getus(op, "ix");
            if let Ten::T2(t) = cur { t.sym_add_std(i[0], i[1], al(), geti(op, "v") as f64) }
        }
        "upd" | "cpy" | "vec" => {
            let x = getf(op, "x");
            let q = geti(op, "q");
            let f = gets(op, "f");
            match cur {
                Ten::T2(t) => {
                    let o = t2(q, &x);
                    match f {
                        "upd" => t.update(al(), &o),
                        "cpy" => t.set_tensor(al(), &o),
                        _ => { let v: Vec<f64> = (0..o.dim()).map(|m| o.get(m)).collect(); t.set_vector(al(), &v) }
                    }
                }
                Ten::T3(t) => { let o = t3(q, t.is_case_a(), &x); if f == "upd" { t.update(al(), &o) } else { t.set_tensor(al(), &o) } }
                Ten::T4(t) => { let o = t4(q, &x); if f == "upd" { t.update(al(), &o) } else { t.set_tensor(al(), &o) } }
            }
        }
        "clr" => if let Ten::T2(t) = cur { t.clear() },
        "gen" => if let Ten::T2(t) = cur { *t = t.as_general() },
        "s2s" => if let Ten::T2(t) = cur { *t = t.sym2d_as_symmetric() },
        "cln" => match cur {
            Ten::T2(t) => { let n: Tensor2 = serde_json::from_str(&serde_json::to_string(&t.clone()).unwrap()).unwrap(); *t = n }
            Ten::T3(t) => { let n: Tensor3 = serde_json::from_str(&serde_json::to_string(&t.clone()).unwrap()).unwrap(); *t = n }
            Ten::T4(t) => { let n: Tensor4 = serde_json::from_str(&serde_json::to_string(&t.clone()).unwrap()).unwrap(); *t = n }
        },
        "new" => {
            let (k, ca, via) = (geti(op, "rp"), geti(op, "ca") == 1, geti(op, "via"));
            let two = k == 2;
            *cur = match r {
                2 => Ten::T2(match via {
                    0 => Tensor2::new(rep(k)),
                    1 => Tensor2::new_sym(two),
                    2 => Tensor2::new_sym_ndim(if two { 2 } else { 3 }),
                    3 => Tensor2::identity(rep(k)),
                    _ => Tensor2::new(Rep::new(rep(k).dim())),
                }),
                3 => Ten::T3(match via {
                    0 => Tensor3::new(rep(k), ca),
                    1 => Tensor3::new_sym(two, ca),
                    2 => Tensor3::new_sym_ndim(if two { 2 } else { 3 }, ca),
                    3 => Tensor3::constant_permutation(ca),
                    _ => Tensor3::new(Rep::new(rep(k).dim()), ca),
                }),
                _ => Ten::T4(match via {
                    0 => Tensor4::new(rep(k)),
                    1 => Tensor4::new_sym(two),
                    2 => Tensor4::new_sym_ndim(if two { 2 } else { 3 }),
                    _ => Tensor4::new(Rep::new(rep(k).dim())),
                }),
            };
        }
        o => panic!("harness: unknown operation {}", o),
    }
    json!({})
}
fn smat3(x: &[f64]) -> Matrix {
    let mut a = Matrix::new(3, 3);
    for p in 0..9 { a.set(p / 3, p % 3, x[p]); }
    a
}

/// components a storage form can hold
pub fn holdable(rng: &mut Rng, r: i64, k: i64, ca: bool, lo: i64, hi: i64, density: u64) -> Vec<i64> {
    let (np, nq) = match r { 2 => (9, 1), 3 if ca => (9, 3), 3 => (3, 9), _ => (9, 9) };
    let canon = |p: usize, n: usize| -> Option<usize> {
        if n != 9 || k == 0 { return Some(p); }
        let (i, j) = (p / 3, p % 3);
        let (i, j) = if i > j { (j, i) } else { (i, j) };
        if k == 2 && i != j && j == 2 { None } else { Some(3 * i + j) }
    };
    let mut x = vec![0; np * nq];
    for p in 0..np {
        for q in 0..nq {
            if canon(p, np) == Some(p) && canon(q, nq) == Some(q) {
                let hit = rng.chance(density, 4);
                x[p * nq + q] = if hit { rng.int(lo, hi) } else { 0 };
            }
        }
    }
    for p in 0..np {
        for q in 0..nq {
            x[p * nq + q] = match (canon(p, np), canon(q, nq)) { (Some(a), Some(b)) => x[a * nq + b], _ => 0 };
        }
    }
    x
}

fn run_rep(ops: &[Value], log: &mut Log) {
    let r = geti(&ops[0], "r");
    let mut cur = match r { 2 => Ten::T2(Tensor2::new(Rep::General)), 3 => Ten::T3(Tensor3::new(Rep::General, true)), _ => Ten::T4(Tensor4::new(Rep::General)) };
    log.ev(&ops[0], json!({}));
    for op in &ops[1..] {
        let o = gd(|| {
            let mut o = step(&mut cur, r, op);
            o["v1"] = view(&cur);
            o
        });
        let stop = gets(&o, "st") == "panic";
        log.ev(op, o);
        if stop { break; }
    }
}

pub fn exec(ops: &[Value], log: &mut Log) {
    match gets(&ops[0], "prop") {
        "T01" => run_rep(ops, log),
        "T03" => run_inv(ops, log),
        "T02" => {
            log.ev(&ops[0], json!({}));
            for op in &ops[1..] { log.ev(op, gd(|| oper(op))); }
        }
        p => panic!("harness: unknown property {}", p),
    }
}

pub fn random_a(rng: &mut Rng) -> Vec<Value> {
    let r = *rng.pick(&[2, 2, 2, 3, 3, 4]);
    let mut ca = rng.chance(1, 2);
    let mut k = rng.int(0, 2);
    let mut ops = vec![json!({"e": "reset", "prop": "T01", "r": r})];
    let via = rng.int(0, 4);
    let via = if (k == 0 && (via == 1 || via == 2)) || (r == 3 && via == 3 && k != 0) || (r == 4 && via == 3) { 0 } else { via };
    ops.push(json!({"e": "op", "f": "new", "rp": k, "ca": ca as i64, "via": via}));
    let n = if r == 4 { rng.us(1, 4) } else { rng.us(2, 9) };
    for _ in 0..n {
        let f = *rng.pick(&["std", "std", "std", "sym", "sym", "raw", "add", "upd", "cpy", "vec", "clr", "gen", "s2s", "cln", "new"]);
        let al = rng.int(-3, 3);
        let v = rng.int(-4, 4);
        let den = *rng.pick(&[1, 2, 4, 4]);
        if r != 2 && ["add", "vec", "clr", "gen", "s2s"].contains(&f) { continue; }
        if k == 0 && ["sym", "add"].contains(&f) && !rng.chance(1, 20) { continue; }
        if k != 2 && f == "s2s" && !rng.chance(1, 20) { continue; }
        match f {
            "std" => {
                let mut x = holdable(rng, r, k, ca, -4, 4, den);
                if rng.chance(1, 3) {
                    // one component changed: usually not holdable any more
                    let p = rng.us(0, x.len() - 1);
                    x[p] += *rng.pick(&[1, -1, 2]);
                }
                let via = rng.int(0, if r == 2 { 2 } else { 3 });
                ops.push(json!({"e": "op", "f": f, "x": x, "via": via}));
            }
            "sym" | "add" => {
                let mut ix = rng.ints(r as usize, 0, 2);
                if k == 2 {
                    let fix = |a: &mut [i64]| if a[0] != a[1] { if a[0] == 2 { a[0] = 1 - a[1] } else if a[1] == 2 { a[1] = 1 - a[0] } };
                    match r { 2 => fix(&mut ix), 3 => if ca { fix(&mut ix[0..2]) } else { fix(&mut ix[1..3]) }, _ => { fix(&mut ix[0..2]); fix(&mut ix[2..4]) } }
                }
                if f == "add" { ix.sort(); }
                ops.push(json!({"e": "op", "f": f, "ix": ix, "v": v, "al": al}));
            }
            "raw" => {
                let d = [9, 6, 4][k as usize];
                let (hm, hn) = match r { 2 => (d, 1), 3 if ca => (d, 3), 3 => (3, d), _ => (d, d) };
                let m = rng.us(0, hm - 1);
                let n = rng.us(0, hn - 1);
                ops.push(json!({"e": "op", "f": f, "m": m, "n": n, "v": v}));
            }
            "upd" | "cpy" | "vec" => {
                let q = if rng.chance(1, 15) { rng.int(0, 2) } else { k };
                let x = holdable(rng, r, q, ca, -4, 4, den);
                ops.push(json!({"e": "op", "f": f, "x": x, "al": al, "q": q}));
            }
            "new" => {
                if !rng.chance(1, 3) { continue; }
                k = rng.int(0, 2);
                ca = rng.chance(1, 2);
                ops.push(json!({"e": "op", "f": f, "rp": k, "ca": ca as i64, "via": 0}));
            }
            _ => {
                if f == "gen" { k = 0; }
                if f == "s2s" && k == 2 { k = 1; }
                ops.push(json!({"e": "op", "f": f}));
            }
        }
    }
    ops
}

fn n1(t: &Tensor1, s: f64) -> Value { nis(&std1(t), s) }
fn n2(t: &Tensor2, s: f64) -> Value { nis(&std2(t), s) }
fn n3(t: &Tensor3, s: f64) -> Value { nis(&std3(t), s) }
fn n4(t: &Tensor4, s: f64) -> Value { nis(&std4(t), s) }
fn table(m: &[[f64; 9]; 9]) -> Value {
    let v: Vec<f64> = (0..81).map(|p| m[p / 9][p % 9] * wt(p / 9) * wt(p % 9)).collect();
    nis(&v, 6.0)
}
/// components below are read from the stimulus: a, b second order; d, g fourth order; h, i third order; u, v vectors; z the old value of the result
fn oper(op: &Value) -> Value {
    let k = |n: &str| geti(op, n);
    let (al, be) = (|| geti(op, "al") as f64, || geti(op, "be") as f64);
    // the first tensor is given in units of a power of two
    let un = f64::powi(2.0, op.get("ks").map_or(0, |k| k.as_i64().unwrap() as i32));
    let a = || t2(k("ra"), &getf(op, "a").iter().map(|x| x * un).collect::<Vec<_>>());
    let b = || t2(k("rb"), &getf(op, "b"));
    let z2 = || t2(k("rc"), &getf(op, "z"));
    let z4 = || { let mut t = t4(k("rc"), &getf(op, "z")); t.use_loops = has(op, "lp") && k("lp") == 1; t };
    let d = || t4(k("rd"), &getf(op, "d"));
    let g = || t4(k("rg"), &getf(op, "g"));
    let u = || Tensor1::from(&getf(op, "u").as_slice());
    let v = || Tensor1::from(&getf(op, "v").as_slice());
    let r2 = |t: &Tensor2| json!({"o": n2(t, 1.0)});
    let r4 = |t: &Tensor4| json!({"o": n4(t, 1.0)});
    let r1 = |t: &Tensor1| json!({"o": n1(t, 1.0)});
    match gets(op, "f") {
        "add2" => { let mut c = z2(); t2_add(&mut c, al(), &a(), be(), &b()); r2(&c) }
        "add4" => { let mut c = z4(); t4_add(&mut c, al(), &d(), be(), &g()); r4(&c) }
        "add3" => {
            let ca = k("ca") == 1;
            let mut c = t3(k("rc"), ca, &getf(op, "z"));
            t3_add(&mut c, al(), &t3(k("rh"), ca, &getf(op, "h")), be(), &t3(k("ri"), ca, &getf(op, "i")));
            json!({"o": n3(&c, 1.0)})
        }
        "dd22" => json!({"o": [ni(t2_ddot_t2(&a(), &b()), 1.0)]}),
        "dot22" => { let mut c = z2(); t2_dot_t2(&mut c, &a(), &b()); r2(&c) }
        "dot21" => { let mut w = v(); t2_dot_t1(&mut w, al(), &a(), &u()); r1(&w) }
        "dot12" => { let mut w = v(); t1_dot_t2(&mut w, al(), &u(), &a()); r1(&w) }
        "dy11" => { let mut c = z2(); match t1_dyad_t1(&mut c, al(), &u(), &v()) { Ok(()) => r2(&c), Err(m) => json!({"st": "err", "msg": m}) } }
        "cross" => { let mut w = Tensor1::from(&[7.0, 8.0, 9.0]); u().cross(&mut w, &v()); json!({"o": n1(&w, 1.0), "n": n1(&Tensor1::new(), 1.0)}) }
        "dot11" => json!({"o": [ni(u().dot(&v()), 1.0)], "w": nis(u().as_vector().as_data(), 1.0)}),
        "dy22" => { let mut c = z4(); t2_dyad_t2(&mut c, al(), &a(), &b()); r4(&c) }
        "dy22u" => { let mut c = z4(); t2_dyad_t2_update(&mut c, al(), &a(), &b()); r4(&c) }
        "dd42" => { let mut c = z2(); t4_ddot_t2(&mut c, al(), &d(), &a()); r2(&c) }
        "dd42u" => { let mut c = z2(); t4_ddot_t2_update(&mut c, al(), &d(), &a(), be()); r2(&c) }
        "dd24" => { let mut c = z2(); t2_ddot_t4(&mut c, al(), &a(), &d()); r2(&c) }
        "dd242" => json!({"o": [ni(t2_ddot_t4_ddot_t2(&a(), &d(), &b()), 1.0)]}),
        "rank" => { let mut c = z4(); t4_ddot_t2_dyad_t2_ddot_t4(&mut c, al(), &d(), be(), &a(), &b()); r4(&c) }
        "dd44" => { let mut c = z4(); t4_ddot_t4(&mut c, al(), &d(), &g()); r4(&c) }
        "dd44u" => { let mut c = z4(); t4_ddot_t4_update(&mut c, al(), &d(), &g(), be()); r4(&c) }
        "od" => { let mut c = z4(); t2_odyad_t2(&mut c, al(), &a(), &b()); r4(&c) }
        "ud" => { let mut c = z4(); t2_udyad_t2(&mut c, al(), &a(), &b()); r4(&c) }
        "ssd" => { let mut c = z4(); t2_ssd(&mut c, al(), &a()); r4(&c) }
        "qsd" => { let mut c = z4(); t2_qsd_t2(&mut c, al(), &a(), &b()); r4(&c) }
        "h1" => { let mut c = z2(); t3_dot_t1(&mut c, al(), &t3(k("rh"), k("ca") == 1, &getf(op, "h")), &u()); r2(&c) }
        "h2" => { let mut w = v(); t3_ddot_t2(&mut w, al(), &t3(k("rh"), k("ca") == 1, &getf(op, "h")), &a()); r1(&w) }
        "own" => {
            // scalar functions, all exact multiples of the given fractions
            let t = a();
            let nr = t.norm() / un;
            let dn = t.deviator_norm() / un;
            let (u2, u3) = (un * un, un * un * un);
            let mut om = v();
            t.axial_vector(&mut om);
            let x = [ni(t.trace() / un, 1.0), ni(t.determinant() / u3, 1.0), ni(nr * nr, 1.0), ni(dn * dn, 3.0), ni(t.deviator_determinant() / u3, 27.0), ni(t.invariant_ii1() / un, 1.0),
                ni(t.invariant_ii2() / u2, 1.0), ni(t.invariant_ii3() / u3, 1.0), ni(t.invariant_jj2() / u2, 6.0), ni(t.invariant_jj3() / u3, 27.0)];
            json!({"o": x, "w": n1(&om, 2.0 / un), "neg": nr < 0.0 || dn < 0.0})
        }
        "tra" => { let mut c = z2(); a().transpose(&mut c); r2(&c) }
        "sq" => { let mut c = z2(); a().squared(&mut c); json!({"o": n2(&c, 1.0 / un / un)}) }
        "dev" => { let mut c = z2(); a().deviator(&mut c); json!({"o": n2(&c, 3.0 / un)}) }
        "dec" => { let mut c = z2(); let mut s = c.clone(); a().decompose(&mut s, &mut c); json!({"o": n2(&s, 2.0), "w": n2(&c, 2.0)}) }
        "inv" => {
            let mut c = z2();
            let u3 = un * un * un;
            match a().inverse(&mut c, 1e-10 * u3) {
                Some(det) => json!({"det": ni(det / u3, 1.0), "o": n2(&c, det / u3 * un)}),
                None => json!({"det": 0, "o": n2(&c, 1.0)}),
            }
        }
        "inv4" => {
            let mut c = z4();
            match d().calc_inverse(&mut c) {
                Ok(det) => json!({"sd": if det > 0.0 { 1 } else if det < 0.0 { -1 } else { 0 }, "o": std4(&c).iter().map(|x| sc(*x, 1e5)).collect::<Vec<_>>()}),
                Err(m) => json!({"st": "err", "msg": m}),
            }
        }
        "const" => {
            let red = k("red") == 1;
            let t = match gets(op, "c") {
                "ii" => Tensor4::constant_ii(),
                "tt" => Tensor4::constant_tt(),
                "jj" => Tensor4::constant_jj(red),
                "iso" => Tensor4::constant_pp_iso(red),
                "sym" => Tensor4::constant_pp_sym(red),
                "skew" => Tensor4::constant_pp_skew(),
                "dev" => Tensor4::constant_pp_dev(),
                _ => Tensor4::constant_pp_symdev(red),
            };
            let tab = match gets(op, "c") {
                "ii" => &IDENTITY4,
                "tt" => &TRANSPOSITION,
                "jj" => &TRACE_PROJECTION,
                "iso" => &P_ISO,
                "sym" => &P_SYM,
                "skew" => &P_SKEW,
                "dev" => &P_DEV,
                _ => &P_SYMDEV,
            };
            json!({"rp": rep_id(t.rep()), "o": n4(&t, 6.0), "w": table(tab)})
        }
        "setpp" => { let mut c = z4(); c.set_pp_symdev(); json!({"o": n4(&c, 6.0)}) }
        o => panic!("harness: unknown operation {}", o),
    }
}

pub fn random_b(rng: &mut Rng) -> Vec<Value> {
    let f = *rng.pick(&["add2", "add3", "add4", "dd22", "dot22", "dot22", "dot21", "dot12", "dy11", "dy11", "cross", "dot11", "dy22", "dy22u", "dd42", "dd42u", "dd24", "dd242", "rank", "dd44",
        "dd44u", "od", "od", "ud", "ud", "ssd", "ssd", "qsd", "qsd", "h1", "h2", "own", "own", "own", "tra", "sq", "sq", "dev", "dec", "inv", "inv", "inv4", "setpp"]);
    let k = rng.int(0, 2);
    let off = rng.chance(1, 40);
    let ca = match f { "h1" => 1, "h2" => 0, _ => rng.int(0, 1) };
    let ca = if off { rng.int(0, 1) } else { ca };
    let (al, be) = (rng.int(-3, 3), rng.int(-3, 3));
    let den = *rng.pick(&[1, 2, 4, 4]);
    let hi = if f == "rank" { 2 } else { 4 };
    // forms of the arguments and of the result
    let kc = match f { "dot22" | "od" | "ud" => 0, "ssd" | "qsd" => 1, _ => k };
    let mut op = json!({"e": "op", "f": f, "al": al, "be": be, "ca": ca});
    let mut form = |rng: &mut Rng, k: i64| if off && rng.chance(1, 2) { rng.int(0, 2) } else { k };
    for (t, r, q) in [("a", "ra", 2), ("b", "rb", 2), ("d", "rd", 4), ("g", "rg", 4), ("h", "rh", 3), ("i", "ri", 3)] {
        let used = match t {
            "a" => !["add3", "add4", "dy11", "cross", "dot11", "dd44", "dd44u", "h1", "inv4", "setpp"].contains(&f),
            "b" => ["add2", "dd22", "dot22", "dy22", "dy22u", "dd242", "rank", "od", "ud", "qsd"].contains(&f),
            "d" => ["add4", "dd42", "dd42u", "dd24", "dd242", "rank", "dd44", "dd44u", "inv4"].contains(&f),
            "g" => ["add4", "dd44", "dd44u"].contains(&f),
            "h" => ["add3", "h1", "h2"].contains(&f),
            _ => f == "add3",
        };
        if used {
            let kk = form(rng, k);
            op[r] = json!(kk);
            op[t] = json!(holdable(rng, q, kk, ca == 1, -hi, hi, den));
        }
    }
    let z = match f {
        "add2" | "dot22" | "dy11" | "dd42" | "dd42u" | "dd24" | "h1" | "tra" | "sq" | "dev" | "dec" | "inv" => 2,
        "add3" => 3,
        "add4" | "dy22" | "dy22u" | "rank" | "dd44" | "dd44u" | "od" | "ud" | "ssd" | "qsd" | "inv4" | "setpp" => 4,
        _ => 0,
    };
    if z > 0 {
        let kk = form(rng, kc);
        op["rc"] = json!(kk);
        op["z"] = json!(holdable(rng, z, kk, ca == 1, -9, 9, 4));
    }
    op["u"] = json!(rng.ints(3, -4, 4));
    op["v"] = json!(rng.ints(3, -4, 4));
    if f == "dy11" {
        // parallel vectors, in the plane or along its normal
        let m = rng.int(-2, 2);
        let mut u = rng.ints(3, -3, 3);
        if rng.chance(1, 2) { match rng.int(0, 2) { 0 => u[2] = 0, 1 => { u[0] = 0; u[1] = 0 } _ => {} } }
        if rng.chance(2, 3) { op["v"] = json!(u.iter().map(|x| m * x).collect::<Vec<_>>()); }
        op["u"] = json!(u);
    }
    if f == "inv4" {
        // regular: a multiple of the identity added to the coordinates
        let mut d: Vec<i64> = op["d"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() % 2).collect();
        let kk = geti(&op, "rd");
        let c = *rng.pick(&[0, 7, 20]);
        for p in 0..9 {
            let (i, j) = (p / 3, p % 3);
            if kk == 2 && i != j && (i == 2 || j == 2) { continue; }
            if kk == 0 || i == j { d[p * 9 + p] += 2 * c; } else { d[p * 9 + p] += c; d[p * 9 + 3 * j + i] += c; }
        }
        op["d"] = json!(d);
        op["c"] = json!(c);
    }
    if ["own", "inv", "sq", "dev"].contains(&f) && rng.chance(1, 3) { op["ks"] = json!(rng.int(-60, 60)); }
    if ["ssd", "qsd"].contains(&f) { let lp = rng.int(0, 1); op["lp"] = json!(lp); }
    vec![json!({"e": "reset", "prop": "T02"}), op]
}

/// six times J2 and twenty-seven times J3 of integer components, computed here only to choose the scale of what is logged
fn scales(x: &[f64]) -> (f64, f64) {
    let t = x[0] + x[4] + x[8];
    let dot: f64 = (0..9).map(|p| x[p] * x[3 * (p % 3) + p / 3]).sum();
    let nrm: f64 = x.iter().map(|v| v * v).sum();
    (3.0 * dot - t * t, nrm)
}
fn inv(op: &Value) -> Value {
    let k = geti(op, "ra");
    let x = getf(op, "a");
    let t = t2(k, &x);
    let (b6, _) = scales(&x);
    let sq = |v: f64, s: f64| ni(v * v, s);
    let (dist, rad, lode) = t.invariants_octahedral();
    let lo = |l: Option<f64>| match l { Some(v) => json!([if v > 1e-7 { 1 } else if v < -1e-7 { -1 } else { 0 }, ni(v * v, b6 * b6 * b6)]), None => json!([]) };
    let s3 = f64::sqrt(3.0);
    let first = [ni(t.invariant_sigma_s(), s3), ni(t.invariant_p(), 3.0), ni(t.invariant_eps_s(), s3), ni(t.invariant_eps_v(), 1.0), ni(dist, s3)];
    let second = [sq(t.invariant_sigma_t(), 3.0), sq(t.invariant_q(), 2.0), sq(t.invariant_eps_t(), 3.0), sq(t.invariant_eps_d(), 9.0), sq(rad, 3.0)];
    let neg = [t.invariant_sigma_t(), t.invariant_q(), t.invariant_eps_t(), t.invariant_eps_d(), rad].iter().any(|v| *v < 0.0);
    json!({"o1": first, "o2": second, "neg": neg, "lo": lo(t.invariant_lode()), "l2": lo(lode)})
}
/// the tensor with the octahedral coordinates of a given one
fn back(op: &Value) -> Value {
    let k = geti(op, "ra");
    let t = t2(k, &getf(op, "a"));
    let (d, r, l) = t.invariants_octahedral();
    let l = match l { Some(v) => v, None => return json!({"o": []}) };
    match Tensor2::new_from_octahedral(d, r, l, k == 2) {
        Ok(t) => {
            let s = t.deviator_norm();
            json!({"rp": rep_id(t.rep()), "o": [ni(t.trace(), 1.0), ni(s * s, 3.0), ni(t.deviator_determinant(), 27.0)], "off": nis(&[t.get_std(0, 1), t.get_std(0, 2), t.get_std(1, 2)], 1.0),
                   "srt": t.get_std(0, 0) >= t.get_std(2, 2) - 1e-9 && t.get_std(2, 2) >= t.get_std(1, 1) - 1e-9})
        }
        Err(m) => json!({"st": "err", "msg": m, "one": f64::abs(l) > 1.0 && f64::abs(l) < 1.0 + 1e-13}),
    }
}
fn oct(op: &Value) -> Value {
    let (d, r, k, two) = (geti(op, "d") as f64, geti(op, "r") as f64, geti(op, "k"), geti(op, "two") == 1);
    let res = if gets(op, "by") == "alpha" {
        // multiples of pi/12, slightly outside at the ends
        let al = if k == 13 { 3.1416 } else if k == -13 { -3.1416 } else { (k as f64) * std::f64::consts::PI / 12.0 };
        Tensor2::new_from_octahedral_alpha(d, r, al, two)
    } else {
        Tensor2::new_from_octahedral(d, r, k as f64 / 8.0, two)
    };
    match res {
        Ok(t) => {
            let (x, y, z) = (t.get_std(0, 0), t.get_std(1, 1), t.get_std(2, 2));
            let (s1, s3) = ((2.0 * x - y - z) / f64::sqrt(6.0), (z - y) / f64::sqrt(2.0));
            let sg = |v: f64| if v > 1e-9 { 1 } else if v < -1e-9 { -1 } else { 0 };
            let ni4 = |v: f64| ni(v, 4.0);
            json!({"rp": rep_id(t.rep()), "tr": ni(t.trace(), 1.0 / f64::sqrt(3.0)), "sg": [sg(s1), sg(s3)], "sq": [ni4(s1 * s1), ni4(s3 * s3)], "rad": ni(s1 * s1 + s3 * s3, 1.0),
                   "lo": match t.invariant_lode() { Some(l) => json!([ni(l, 8.0)]), None => json!([]) }, "ls": match t.invariant_lode() { Some(l) => json!([sg(l), ni(l * l, 2.0)]), None => json!([]) }})
        }
        Err(m) => json!({"st": "err", "msg": m}),
    }
}
fn spec2(op: &Value, sp: &mut Spectral2, two: bool) -> Value {
    let k = geti(op, "ra");
    let t = t2(k, &getf(op, "a"));
    if let Err(m) = sp.decompose(&t) { return json!({"st": "err", "msg": m}); }
    let l = &sp.lambda;
    let rc = if two { Rep::Symmetric2D } else { Rep::Symmetric };
    let com = |f: &dyn Fn(f64) -> f64, s: f64| {
        let mut c = t2(if two { 2 } else { 1 }, &[5.0; 9].map(|v| if two { 0.0 } else { v }));
        sp.compose(&mut c, &Vector::from(&[f(l[0]), f(l[1]), f(l[2])])).unwrap();
        n2(&c, s)
    };
    let mut wrong = Tensor2::new(Rep::General);
    let mut good = Tensor2::new(rc);
    let errs = [sp.compose(&mut wrong, l).is_err(), sp.compose(&mut good, &Vector::new(2)).is_err()];
    let p = &sp.projectors;
    let pp: Vec<f64> = (0..9).map(|q| t2_ddot_t2(&p[q / 3], &p[q % 3])).collect();
    let (a1, a2, a3) = sp.octahedral_basis();
    json!({"o": com(&|v| v, 1.0), "one": com(&|_| 1.0, 1.0), "sq": com(&|v| v * v, 1.0), "cu": com(&|v| v * v * v, 1.0), "errs": errs, "pp": nis(&pp, 1.0), "zz": ni(l[2], 1.0),
           "l": [ni(l[0] + l[1] + l[2], 1.0), ni(l[0] * l[0] + l[1] * l[1] + l[2] * l[2], 1.0), ni(l[0] * l[1] * l[2], 1.0)],
           "oct": [ni(a2, f64::sqrt(3.0)), ni(a1 * a1 + a3 * a3, 3.0), ni(f64::sqrt(2.0 / 3.0) * a1 * (a1 * a1 / 6.0 - a3 * a3 / 2.0), 27.0)]})
}
fn elas(op: &Value, el: &mut LinElasticity) -> Value {
    match gets(op, "k") {
        "yp" => el.set_young_poisson(geti(op, "en") as f64, geti(op, "nn") as f64 / geti(op, "nd") as f64),
        "bs" => el.set_bulk_shear(geti(op, "bk") as f64, geti(op, "sh") as f64),
        _ => {}
    }
    // scale of the results, such that everything is an integer
    let s = geti(op, "s") as f64;
    let rk = rep_id(el.rep());
    let eps = t2(geti(op, "ra"), &getf(op, "a"));
    let mut sig = t2(rk, &[7.0, 0.0, 0.0, 0.0, 7.0, 0.0, 0.0, 0.0, 7.0]);
    let strs = guarded(|| { el.calc_stress(&mut sig, &eps); n2(&sig, s) });
    let mut cc = Tensor4::new(rep(geti(op, "rc")));
    for m in 0..cc.dim() { for n in 0..cc.dim() { cc.set(m, n, 9.0); } }
    let comp = match el.calc_compliance(&mut cc) { Ok(()) => n4(&cc, geti(op, "cs") as f64), Err(_) => json!([]) };
    let (bk, sh) = el.get_bulk_shear();
    let (y, p) = el.get_young_poisson();
    let ez = match el.out_of_plane_strain(&sig) { Ok(v) => json!([ni(v, geti(op, "zs") as f64)]), Err(_) => json!([]) };
    json!({"rp": rk, "mod": n4(el.get_modulus(), s), "sig": match strs { Ok(v) => json!([v]), Err(_) => json!([]) }, "comp": comp, "ez": ez,
           "ks": [ni(bk, geti(op, "bs") as f64), ni(sh, geti(op, "ss") as f64), ni(y, geti(op, "ys") as f64), ni(p, geti(op, "ps") as f64)]})
}
struct Aux { j3: AuxDeriv2InvariantJ3, st: AuxDeriv2InvariantSigmaT, lo: AuxDeriv2InvariantLode, d2: Tensor4, d1: [Tensor2; 3], s: [Tensor2; 3] }
fn deri(op: &Value, ax: &mut Aux) -> Value {
    let k = geti(op, "ra");
    let x = getf(op, "a");
    let t = t2(k, &x);
    let (b6, nn) = scales(&x);
    let j2 = b6 / 6.0;
    let (s2, s3) = (f64::sqrt(2.0), f64::sqrt(3.0));
    let d1 = &mut ax.d1[k as usize];
    let s = &mut ax.s[k as usize];
    let some = |r: Option<f64>, o: Value, sc: f64| match r { Some(v) => json!({"r": [ni(v, sc)], "o": o}), None => json!({"r": [], "o": []}) };
    let loops = geti(op, "lp") == 1;
    match gets(op, "w") {
        "norm" => { let r = deriv1_norm(d1, &t).map(|v| v * v); some(r, n2(d1, nn.sqrt()), 1.0) }
        "jj2" => { deriv1_invariant_jj2(d1, &t); json!({"r": [], "o": n2(d1, 3.0)}) }
        "jj3" => { deriv1_invariant_jj3(d1, s, &t); json!({"r": [], "o": n2(d1, 9.0), "s": n2(s, 3.0)}) }
        "sigs" => { deriv1_invariant_sigma_s(d1, &t); json!({"r": [], "o": n2(d1, s3)}) }
        "p" => { deriv1_invariant_p(d1, &t); json!({"r": [], "o": n2(d1, 3.0)}) }
        "sigt" => { let r = deriv1_invariant_sigma_t(d1, &t); some(r, n2(d1, 3.0 * f64::sqrt(2.0 * j2)), 6.0) }
        "q" => { let r = deriv1_invariant_q(d1, &t); some(r, n2(d1, 3.0 * 2.0 * f64::sqrt(j2) / s3), 6.0) }
        "lode" => { let r = deriv1_invariant_lode(d1, s, &t); let o = n2(d1, 36.0 * j2.powf(2.5) / s3); some(r, o, 6.0) }
        w => {
            let dr = rep(geti(op, "rc"));
            if ax.d2.rep() != dr { ax.d2 = Tensor4::new(dr); }
            let d2 = &mut ax.d2;
            d2.use_loops = loops;
            match w {
                "2jj2" => { deriv2_invariant_jj2(d2, &t); json!({"r": [], "o": n4(d2, 6.0)}) }
                "2jj3" => { deriv2_invariant_jj3(d2, &mut ax.j3, &t); json!({"r": [], "o": n4(d2, 18.0)}) }
                "2sigt" => { let r = deriv2_invariant_sigma_t(d2, &mut ax.st, &t); let o = n4(d2, 36.0 * s2 * j2.powf(1.5)); some(r, o, 6.0) }
                "2q" => { let r = deriv2_invariant_q(d2, &mut ax.st, &t); let o = n4(d2, 72.0 * j2.powf(1.5) / s3); some(r, o, 6.0) }
                "2lode" => { let r = deriv2_invariant_lode(d2, &mut ax.lo, &t); let o = n4(d2, 1296.0 * j2.powf(3.5) / (1.5 * s3)); some(r, o, 6.0) }
                "inv" => { deriv_inverse_tensor(d2, &t); json!({"r": [], "o": n4(d2, 1.0)}) }
                "invs" => { deriv_inverse_tensor_sym(d2, &t); json!({"r": [], "o": n4(d2, 2.0)}) }
                "sq" => { let mut ii = t2(k, &x); deriv_squared_tensor(d2, &mut ii, &t); json!({"r": [], "o": n4(d2, 1.0), "s": n2(&ii, 1.0)}) }
                "sqs" => { let mut ii = t2(k, &x); deriv_squared_tensor_sym(d2, &mut ii, &t); json!({"r": [], "o": n4(d2, 2.0), "s": n2(&ii, 1.0)}) }
                o => panic!("harness: unknown derivative {}", o),
            }
        }
    }
}
fn run_inv(ops: &[Value], log: &mut Log) {
    log.ev(&ops[0], json!({}));
    let mut sp = [Spectral2::new(false), Spectral2::new(true)];
    let mut el: Option<LinElasticity> = None;
    let mk = |v: f64| [t2(0, &[v; 9]), t2(1, &[v; 9]), t2(2, &[v, v, 0.0, v, v, 0.0, 0.0, 0.0, v])];
    let mut ax = Aux { j3: AuxDeriv2InvariantJ3::new(), st: AuxDeriv2InvariantSigmaT::new(), lo: AuxDeriv2InvariantLode::new(), d2: t4(1, &[3.0; 81]), d1: mk(4.0), s: mk(5.0) };
    for op in &ops[1..] {
        let o = gd(|| match gets(op, "f") {
            "inv" => inv(op),
            "back" => back(op),
            "oct" => oct(op),
            "spec" => { let two = geti(op, "two"); spec2(op, &mut sp[two as usize], two == 1) }
            "ela" => {
                if gets(op, "k") == "new" {
                    el = Some(LinElasticity::new(geti(op, "en") as f64, geti(op, "nn") as f64 / geti(op, "nd") as f64, geti(op, "two") == 1, geti(op, "ps0") == 1));
                }
                elas(op, el.as_mut().unwrap())
            }
            "deri" => deri(op, &mut ax),
            o => panic!("harness: unknown operation {}", o),
        });
        log.ev(op, o);
    }
}
/// an elasticity step: constants, strain and the scales that make the results integers
fn ela_op(rng: &mut Rng, k: &str, two: i64, ps: i64) -> Value {
    let rk = if two == 1 || ps == 1 { 2 } else { 1 };
    let off = rng.chance(1, 25);
    let ra = if off { rng.int(0, 2) } else { rk };
    let off = rng.chance(1, 25);
    let rc = if off { rng.int(0, 2) } else { rk };
    let a = holdable(rng, 2, ra, true, -4, 4, 4);
    let mut op = json!({"e": "op", "f": "ela", "k": k, "two": two, "ps0": ps, "ra": ra, "rc": rc, "a": a});
    if k == "bs" {
        let (b, g) = (rng.int(1, 12), rng.int(1, 12));
        op["bk"] = json!(b);
        op["sh"] = json!(g);
        op["s"] = json!(if ps == 1 { 2 * (3 * b + 4 * g) } else { 6 });
        op["cs"] = json!(36 * b * g);
        op["bs"] = json!(1);
        op["ss"] = json!(1);
        op["ys"] = json!(3 * b + g);
        op["ps"] = json!(6 * b + 2 * g);
        op["zs"] = json!(3 * b + 4 * g);
    } else {
        let en = rng.int(1, 40);
        let nd = *rng.pick(&[2, 3, 4, 5, 10]);
        let nn = rng.int(-nd / 2, (nd - 1) / 2);
        op["en"] = json!(en);
        op["nn"] = json!(nn);
        op["nd"] = json!(nd);
        op["s"] = json!(if ps == 1 { 2 * (nd + nn) * (nd - nn) } else { 2 * (nd + nn) * (nd - 2 * nn) });
        op["cs"] = json!(2 * en * nd);
        op["zs"] = json!((nd + nn) * (nd - nn));
        op["bs"] = json!(3 * (nd - 2 * nn));
        op["ss"] = json!(2 * (nd + nn));
        op["ys"] = json!(1);
        op["ps"] = json!(nd);
    }
    op
}
pub fn random_c(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e": "reset", "prop": "T03"})];
    let n = rng.us(1, 4);
    match rng.int(0, 5) {
        0 => for _ in 0..n {
            let k = rng.int(0, 2);
            let hi = *rng.pick(&[1, 3, 6]);
            let a = holdable(rng, 2, k, true, -hi, hi, 4);
            ops.push(json!({"e": "op", "f": "inv", "ra": k, "a": a}));
            let k = rng.int(1, 2);
            let den = *rng.pick(&[1, 2, 4]);
            let a = holdable(rng, 2, k, true, -hi, hi, den);
            ops.push(json!({"e": "op", "f": "back", "ra": k, "a": a}));
        },
        1 => for _ in 0..n {
            let (d, r, two) = (rng.int(-9, 9), rng.int(0, 9), rng.int(0, 1));
            let by = *rng.pick(&["lode", "alpha"]);
            let k = if by == "lode" { rng.int(-9, 9) } else { rng.int(-13, 13) };
            ops.push(json!({"e": "op", "f": "oct", "by": by, "d": d, "r": r, "k": k, "two": two}));
        },
        2 => for _ in 0..n {
            let two = rng.int(0, 1);
            let off = rng.chance(1, 20);
            let k = if off { rng.int(0, 2) } else { 1 + two };
            let den = *rng.pick(&[1, 2, 4]);
            let a = holdable(rng, 2, k, true, -4, 4, den);
            ops.push(json!({"e": "op", "f": "spec", "two": two, "ra": k, "a": a}));
        },
        3 => {
            let (two, ps) = (rng.int(0, 1), rng.int(0, 1));
            ops.push(ela_op(rng, "new", two, ps));
            for _ in 0..n { let k = *rng.pick(&["yp", "bs"]); ops.push(ela_op(rng, k, two, ps)); }
        }
        _ => for _ in 0..n + 1 {
            let w = *rng.pick(&["norm", "jj2", "jj3", "sigs", "p", "sigt", "q", "lode", "2jj2", "2jj3", "2sigt", "2q", "2lode", "2lode", "inv", "invs", "sq", "sqs"]);
            let off = rng.chance(1, 25);
            let k = if off || ["norm", "sigs", "p", "inv", "sq"].contains(&w) { rng.int(0, 2) } else { rng.int(1, 2) };
            let rc = if off { rng.int(0, 2) } else if ["inv", "sq"].contains(&w) { 0 } else { 1 };
            let hi = if w == "2lode" { 2 } else { 3 };
            let den = *rng.pick(&[1, 2, 4, 4]);
            let a = holdable(rng, 2, k, true, -hi, hi, den);
            let lp = rng.int(0, 1);
            ops.push(json!({"e": "op", "f": "deri", "w": w, "ra": k, "rc": rc, "a": a, "lp": lp}));
        },
    }
    ops
}
