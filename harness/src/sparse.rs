use crate::util::*;
use russell_lab::*;
use russell_sparse::prelude::*;
use russell_sparse::*;
use serde_json::{json, Value};
use std::collections::HashMap;

pub fn sym_of(s: &str) -> Sym {
    match s {
        "no" => Sym::No,
        "full" => Sym::YesFull,
        "lower" => Sym::YesLower,
        "upper" => Sym::YesUpper,
        _ => panic!("harness: bad sym"),
    }
}
pub fn sym_str(s: Sym) -> &'static str {
    match s {
        Sym::No => "no",
        Sym::YesFull => "full",
        Sym::YesLower => "lower",
        Sym::YesUpper => "upper",
    }
}

pub trait Num2:
    std::ops::AddAssign + std::ops::MulAssign + num_traits::Num + num_traits::NumCast + Copy + serde::de::DeserializeOwned + serde::Serialize + 'static
{
    fn of(v: &Value) -> Self;
    fn to(&self) -> Value;
}
impl Num2 for f64 {
    fn of(v: &Value) -> Self {
        v[0].as_i64().unwrap() as f64
    }
    fn to(&self) -> Value {
        json!([xi(*self), 0])
    }
}
impl Num2 for Complex64 {
    fn of(v: &Value) -> Self {
        Complex64::new(v[0].as_i64().unwrap() as f64, v[1].as_i64().unwrap() as f64)
    }
    fn to(&self) -> Value {
        json!([xi(self.re), xi(self.im)])
    }
}

fn vec_of<T: Num2>(a: &[Value]) -> NumVector<T> {
    let x: Vec<T> = a.iter().map(|v| T::of(v)).collect();
    NumVector::<T>::initialized(x.len(), |i| x[i])
}
fn vec_to<T: Num2>(v: &NumVector<T>) -> Value {
    Value::Array(v.as_data().iter().map(|x| x.to()).collect())
}
fn mat_to<T: Num2>(a: &NumMatrix<T>) -> Value {
    let (m, n) = a.dims();
    Value::Array((0..m).map(|i| Value::Array((0..n).map(|j| a.get(i, j).to()).collect())).collect())
}
fn i32s(v: &[i32]) -> Value {
    json!(v)
}
fn arr<T: Num2>(v: &[T]) -> Value {
    Value::Array(v.iter().map(|x| x.to()).collect())
}
fn tri<T: Num2>(ii: &[i32], jj: &[i32], vv: &[T]) -> Value {
    Value::Array((0..vv.len()).map(|k| json!([ii[k], jj[k], vv[k].to()])).collect())
}

struct Pool<T: Num2> {
    coo: HashMap<i64, NumCooMatrix<T>>,
    csc: HashMap<i64, NumCscMatrix<T>>,
    csr: HashMap<i64, NumCsrMatrix<T>>,
}

fn csc_obs<T: Num2>(m: &NumCscMatrix<T>) -> Value {
    let (nrow, ncol, nnz, sym) = m.get_info();
    json!({"nrow":nrow,"ncol":ncol,"nnz":nnz,"sym":sym_str(sym),"ptr":i32s(m.get_col_pointers()),"idx":i32s(m.get_row_indices()),"val":arr(m.get_values()),"dense":mat_to(&m.as_dense())})
}
fn csr_obs<T: Num2>(m: &NumCsrMatrix<T>) -> Value {
    let (nrow, ncol, nnz, sym) = m.get_info();
    json!({"nrow":nrow,"ncol":ncol,"nnz":nnz,"sym":sym_str(sym),"ptr":i32s(m.get_row_pointers()),"idx":i32s(m.get_col_indices()),"val":arr(m.get_values()),"dense":mat_to(&m.as_dense())})
}

/// executes one operation; returns the observation or None if the operation is not applicable (missing slot)
fn step<T: Num2>(p: &mut Pool<T>, op: &Value) -> Option<Value> {
    let k = geti(op, "k");
    Some(match gets(op, "e") {
        "new" => {
            let r = obs(
                || NumCooMatrix::<T>::new(getu(op, "nrow"), getu(op, "ncol"), getu(op, "cap"), sym_of(gets(op, "sym"))),
                |m| {
                    p.coo.insert(k, m);
                    json!({})
                },
            );
            if r["st"] != "ok" {
                p.coo.remove(&k);
            }
            r
        }
        "from" => {
            let r = obs(
                || {
                    NumCooMatrix::<T>::from(
                        getu(op, "nrow"),
                        getu(op, "ncol"),
                        geta(op, "ii").iter().map(|x| x.as_i64().unwrap() as i32).collect(),
                        geta(op, "jj").iter().map(|x| x.as_i64().unwrap() as i32).collect(),
                        geta(op, "vv").iter().map(|x| T::of(x)).collect(),
                        sym_of(gets(op, "sym")),
                    )
                },
                |m| {
                    p.coo.insert(k, m);
                    json!({})
                },
            );
            if r["st"] != "ok" {
                p.coo.remove(&k);
            }
            r
        }
        "put" => {
            let m = p.coo.get_mut(&k)?;
            obs(|| m.put(getu(op, "i"), getu(op, "j"), T::of(&op["v"])), |_| json!({}))
        }
        "clear" => {
            let m = p.coo.get_mut(&k)?;
            obs(|| Ok(m.reset()), |_| json!({}))
        }
        "assign" | "add" => {
            let o = p.coo.get(&geti(op, "o"))?.clone();
            let m = p.coo.get_mut(&k)?;
            let alpha = T::of(&op["alpha"]);
            if gets(op, "e") == "assign" {
                obs(|| m.assign(alpha, &o), |_| json!({}))
            } else {
                obs(|| m.add(alpha, &o), |_| json!({}))
            }
        }
        "lagrange" => {
            let o = p.coo.get(&geti(op, "o"))?.clone();
            let m = p.coo.get_mut(&k)?;
            obs(|| m.put_lagrange_block(&o), |_| json!({}))
        }
        "scalevals" => {
            let m = p.coo.get_mut(&k)?;
            let alpha = T::of(&op["alpha"]);
            obs(
                || {
                    for x in m.get_values_mut() {
                        *x *= alpha;
                    }
                    Ok(())
                },
                |_| json!({}),
            )
        }
        "show" => {
            let m = p.coo.get(&k)?;
            obs(
                || {
                    let (nrow, ncol, nnz, sym) = m.get_info();
                    let mut d = NumMatrix::<T>::filled(nrow, ncol, T::one());
                    m.to_dense(&mut d)?;
                    let d2 = m.as_dense();
                    let mut bad = NumMatrix::<T>::new(nrow + 1, ncol);
                    let wrong = m.to_dense(&mut bad).is_err();
                    Ok(json!({"nrow":nrow,"ncol":ncol,"nnz":nnz,"sym":sym_str(sym),"nnz2":m.get_nnz(),"annz":m.get_actual_nnz(),
                        "trip":tri(m.get_row_indices(),m.get_col_indices(),m.get_values()),"dense":mat_to(&d),"dense2":mat_to(&d2),"wrong":wrong}))
                },
                |v| v,
            )
        }
        "mul" | "mulup" | "tmul" => {
            let m = p.coo.get(&k)?;
            let u = vec_of::<T>(geta(op, "u"));
            let mut v = vec_of::<T>(geta(op, "v"));
            let alpha = T::of(&op["alpha"]);
            let e = gets(op, "e");
            let r = guarded(|| match e {
                "mul" => m.mat_vec_mul(&mut v, alpha, &u),
                "mulup" => m.mat_vec_mul_update(&mut v, alpha, &u),
                _ => m.mat_t_vec_mul(&mut v, alpha, &u),
            });
            let st = match r {
                Ok(Ok(())) => "ok",
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            };
            json!({"st":st,"w":vec_to(&v)})
        }
        "csc" | "csr" => {
            let m = p.coo.get(&geti(op, "o"))?.clone();
            if gets(op, "e") == "csc" {
                obs(
                    || NumCscMatrix::<T>::from_coo(&m),
                    |c| {
                        let r = csc_obs(&c);
                        p.csc.insert(k, c);
                        r
                    },
                )
            } else {
                obs(
                    || NumCsrMatrix::<T>::from_coo(&m),
                    |c| {
                        let r = csr_obs(&c);
                        p.csr.insert(k, c);
                        r
                    },
                )
            }
        }
        "csc_upd" => {
            let m = p.coo.get(&geti(op, "o"))?.clone();
            let c = p.csc.get_mut(&k)?;
            let mut r = obs(|| c.update_from_coo(&m), |_| json!({}));
            merge(&mut r, guarded(|| csc_obs(c)).unwrap_or(json!({"st":"panic"})));
            r
        }
        "csr_upd" => {
            let m = p.coo.get(&geti(op, "o"))?.clone();
            let c = p.csr.get_mut(&k)?;
            let mut r = obs(|| c.update_from_coo(&m), |_| json!({}));
            merge(&mut r, guarded(|| csr_obs(c)).unwrap_or(json!({"st":"panic"})));
            r
        }
        "csc_of_csr" => {
            let c = p.csr.get(&geti(op, "o"))?.clone();
            obs(
                || NumCscMatrix::<T>::from_csr(&c),
                |c| {
                    let r = csc_obs(&c);
                    p.csc.insert(k, c);
                    r
                },
            )
        }
        "csr_of_csc" => {
            let c = p.csc.get(&geti(op, "o"))?.clone();
            obs(
                || NumCsrMatrix::<T>::from_csc(&c),
                |c| {
                    let r = csr_obs(&c);
                    p.csr.insert(k, c);
                    r
                },
            )
        }
        "csc_mul" | "csr_mul" => {
            let u = vec_of::<T>(geta(op, "u"));
            let mut v = vec_of::<T>(geta(op, "v"));
            let alpha = T::of(&op["alpha"]);
            let r = if gets(op, "e") == "csc_mul" {
                let c = p.csc.get(&k)?;
                guarded(|| c.mat_vec_mul(&mut v, alpha, &u))
            } else {
                let c = p.csr.get(&k)?;
                guarded(|| c.mat_vec_mul(&mut v, alpha, &u))
            };
            let st = match r {
                Ok(Ok(())) => "ok",
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            };
            json!({"st":st,"w":vec_to(&v)})
        }
        "csc_raw" | "csr_raw" => {
            let ptr: Vec<i32> = geta(op, "ptr").iter().map(|x| x.as_i64().unwrap() as i32).collect();
            let idx: Vec<i32> = geta(op, "idx").iter().map(|x| x.as_i64().unwrap() as i32).collect();
            let val: Vec<T> = geta(op, "val").iter().map(|x| T::of(x)).collect();
            let (m, n, s) = (getu(op, "nrow"), getu(op, "ncol"), sym_of(gets(op, "sym")));
            if gets(op, "e") == "csc_raw" {
                obs(
                    || NumCscMatrix::<T>::new(m, n, ptr, idx, val, s),
                    |c| {
                        let d = mat_to(&c.as_dense());
                        p.csc.insert(k, c);
                        json!({"dense":d})
                    },
                )
            } else {
                obs(
                    || NumCsrMatrix::<T>::new(m, n, ptr, idx, val, s),
                    |c| {
                        let d = mat_to(&c.as_dense());
                        p.csr.insert(k, c);
                        json!({"dense":d})
                    },
                )
            }
        }
        _ => return None,
    })
}

fn merge(a: &mut Value, b: Value) {
    if let Value::Object(m) = b {
        for (k, v) in m {
            a[k] = v;
        }
    }
}

pub fn exec(ops: &[Value], log: &mut Log) {
    let cx = ops[0]["cx"].as_i64() == Some(1);
    log.ev(&json!({"e":"reset","cx":cx as i64}), json!({}));
    let mut pr = Pool::<f64> { coo: HashMap::new(), csc: HashMap::new(), csr: HashMap::new() };
    let mut pc = Pool::<Complex64> { coo: HashMap::new(), csc: HashMap::new(), csr: HashMap::new() };
    for op in &ops[1..] {
        if op["k"].is_null() {
            continue;
        }
        let k = geti(op, "k");
        let e = gets(op, "e");
        let r = if e == "assign_real" || e == "add_real" {
            // complex slot k, real slot o (>= 10)
            let o = pr.coo.get(&geti(op, "o")).cloned();
            match (pc.coo.get_mut(&k), o) {
                (Some(m), Some(o)) => {
                    let (a, b) = (op["alpha"][0].as_i64().unwrap() as f64, op["alpha"][1].as_i64().unwrap() as f64);
                    Some(if e == "assign_real" {
                        obs(|| m.assign_real(a, b, &o), |_| json!({}))
                    } else {
                        obs(|| m.add_real(a, b, &o), |_| json!({}))
                    })
                }
                _ => None,
            }
        } else if cx && k < 10 {
            step(&mut pc, op)
        } else {
            step(&mut pr, op)
        };
        if let Some(r) = r {
            log.ev(op, r);
        }
    }
}

const SYMS: [&str; 4] = ["no", "full", "lower", "upper"];

pub fn random(rng: &mut Rng, thorough: bool) -> Vec<Value> {
    let cx = rng.chance(1, 2);
    let val = |rng: &mut Rng, c: bool| {
        let re = rng.int(-9, 9);
        let im = if c { rng.int(-9, 9) } else { 0 };
        json!([re, im])
    };
    let small = |rng: &mut Rng, c: bool| {
        let re = rng.int(-3, 3);
        let im = if c { rng.int(-3, 3) } else { 0 };
        json!([re, im])
    };
    let mut ops = vec![json!({"cx": cx as i64})];
    let maxdim = if thorough { 7 } else { 5 };
    let m = rng.us(1, maxdim);
    let n = if rng.chance(2, 3) { m } else { rng.us(1, maxdim) };
    let sym = if m == n { *rng.pick(&SYMS) } else { "no" };
    let mut dims: HashMap<i64, (usize, usize, &str)> = HashMap::new();
    let mut slots: Vec<i64> = vec![0, 1, 2];
    if cx {
        slots.push(10);
    }
    for k in &slots {
        // mostly the common shape; sometimes different
        let (mm, nn, ss) = if rng.chance(5, 6) {
            (m, n, sym)
        } else {
            let a = rng.us(1, maxdim);
            let b = if rng.chance(1, 2) { a } else { rng.us(1, maxdim) };
            (a, b, if a == b || rng.chance(1, 8) { *rng.pick(&SYMS) } else { "no" })
        };
        let cap = if rng.chance(1, 4) { rng.us(0, 6) } else { rng.us(8, 40) };
        if rng.chance(1, 6) {
            // build with from()
            let nn_ = rng.us(1, 8);
            let mut ii: Vec<i64> = (0..nn_).map(|_| rng.us(0, mm - 1) as i64).collect();
            let mut jj: Vec<i64> = (0..nn_).map(|_| rng.us(0, nn - 1) as i64).collect();
            if ss == "lower" || ss == "upper" {
                for p in 0..nn_ {
                    if rng.chance(19, 20) && ((ss == "lower" && jj[p] > ii[p]) || (ss == "upper" && jj[p] < ii[p])) {
                        std::mem::swap(&mut ii[p], &mut jj[p]);
                    }
                }
            }
            if rng.chance(1, 10) {
                ii[0] = *rng.pick(&[-1, mm as i64]);
            }
            if rng.chance(1, 10) {
                jj[0] = *rng.pick(&[-1, nn as i64]);
            }
            if rng.chance(1, 12) {
                jj.pop();
            }
            let vv: Vec<Value> = (0..nn_ - rng.chance(1, 12) as usize).map(|_| val(rng, cx && *k < 10)).collect();
            ops.push(json!({"e":"from","k":k,"nrow":mm,"ncol":nn,"sym":ss,"ii":ii,"jj":jj,"vv":vv}));
        } else {
            let mm0 = if rng.chance(1, 30) { 0 } else { mm };
            ops.push(json!({"e":"new","k":k,"nrow":mm0,"ncol":nn,"cap":cap,"sym":ss}));
        }
        dims.insert(*k, (mm, nn, ss));
    }
    let nops = if thorough { rng.us(15, 50) } else { rng.us(10, 30) };
    let vecs = |rng: &mut Rng, len: usize, c: bool| -> Vec<Value> { (0..len).map(|_| small(rng, c)).collect() };
    for _ in 0..nops {
        let k = *rng.pick(&slots);
        let c = cx && k < 10;
        let (mm, nn, ss) = dims[&k];
        let r = rng.us(0, 99);
        if r < 45 {
            let mut i = rng.us(0, mm - 1);
            let mut j = rng.us(0, nn - 1);
            if rng.chance(1, 25) {
                i = mm;
            }
            if rng.chance(1, 25) {
                j = nn;
            }
            if rng.chance(5, 6) && ((ss == "lower" && j > i) || (ss == "upper" && j < i)) {
                std::mem::swap(&mut i, &mut j);
            }
            ops.push(json!({"e":"put","k":k,"i":i,"j":j,"v":val(rng, c)}));
        } else if r < 48 {
            ops.push(json!({"e":"clear","k":k}));
        } else if r < 56 {
            let o = *rng.pick(&[0, 1, 2]);
            if k < 10 && o != k {
                let e = *rng.pick(&["assign", "add", "add"]);
                ops.push(json!({"e":e,"k":k,"o":o,"alpha":small(rng, c)}));
            }
        } else if r < 60 {
            if k < 10 && cx {
                let e = *rng.pick(&["assign_real", "add_real"]);
                ops.push(json!({"e":e,"k":k,"o":10,"alpha":[rng.int(-3,3), rng.int(-3,3)]}));
            } else {
                ops.push(json!({"e":"scalevals","k":k,"alpha":small(rng, c)}));
            }
        } else if r < 65 {
            // Lagrange block: new B (r x q) with r+q <= size of slot (sometimes not)
            if k < 10 && mm >= 2 {
                let q = rng.us(1, mm - 1);
                let r = if rng.chance(5, 6) { rng.us(1, mm - q) } else { mm - q + 1 };
                let sb = if rng.chance(1, 12) && r == q { "full" } else { "no" };
                ops.push(json!({"e":"new","k":5,"nrow":r,"ncol":q,"cap":6,"sym":sb}));
                for _ in 0..rng.us(0, 4) {
                    ops.push(json!({"e":"put","k":5,"i":rng.us(0,r-1),"j":rng.us(0,q-1),"v":val(rng, c)}));
                }
                ops.push(json!({"e":"lagrange","k":k,"o":5}));
                ops.push(json!({"e":"show","k":k}));
            }
        } else if r < 73 {
            ops.push(json!({"e":"show","k":k}));
        } else if r < 83 {
            let e = *rng.pick(&["mul", "mulup", "tmul"]);
            let (lu, lv) = if e == "tmul" { (mm, nn) } else { (nn, mm) };
            let lu = (lu as i64 + *rng.pick(&[0, 0, 0, 0, 1, -1])).max(0) as usize;
            let lv = (lv as i64 + *rng.pick(&[0, 0, 0, 0, 1, -1])).max(0) as usize;
            ops.push(json!({"e":e,"k":k,"alpha":small(rng, c),"u":vecs(rng, lu, c),"v":vecs(rng, lv, c)}));
        } else if k < 10 {
            let o = *rng.pick(&[0i64, 1, 2]);
            let e = *rng.pick(&["csc", "csr", "csc_upd", "csr_upd", "csc_of_csr", "csr_of_csc", "csc", "csr", "csc_upd", "csr_upd"]);
            ops.push(json!({"e":e,"k":0,"o":if e.contains("_of_") {0} else {o}}));
            if rng.chance(1, 2) {
                let e = *rng.pick(&["csc_mul", "csr_mul"]);
                let lu = (n as i64 + *rng.pick(&[0, 0, 0, 0, 0, 1])) as usize;
                let lv = (m as i64 + *rng.pick(&[0, 0, 0, 0, 0, 1])) as usize;
                ops.push(json!({"e":e,"k":0,"alpha":small(rng, cx),"u":vecs(rng, lu, cx),"v":vecs(rng, lv, cx)}));
            }
        }
        if rng.chance(1, 40) {
            // raw constructors of the compressed forms, well formed or corrupted
            let e = *rng.pick(&["csc_raw", "csr_raw"]);
            let (a, b) = (rng.us(1, 4), rng.us(1, 4));
            let (outer, inner) = if e == "csc_raw" { (b, a) } else { (a, b) };
            let mut ptr = vec![0i64];
            let mut idx: Vec<i64> = vec![];
            for _ in 0..outer {
                for q in 0..inner {
                    if rng.chance(1, 2) {
                        idx.push(q as i64);
                    }
                }
                ptr.push(idx.len() as i64);
            }
            let mut vals: Vec<Value> = idx.iter().map(|_| val(rng, cx)).collect();
            let s = if a == b && rng.chance(1, 4) { "full" } else if rng.chance(1, 10) { "lower" } else { "no" };
            match rng.us(0, 9) {
                0 if idx.len() > 0 => {
                    let p = rng.us(0, idx.len() - 1);
                    idx[p] = *rng.pick(&[-1, inner as i64]);
                }
                1 if ptr.len() > 2 => {
                    ptr[1] = ptr[ptr.len() - 1] + 1;
                }
                2 => {
                    ptr.pop();
                }
                3 if vals.len() > 0 => {
                    vals.pop();
                }
                4 if idx.len() > 1 => {
                    idx.reverse();
                }
                _ => {}
            }
            ops.push(json!({"e":e,"k":0,"nrow":a,"ncol":b,"ptr":ptr,"idx":idx,"val":vals,"sym":s}));
        }
    }
    for k in &slots {
        ops.push(json!({"e":"show","k":k}));
    }
    ops.push(json!({"e":"csc","k":0,"o":0}));
    ops.push(json!({"e":"csr","k":0,"o":1}));
    ops
}
