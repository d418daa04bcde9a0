//! Sorting, ordering and extremum queries
use crate::util::*;
use russell_lab::*;
use serde_json::{Value, json};

const NAN: i64 = 999;
const INF: i64 = 900;
const NEGZERO: i64 = 901;

fn num(v: &Value) -> f64 {
    match v.as_i64().unwrap() {
        NAN => f64::NAN,
        INF => f64::INFINITY,
        x if x == -INF => f64::NEG_INFINITY,
        NEGZERO => -0.0,
        x => x as f64,
    }
}
fn code(x: f64) -> i64 {
    if x.is_nan() {
        NAN
    } else if x.is_infinite() {
        if x > 0.0 { INF } else { -INF }
    } else if x == 0.0 && x.is_sign_negative() {
        NEGZERO
    } else {
        xi(x)
    }
}
fn nums(op: &Value, k: &str) -> Vec<f64> {
    geta(op, k).iter().map(num).collect()
}
fn ix(i: usize) -> i64 {
    if i == usize::MAX { -1 } else { i as i64 }
}

fn run(op: &Value) -> Result<Value, &'static str> {
    let x = nums(op, "x");
    match gets(op, "f") {
        "tuple" => {
            let i: Vec<i64> = geta(op, "x").iter().map(|v| v.as_i64().unwrap()).collect();
            match x.len() {
                2 => {
                    let (mut t, mut u) = ((x[0], x[1]), (i[0], i[1]));
                    sort2(&mut t);
                    sort2(&mut u);
                    Ok(json!({"y":[code(t.0), code(t.1)],"z":[u.0, u.1]}))
                }
                3 => {
                    let (mut t, mut u) = ((x[0], x[1], x[2]), (i[0], i[1], i[2]));
                    sort3(&mut t);
                    sort3(&mut u);
                    Ok(json!({"y":[code(t.0), code(t.1), code(t.2)],"z":[u.0, u.1, u.2]}))
                }
                _ => {
                    let (mut t, mut u) = ((x[0], x[1], x[2], x[3]), (i[0], i[1], i[2], i[3]));
                    sort4(&mut t);
                    sort4(&mut u);
                    Ok(json!({"y":[code(t.0), code(t.1), code(t.2), code(t.3)],"z":[u.0, u.1, u.2, u.3]}))
                }
            }
        }
        "arg1" => Ok(json!({"y":argsort_f64(&x)})),
        "arg2" => Ok(json!({"y":argsort2_f64(&x, &nums(op, "x2"))})),
        "arg3" => Ok(json!({"y":argsort3_f64(&x, &nums(op, "x2"), &nums(op, "x3"))})),
        "ends" => {
            let (a, b) = find_min_max(&x);
            let i: Vec<i32> = x.iter().map(|v| if v.is_finite() { *v as i32 } else if *v > 0.0 { i32::MAX } else { i32::MIN }).collect();
            let (c, d) = find_min_max(&i);
            Ok(json!({"y":[ix(a), ix(b)],"z":[ix(c), ix(d)]}))
        }
        "absmax" => Ok(json!({"y":find_index_abs_max(&x)})),
        "turns" => {
            let (v, p, a, b) = find_valleys_and_peaks(&x);
            Ok(json!({"y":v,"z":p,"q":[ix(a), ix(b)]}))
        }
        _ => Err("unknown"),
    }
}

pub fn exec(ops: &[Value], log: &mut Log) {
    for op in ops {
        let o = if gets(op, "e") == "op" { obs(|| run(op), |v| v) } else { json!({}) };
        log.ev(op, o);
    }
}

pub fn random(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e":"reset","prop":"L03"})];
    for _ in 0..rng.us(2, 6) {
        let f = *rng.pick(&["tuple", "arg1", "arg2", "arg3", "ends", "absmax", "turns", "turns"]);
        // beyond twenty elements the library sort changes its method
        let n = match f {
            "tuple" => rng.us(2, 4),
            "absmax" => rng.us(1, 40),
            _ => match rng.int(0, 5) {
                0 => rng.us(0, 3),
                1 => rng.us(20, 60),
                _ => rng.us(3, 12),
            },
        };
        let wide = *rng.pick(&[1, 2, 4, 50]);
        let special = f != "turns" && f != "absmax" && rng.chance(1, 3);
        let seq = |rng: &mut Rng, n: usize| -> Vec<i64> {
            (0..n)
                .map(|_| {
                    if special && rng.chance(1, 4) {
                        match f {
                            "arg1" | "arg2" | "arg3" => *rng.pick(&[NAN, INF, -INF, NEGZERO]),
                            "tuple" => *rng.pick(&[INF, -INF]),
                            _ => *rng.pick(&[INF, -INF, 0]),
                        }
                    } else {
                        rng.int(-wide, wide)
                    }
                })
                .collect()
        };
        let x = seq(rng, n);
        let mut op = json!({"e":"op","f":f,"x":x});
        if f == "arg2" || f == "arg3" {
            let k = if rng.chance(1, 15) { n + 1 } else { n };
            op["x2"] = json!(seq(rng, k));
            let k = if rng.chance(1, 15) { n + 1 } else { n };
            op["x3"] = json!(seq(rng, k));
        }
        ops.push(op);
    }
    ops
}
