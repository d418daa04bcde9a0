//! Bracketing, root finding and minimisation of functions of one variable
use crate::util::*;
use russell_lab::algo::{MinBracketing, MinSolver, RootFinder, Stats};
use russell_lab::*;
use serde_json::{Value, json};

/// fixed point with fifteen decimals in two parts
pub fn fx(x: f64) -> Value {
    if !x.is_finite() || x.abs() > 1900.0 {
        return json!([NOT_FIN, 0]);
    }
    let hi = (x * 1e6).floor();
    // the product may round up: keep the parts consistent
    let lo = ((x - hi * 1e-6) * 1e15).round();
    json!([hi as i64, lo as i64])
}

struct Fun {
    kind: String,
    c: Vec<f64>,
    scale: f64,
    unit: f64,
    fail: i64,
    n: i64,
    seen: Vec<Value>,
}
impl Fun {
    fn new(op: &Value) -> Self {
        Fun { kind: gets(op, "fun").to_string(), c: getf(op, "c"), scale: 10f64.powi(geti(op, "sc") as i32), unit: unit(op), fail: geti(op, "fail"), n: 0, seen: vec![] }
    }
    fn at(&self, x: f64) -> f64 {
        self.scale
            * match self.kind.as_str() {
                // product of the factors (2 x - r) and possibly of (x² + 1)
                "roots" => self.c[1..].iter().fold(self.c[0], |p, r| p * (2.0 * x - r)),
                "cplx" => self.c[1..].iter().fold(self.c[0] * (x * x + 1.0), |p, r| p * (2.0 * x - r)),
                "poly" => self.c.iter().rev().fold(0.0, |s, a| s * x + a),
                "step" => {
                    if 2.0 * x < self.c[1] {
                        -self.c[0]
                    } else {
                        self.c[0]
                    }
                }
                "bell" => -self.c[0] * (-(x - self.c[1]) * (x - self.c[1])).exp(),
                _ => self.c[0] * (2.0 * x - self.c[1]).abs(),
            }
    }
    fn call(&mut self, x: f64) -> Result<f64, StrError> {
        self.n += 1;
        let x = x / self.unit;
        let y = self.at(x);
        if self.seen.len() < 2000 {
            self.seen.push(json!({"x":fx(x),"xb":bits3(x),"y":bits3(y)}));
        }
        if self.n == self.fail { Err("stop") } else { Ok(y) }
    }
}

fn counters(s: Result<&Stats, StrError>) -> Value {
    match s {
        Ok(s) => json!({"on":1,"nf":s.get_n_function(),"nj":s.get_n_jacobian(),"ni":s.get_n_iterations()}),
        Err(_) => json!({"on":0}),
    }
}
/// unit of the abscissae (a power of two)
fn unit(op: &Value) -> f64 {
    f64::powi(2.0, op.get("ks").map_or(0, |k| k.as_i64().unwrap() as i32))
}
fn quarter(op: &Value, k: &str) -> f64 {
    geti(op, k) as f64 / 4.0
}

pub fn exec(ops: &[Value], log: &mut Log) {
    log.ev(&ops[0], json!({}));
    let mut rf = RootFinder::new();
    let mut ms = MinSolver::new();
    let mut mb = MinBracketing::new();
    for op in &ops[1..] {
        let mut fun = Fun::new(op);
        let (max, stats) = (getu(op, "max"), geti(op, "stats") == 1);
        let un = unit(op);
        let tol = 10f64.powi(-(geti(op, "tol") as i32)) * un;
        let f = |x: f64, fun: &mut Fun| fun.call(x);
        let o = match gets(op, "f") {
            "root" => {
                rf.brent_max_iterations = max;
                rf.brent_tolerance = tol;
                rf.set_enable_stats(stats);
                let o = obs(|| rf.brent(quarter(op, "a") * un, quarter(op, "b") * un, &mut fun, f), |x| json!({"x":fx(x / un),"xb":bits3(x / un)}));
                o.merge(counters(rf.get_stats()))
            }
            "min" => {
                ms.n_iteration_max = max;
                ms.tolerance = tol;
                ms.set_enable_stats(stats);
                let o = obs(|| ms.brent(quarter(op, "a") * un, quarter(op, "b") * un, &mut fun, f), |x| json!({"x":fx(x / un),"xb":bits3(x / un)}));
                o.merge(counters(ms.get_stats()))
            }
            "bracket" => {
                mb.n_iteration_max = max;
                mb.initial_step = quarter(op, "step") * un;
                mb.expansion_factor = quarter(op, "grow");
                mb.set_enable_stats(stats);
                let o = obs(
                    || mb.basic(quarter(op, "a") * un, &mut fun, f),
                    |b| {
                        let one = |x: f64, y: f64| json!({"xb":bits3(x / un),"y":bits3(y)});
                        json!({"p":one(b.a, b.fa),"q":one(b.xo, b.fxo),"r":one(b.b, b.fb)})
                    },
                );
                o.merge(counters(mb.get_stats()))
            }
            "cheb" => {
                let (a, b) = (quarter(op, "a"), quarter(op, "b"));
                let nn = getu(op, "nn");
                obs(
                    || {
                        let fail = fun.fail;
                        fun.fail = 0;
                        let mut interp = InterpChebyshev::new(nn, a, b)?;
                        interp.set_function(nn, &mut fun, f)?;
                        let mut roots = rf.chebyshev(&interp)?;
                        let first = roots.clone();
                        fun.seen.clear();
                        fun.n = 0;
                        fun.fail = fail;
                        rf.newton_max_iterations = max;
                        let ok = if roots.is_empty() || geti(op, "polish") == 0 { 2 } else { rf.refine(&mut roots, a, b, &mut fun, f).is_ok() as i64 };
                        Ok((first, roots, ok))
                    },
                    |(p, q, ok)| json!({"r":scs(&p, 1e8),"rx":scs(&q, 1e8),"ref":ok,"inside":p.iter().all(|x| *x >= a && *x <= b)}),
                )
            }
            "refine" => {
                let (a, b) = (quarter(op, "a"), quarter(op, "b"));
                rf.newton_max_iterations = max;
                let mut r: Vec<f64> = getf(op, "g").iter().map(|x| x / 100.0).collect();
                obs(
                    || {
                        rf.refine(&mut r, a, b, &mut fun, f)?;
                        Ok(r.clone())
                    },
                    |r| json!({"r":scs(&r, 1e8)}),
                )
            }
            f => panic!("harness: unknown function {f}"),
        };
        log.ev(op, o.merge(json!({"ev":fun.seen,"n":fun.n})));
    }
}

pub fn random(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e":"reset","prop":"L05"})];
    for _ in 0..rng.int(1, 4) {
        let f = *rng.pick(&["root", "root", "min", "min", "bracket", "bracket", "cheb", "refine"]);
        let mut op = json!({"e":"op","f":f,"stats":rng.int(0, 2).min(1),"fail":0,"sc":0,"max":100,"tol":10});
        if rng.chance(1, 5) {
            op["fail"] = json!(rng.int(1, 12));
        }
        if rng.chance(1, 6) {
            op["max"] = json!(rng.int(0, 12));
        }
        if rng.chance(1, 4) {
            op["sc"] = json!(rng.int(-12, 6));
        }
        let n = rng.us(1, 5);
        let lead = *rng.pick(&[1, 1, -1, 2, -3]);
        match f {
            "root" | "min" => {
                let kind = *rng.pick(if f == "root" { &["roots", "roots", "poly", "step", "cplx"] } else { &["roots", "poly", "abs", "abs", "bell", "cplx"] });
                let mut c = rng.ints(n + 1, -9, 9);
                if kind != "poly" {
                    c[0] = lead;
                }
                op["fun"] = json!(kind);
                op["c"] = json!(c);
                op["a"] = json!(rng.int(-40, 40));
                op["b"] = json!(if rng.chance(1, 20) { geti(&op, "a") } else { rng.int(-40, 40) });
                op["tol"] = json!(if f == "root" { rng.int(6, 13) } else { rng.int(6, 10) });
            }
            "bracket" => {
                let kind = *rng.pick(&["roots", "poly", "abs", "abs", "bell", "cplx"]);
                let mut c = rng.ints(n + 1, -9, 9);
                if kind != "poly" {
                    c[0] = lead;
                }
                op["fun"] = json!(kind);
                op["c"] = json!(c);
                op["a"] = json!(rng.int(-40, 40));
                op["step"] = json!(rng.pick(&[1, 1, 2, 4, -1, -3]));
                op["grow"] = json!(rng.pick(&[8, 8, 4, 12, 6, 2]));
                op["max"] = json!(if rng.chance(1, 4) { rng.int(0, 4) } else { 12 });
            }
            "cheb" => {
                // distinct half-integer roots
                let mut r: Vec<i64> = (-10..=10).collect();
                for k in (1..r.len()).rev() {
                    r.swap(k, rng.us(0, k));
                }
                r.truncate(n);
                let a = rng.int(-6, 4);
                let b = rng.int(a + 1, 6);
                let kind = *rng.pick(&["roots", "roots", "cplx"]);
                let mut c = vec![lead];
                c.append(&mut r);
                op["nn"] = json!(n + if kind == "cplx" { 2 } else { 0 });
                op["fun"] = json!(kind);
                op["c"] = json!(c);
                op["a"] = json!(a * 4);
                op["b"] = json!(b * 4);
                op["polish"] = json!(rng.int(0, 1));
                op["sc"] = json!(0);
                op["max"] = json!(15);
            }
            _ => {
                let mut r: Vec<i64> = (-8..=8).step_by(2).collect();
                for k in (1..r.len()).rev() {
                    r.swap(k, rng.us(0, k));
                }
                r.truncate(n);
                let ng = rng.us(0, n);
                op["g"] = json!((0..ng).map(|k| r[k] * 50 + rng.int(-4, 4)).collect::<Vec<_>>());
                let mut c = vec![lead];
                c.append(&mut r);
                op["fun"] = json!("roots");
                op["c"] = json!(c);
                op["a"] = json!(-20);
                op["b"] = json!(20);
                op["sc"] = json!(0);
                op["max"] = json!(if rng.chance(1, 5) { rng.int(0, 4) } else { 15 });
            }
        }
        if ["root", "min", "bracket"].contains(&f) && rng.chance(1, 3) {
            let small = geti(&op, "tol") <= 10;
            op["ks"] = json!(if small { *rng.pick(&[-12, -6, 10, 30]) } else { 15 });
        }
        ops.push(op);
    }
    ops
}
