//! Quadrature, interpolants, splines, linear fitting and cubic equations
use crate::util::*;
use russell_lab::algo::*;
use russell_lab::*;
use serde_json::{Value, json};

/// integer part (floor) and nine decimals
pub fn pf(x: f64) -> Value {
    if !x.is_finite() {
        return json!([NOT_FIN, if x.is_nan() { 0 } else { x.signum() as i64 }]);
    }
    if x.abs() > 1.9e9 {
        return json!([TOO_BIG, x.signum() as i64]);
    }
    let f = x.floor();
    json!([f as i64, ((x - f) * 1e9).round() as i64])
}
fn ob<T>(r: Result<T, StrError>, ok: impl FnOnce(T) -> Value) -> Value {
    match r {
        Ok(t) => {
            let mut v = ok(t);
            if !has(&v, "st") {
                v["st"] = json!("ok");
            }
            v
        }
        Err(m) => json!({"st": "err", "msg": m}),
    }
}
fn gd(f: impl FnOnce() -> Value) -> Value {
    guarded(f).unwrap_or_else(|m| json!({"st": "panic", "msg": m}))
}
fn pfs(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| pf(*x)).collect())
}
fn poly(c: &[f64], x: f64) -> f64 {
    c.iter().rev().fold(0.0, |s, k| s * x + k)
}
/// sum of Chebyshev polynomials
fn cheb(c: &[f64], z: f64) -> f64 {
    let (mut s, mut t0, mut t1) = (0.0, 1.0, z);
    for k in c {
        s += k * t0;
        let t2 = 2.0 * z * t1 - t0;
        t0 = t1;
        t1 = t2;
    }
    s
}
fn fun(op: &Value, x: f64) -> f64 {
    let c = getf(op, "c");
    match gets(op, "fun") {
        "poly" => poly(&c, x),
        "abs" => c[0] * (x - c[1] / 2.0).abs(),
        "step" => if x < c[1] / 2.0 { -c[0] } else { c[0] },
        "sqrt" => c[0] * x.abs().sqrt(),
        "pow" => x.powi(c[0] as i32),
        _ => panic!("harness: function"),
    }
}

struct Count<'a> {
    op: &'a Value,
    n: i64,
    lo: f64,
    hi: f64,
}

fn quad(op: &Value, q: &mut Quadrature) -> Value {
    q.n_gauss = getu(op, "ng");
    q.tolerance = 10f64.powi(-(geti(op, "tol") as i32));
    q.n_iteration_max = getu(op, "max");
    let stats = geti(op, "stats") == 1;
    let (a, b) = (geti(op, "a") as f64 / 2.0, geti(op, "b") as f64 / 2.0);
    let fail = geti(op, "fail");
    let mut arg = Count { op, n: 0, lo: f64::INFINITY, hi: f64::NEG_INFINITY };
    let mut r = gd(|| {
        q.set_enable_stats(stats);
        let v = q.integrate(a, b, &mut arg, |x, g: &mut Count| {
            g.n += 1;
            g.lo = g.lo.min(x);
            g.hi = g.hi.max(x);
            if g.n == fail { Err("stop") } else { Ok(fun(g.op, x)) }
        });
        ob(v, |v| json!({"v": pf(v)}))
    });
    r["n"] = json!(arg.n);
    if arg.n > 0 {
        r["lo"] = bits3(arg.lo);
        r["hi"] = bits3(arg.hi);
    }
    r["ab"] = bits3(a);
    r["bb"] = bits3(b);
    match q.get_stats() {
        Ok(s) => { r["on"] = json!(1); r["nf"] = json!(s.get_n_function()); r["ni"] = json!(s.get_n_iterations()); }
        Err(_) => { r["on"] = json!(0); }
    }
    r
}

fn lag(op: &Value) -> Value {
    let mut par = InterpParams::new();
    par.grid_type = match gets(op, "grid") { "U" => InterpGrid::Uniform, "G" => InterpGrid::ChebyshevGauss, _ => InterpGrid::ChebyshevGaussLobatto };
    par.no_eta_normalization = geti(op, "noeta") == 1;
    par.eta_cutoff = getu(op, "cut");
    par.lebesgue_estimate_nstation = getu(op, "ns");
    par.error_estimate_nstation = getu(op, "ns");
    let c = getf(op, "c");
    let d1: Vec<f64> = c.iter().enumerate().skip(1).map(|(k, v)| v * k as f64).collect();
    let d2: Vec<f64> = d1.iter().enumerate().skip(1).map(|(k, v)| v * k as f64).collect();
    gd(|| {
        let r = InterpLagrange::new(getu(op, "nn"), Some(par));
        ob(r, |mut it| {
            let xx = it.get_points().clone();
            let np = xx.dim();
            let mut uu = xx.get_mapped(|x| poly(&c, x));
            if geti(op, "bad") == 1 {
                uu = Vector::new(np + 1);
            }
            let mut ev = vec![];
            for q in geta(op, "x") {
                let x = q.as_i64().unwrap() as f64 / 8.0;
                let mut sum = 0.0;
                let mut bad = 0;
                for j in 0..np {
                    match it.psi(j, x) { Ok(v) => sum += v, Err(_) => bad = 1 }
                }
                let mut v = ob((|| Ok((it.eval(x, &uu)?, it.eval_deriv1(x, &uu)?, it.eval_deriv2(x, &uu)?)))(), |t: (f64, f64, f64)| json!({"v": pfs(&[t.0, t.1, t.2])}));
                v["psi"] = if bad == 1 { json!([NOT_FIN, 0]) } else { pf(sum) };
                ev.push(v);
            }
            let mut out = json!({"ev": ev, "deg": it.get_degree(), "np": np, "pre": [it.get_dd1().is_ok() as i64, it.get_dd2().is_ok() as i64], "beyond": it.psi(np, 0.0).is_err() as i64});
            if geti(op, "bad") == 0 {
                // at and around the nodes
                let mut nodes = vec![];
                let order = geti(op, "order");
                if order == 2 { it.calc_dd2_matrix(); } else { it.calc_dd1_matrix(); it.calc_dd2_matrix(); }
                it.calc_dd1_matrix();
                let (m1, m2) = (it.get_dd1().unwrap(), it.get_dd2().unwrap());
                let step = std::cmp::max(1, np / 8);
                for j in (0..np).step_by(step) {
                    let row = |m: &Matrix| (0..np).map(|k| m.get(j, k) * uu[k]).sum::<f64>();
                    let rs = |m: &Matrix| (0..np).map(|k| m.get(j, k)).sum::<f64>();
                    let near: Vec<f64> = [1e-16, -1e-15, 3e-15, 1e-13, -1e-10].iter().map(|d| it.eval((xx[j] + d).clamp(-1.0, 1.0), &uu).unwrap() - uu[j]).collect();
                    let k = (j + 1) % np;
                    nodes.push(json!({"x": sc(xx[j], 3000.0), "u": pf(uu[j]), "e": pf(it.eval(xx[j], &uu).unwrap()), "near": pfs(&near),
                        "g": pfs(&[it.eval_deriv1(xx[j], &uu).unwrap(), row(m1)]), "h": pfs(&[it.eval_deriv2(xx[j], &uu).unwrap(), row(m2)]),
                        "s": pfs(&[rs(m1), rs(m2)]), "psi": [xi(it.psi(j, xx[j]).unwrap()), xi(it.psi(j, xx[k]).unwrap())]}));
                }
                out["nodes"] = json!(nodes);
                out["inc"] = json!((1..np).all(|j| xx[j] > xx[j - 1]) as i64);
                out["sym"] = json!((0..np).all(|j| (xx[j] + xx[np - 1 - j]).abs() < 1e-15) as i64);
                if np <= 12 {
                    out["xs"] = pfs(xx.as_data());
                    out["err"] = pf(it.estimate_max_error(&mut 0, |x, _: &mut i32| Ok(poly(&c, x))).unwrap());
                    let r = it.estimate_max_error_all(false, &mut 0, |x, _: &mut i32| Ok(poly(&c, x)), |x, _| Ok(poly(&d1, x)), |x, _| Ok(poly(&d2, x))).unwrap();
                    out["all"] = pfs(&[r.0, r.1, r.2]);
                    out["leb"] = pf(it.estimate_lebesgue_constant());
                }
            }
            out
        })
    })
}

fn che(op: &Value) -> Value {
    let (a, b) = (geti(op, "a") as f64 / 10.0, geti(op, "b") as f64 / 10.0);
    let z: Vec<f64> = geta(op, "z").iter().map(|k| k.as_i64().unwrap() as f64 / 4.0).collect();
    gd(|| {
        ob(InterpChebyshev::new(getu(op, "max"), a, b), |mut it| {
            let at = |z: f64| (a + b) / 2.0 + (b - a) / 2.0 * z;
            let zet = |x: f64| (2.0 * x - b - a) / (b - a);
            let mut out = vec![];
            for s in geta(op, "h") {
                let c = getf(s, "c");
                let nn = getu(s, "nn");
                let fail = geti(s, "fail");
                let mut n = 0;
                let mut r = gd(|| {
                    let mut f = |x: f64, n: &mut i64| { *n += 1; if *n == fail { Err("stop") } else { Ok(cheb(&c, zet(x))) } };
                    let data: Vec<f64> = if nn > 60 { vec![] } else { InterpChebyshev::points(nn).as_data().iter().map(|z| cheb(&c, *z)).collect() };
                    let res = match gets(s, "k") {
                        "fun" => it.set_function(nn, &mut n, &mut f),
                        "data" => it.set_data(&data),
                        "gen" => {
                            let xs: Vec<f64> = geta(s, "x").iter().map(|k| match k.as_i64().unwrap() { -9 => a, 9 => b, k => at(k as f64 / 9.0) }).collect();
                            let mut ys: Vec<f64> = xs.iter().map(|x| cheb(&c, zet(*x))).collect();
                            if fail == 1 { ys.pop(); }
                            it.set_gen_data(&xs, &ys)
                        }
                        "adf" => it.adapt_function(1e-8, &mut n, &mut f),
                        "add" => it.adapt_data(1e-8, &data),
                        _ => panic!("harness: step"),
                    };
                    ob(res, |_| json!({}))
                });
                r["n"] = json!(n);
                r["ready"] = json!(it.is_ready() as i64);
                r["deg"] = json!(it.get_degree());
                r["ev"] = Value::Array(z.iter().map(|z| match (it.eval(at(*z)), it.eval_using_trig(at(*z))) { (Ok(x), Ok(y)) => pfs(&[x, y]), (Err(_), Err(_)) => json!([]), _ => json!([0]) }).collect());
                r["co"] = pfs(&it.get_coefficients()[0..=it.get_degree()]);
                let xy = gd(|| ob(it.get_xy_data(), |(x, y)| json!({"x": pfs(x.as_data()), "y": pfs(y.as_data())})));
                r["xy"] = xy;
                let mut k = 0;
                r["mx"] = ob(it.estimate_max_error(9, &mut k, |x, _| Ok(cheb(&c, zet(x)))), |v| json!({"v": pf(v)}));
                out.push(r);
            }
            json!({"r": out, "range": pfs(&[it.get_range().0, it.get_range().1, it.get_range().2])})
        })
    })
}

fn bsp(op: &Value) -> Value {
    let ks = 2f64.powi(geti(op, "ks") as i32);
    let kn: Vec<f64> = getf(op, "kn").iter().map(|k| k * ks).collect();
    let p = getu(op, "p");
    gd(|| {
        ob(Bspline::new(p, &kn), |mut b| {
            let mut out = vec![];
            let nb = b.num_basis();
            let mut ndim = 0;
            for s in geta(op, "h") {
                let u = geti(s, "u") as f64 / 4.0 * ks;
                let up = getu(s, "up");
                out.push(gd(|| match gets(s, "k") {
                    "cp" => {
                        let pts: Vec<Vec<f64>> = geta(s, "pts").iter().map(|p| p.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as f64).collect()).collect();
                        let r = b.set_control_points(&pts);
                        if r.is_ok() {
                            ndim = pts[0].len();
                        }
                        ob(r, |_| json!({}))
                    }
                    "bas" => ob(b.calc_basis(u), |_| json!({"v": (0..nb).map(|i| pf(b.get_basis(i))).collect::<Vec<_>>()})),
                    "der" => ob(b.calc_basis_and_derivs(u, up), |_| json!({"v": (0..=up).map(|k| (0..nb).map(|i| pf(b.get_basis_deriv(i, k) * ks.powi(k as i32))).collect::<Vec<_>>()).collect::<Vec<_>>()})),
                    "rec" => json!({"st": "ok", "v": (0..nb).map(|i| pf(b.recursive_basis(u, i))).collect::<Vec<_>>()}),
                    "pt" => {
                        let mut cc = Vector::new(ndim + geti(s, "extra") as usize);
                        ob(b.calc_point(&mut cc, u, geti(s, "rec") == 1), |_| json!({"v": pfs(cc.as_data())}))
                    }
                    "cur" => {
                        b.calc_curve_derivs(u, up, geti(s, "rec") == 1);
                        let mut v = vec![];
                        for k in 0..=up {
                            let mut c = Vector::new(ndim);
                            b.get_curve_deriv(&mut c, k);
                            v.push(pfs(&c.as_data().iter().map(|x| x * ks.powi(k as i32)).collect::<Vec<_>>()));
                        }
                        json!({"st": "ok", "v": v})
                    }
                    _ => panic!("harness: step"),
                }));
            }
            json!({"nb": nb, "r": out, "el": b.get_elements(0.25 * ks)})
        })
    })
}

pub fn exec(ops: &[Value], log: &mut Log) {
    let mut q = Quadrature::new();
    for op in ops {
        if gets(op, "e") == "reset" {
            log.ev(op, json!({}));
            continue;
        }
        let r = match gets(op, "f") {
            "quad" => quad(op, &mut q),
            "qnear" => {
                let a = geti(op, "a") as f64;
                let b = a + geti(op, "s") as f64 * 2f64.powi(-(geti(op, "k") as i32));
                let c = geti(op, "c") as f64;
                (q.n_gauss, q.tolerance, q.n_iteration_max) = (10, 1e-10, 300);
                gd(|| ob(q.integrate(a, b, &mut 0, |_, _: &mut i32| Ok(c)), |v| json!({"v": pf(v / (b - a))})))
            }
            "lag" => lag(op),
            "che" => che(op),
            "bsp" => bsp(op),
            "fit" => {
                let (x, y) = (geta(op, "x"), geta(op, "y"));
                let zero = geti(op, "zero") == 1;
                // units of both axes (powers of two, exact)
                let unit = |k: &str| 2f64.powi(op[k].as_i64().unwrap_or(0) as i32);
                let (ux, uy) = (unit("sx"), unit("sy"));
                let f = |v: &Vec<Value>, h: f64| v.iter().map(|k| k.as_i64().unwrap() as f64 * h).collect::<Vec<_>>();
                let i = |v: &Vec<Value>| v.iter().map(|k| k.as_i64().unwrap() as i32).collect::<Vec<_>>();
                let w = |v: &Vec<Value>, h: f64| v.iter().map(|k| (k.as_i64().unwrap() as f64 * h) as f32).collect::<Vec<_>>();
                gd(|| ob(match gets(op, "t") {
                    "i32" => linear_fitting(&i(x), &i(y), zero),
                    "f32" => linear_fitting(&w(x, ux), &w(y, uy), zero),
                    _ => linear_fitting(&f(x, ux), &f(y, uy), zero),
                }, |(c, m)| json!({"c": pf(c / uy), "m": pf(m * ux / uy)})))
            }
            "cub" => {
                // (x - r0) times the other two factors, in units of the scale
                let h = 2f64.powi(geti(op, "ks") as i32);
                let (a, r, m, n) = (geti(op, "a") as f64, geti(op, "r") as f64, geti(op, "m") as f64, geti(op, "n") as f64);
                // quadratic x² - 2 m x + n with roots m ± sqrt(m² - n)
                let (b, c, d) = (-(r + 2.0 * m), n + 2.0 * m * r, -r * n);
                gd(|| ob(solve_cubic(a, a * b * h, a * c * h * h, a * d * h * h * h), |v| json!({"v": pfs(&v.iter().map(|x| x / h).collect::<Vec<_>>())})))
            }
            f => panic!("harness: unknown operation {f}"),
        };
        log.ev(op, r);
    }
}

fn coefs(rng: &mut Rng, n: usize) -> Value {
    let mut c = rng.ints(n, -3, 3);
    if rng.chance(1, 2) {
        for x in c.iter_mut() {
            if rng.chance(1, 2) { *x = 0; }
        }
    }
    json!(c)
}

pub fn random(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e": "reset", "prop": "L07"})];
    for _ in 0..rng.us(1, 6) {
        let op = match rng.us(0, 9) {
            0 | 1 => {
                let (kind, c, a, b) = match rng.us(0, 5) {
                    0 | 1 => { let n = rng.us(1, 6); ("poly", coefs(rng, n), rng.int(-8, 8), rng.int(-8, 8)) }
                    2 => ("abs", json!([rng.int(-3, 3), rng.int(-8, 8)]), rng.int(-8, 8), rng.int(-8, 8)),
                    3 => ("step", json!([rng.int(1, 3), rng.int(-8, 8)]), rng.int(-8, 8), rng.int(-8, 8)),
                    4 => { let s = [-18, -8, -2, 0, 2, 8, 18]; ("sqrt", json!([rng.int(1, 3), 0]), *rng.pick(&s), *rng.pick(&s)) }
                    _ => ("pow", json!([rng.int(6, 27), 0]), rng.int(-1, 1) * 2, rng.int(-1, 1) * 2),
                };
                json!({"e": "op", "f": "quad", "fun": kind, "c": c, "a": a, "b": b, "ng": if rng.chance(1, 20) { 7 } else { *rng.pick(&[6, 8, 10, 12, 14]) }, "tol": *rng.pick(&[4, 6, 8, 10, 10, 12, 16]), "max": *rng.pick(&[300, 300, 300, 300, 1, 2, 5, 20]), "stats": rng.int(0, 1), "fail": if rng.chance(1, 6) { rng.int(1, 40) } else { 0 }})
            }
            2 => json!({"e": "op", "f": "qnear", "a": *rng.pick(&[1, -1, 3, 100, -1000, 0]), "s": *rng.pick(&[-1, 1, 3]), "k": rng.int(2, 54), "c": rng.int(-3, 3)}),
            3 | 4 => {
                let big = rng.chance(1, 40);
                let nn = if big { *rng.pick(&[0, 100, 200, 2049, 300]) } else { rng.int(1, 12) };
                let deg = std::cmp::min(nn, 4) as usize;
                let mut c = rng.ints(deg + 1, -4, 4);
                if rng.chance(1, 6) { c = vec![0; c.len()]; let k = rng.us(0, c.len() - 1); c[k] = 1; }
                json!({"e": "op", "f": "lag", "nn": nn, "grid": if big { *rng.pick(&["G", "L"]) } else { *rng.pick(&["U", "G", "L"]) }, "noeta": (!big && rng.chance(1, 3)) as i64, "cut": if rng.chance(1, 3) { 0 } else { 700 }, "ns": if rng.chance(1, 12) { rng.int(1, 2) } else { rng.int(3, 9) }, "c": c,
                    "x": [-8, 8, rng.int(-8, 8), rng.int(-8, 8), rng.int(-10, 10)], "bad": rng.chance(1, 12) as i64, "order": rng.int(1, 2)})
            }
            5 | 6 => {
                let max = rng.int(0, 9);
                let mut h = vec![];
                for _ in 0..rng.us(1, 4) {
                    let k = *rng.pick(&["fun", "data", "gen", "adf", "add"]);
                    let nn = if rng.chance(1, 10) { max + 3 } else if k == "gen" { std::cmp::max(1, rng.int(0, max)) } else { rng.int(0, max) };
                    let n = if k == "gen" { 2 } else { rng.us(1, 7) };
                    let c = coefs(rng, n);
                    let mut x = vec![];
                    if k == "gen" {
                        let mut inner: Vec<i64> = (-8..=8).collect();
                        while inner.len() > std::cmp::max(0, nn - 1) as usize { let i = rng.us(0, inner.len() - 1); inner.remove(i); }
                        x.push(if rng.chance(1, 12) { -8 } else { -9 });
                        x.extend(inner);
                        x.push(if rng.chance(1, 12) { 8 } else { 9 });
                    }
                    h.push(json!({"k": k, "nn": nn, "c": c, "x": x, "fail": if rng.chance(1, 6) { rng.int(1, 30) } else { 0 }}));
                }
                let a = rng.int(-20, 20);
                json!({"e": "op", "f": "che", "max": max, "a": a, "b": a + if rng.chance(1, 15) { rng.int(-1, 0) } else { rng.int(1, 30) }, "z": [-4, 4, rng.int(-4, 4), rng.int(-4, 4)], "h": h})
            }
            7 | 8 => {
                let p = rng.us(1, 3);
                let clamped = rng.chance(4, 5);
                let last = rng.int(1, 5);
                let mut kn = vec![];
                if clamped {
                    for _ in 0..=p { kn.push(0); }
                    for k in 1..last {
                        for _ in 0..rng.int(0, p as i64) { kn.push(k); }
                    }
                    for _ in 0..=p { kn.push(last); }
                } else {
                    for k in 0..(2 * p as i64 + 1 + last) { kn.push(k); }
                }
                let nb = kn.len() - p - 1;
                let top = *kn.last().unwrap();
                let mut h = vec![];
                let mut set = false;
                for _ in 0..rng.us(1, 6) {
                    let (lo, hi) = (kn[p] * 4, kn[kn.len() - 1 - p] * 4);
                    let u = if rng.chance(1, 4) { *rng.pick(&[lo, hi]) } else { rng.int(lo, hi) };
                    let k = if !set && rng.chance(3, 4) { "cp" } else { *rng.pick(&["cp", "bas", "der", "rec", "pt", "cur"]) };
                    if k == "cur" && !set { continue; }
                    let nd = if rng.chance(1, 20) { 0 } else { rng.us(1, 3) };
                    let np = if rng.chance(1, 12) { nb + 1 } else { nb };
                    if k == "cp" && nd > 0 && np == nb { set = true; }
                    let pts: Vec<Vec<i64>> = if k == "cp" { (0..np).map(|_| rng.ints(nd, -4, 4)).collect() } else { vec![] };
                    let out = (k == "bas" || k == "der") && rng.chance(1, 10);
                    h.push(json!({"k": k, "u": if out { *rng.pick(&[-1, 4 * top + 1]) } else { u }, "up": rng.us(0, if k == "der" || k == "cur" { p + 1 } else { p }), "pts": pts, "rec": rng.int(0, 1), "extra": rng.chance(1, 12) as i64}));
                }
                json!({"e": "op", "f": "bsp", "p": if rng.chance(1, 25) { 0 } else { p }, "kn": kn, "ks": *rng.pick(&[0, 0, 1, -3, 8, -8, -20, -27, 25]), "h": h})
            }
            _ => if rng.chance(1, 2) {
                let n = rng.us(0, 6);
                let m = if rng.chance(1, 12) { n + 1 } else { n };
                let w = if rng.chance(1, 3) { 1 } else { 9 };
                let t = *rng.pick(&["f64", "f32", "i32"]);
                let top = if t == "f64" { 120 } else if t == "f32" { 20 } else { 0 };
                let (sx, sy) = if rng.chance(1, 2) { (rng.int(-top, top), rng.int(-top, top)) } else { (0, 0) };
                json!({"e": "op", "f": "fit", "t": t, "x": rng.ints(n, -w, w), "y": rng.ints(m, -9, 9), "zero": rng.int(0, 1), "sx": sx, "sy": sy})
            } else {
                let m = rng.int(-5, 5);
                let r = if rng.chance(1, 4) { m } else { rng.int(-5, 5) };
                let n = if rng.chance(1, 2) { let d = rng.int(0, 5); m * m - d * d } else { m * m + rng.int(1, 9) };
                json!({"e": "op", "f": "cub", "a": if rng.chance(1, 20) { 0 } else { *rng.pick(&[1, -1, 2, 3]) }, "r": r, "m": m, "n": n, "ks": *rng.pick(&[0, 0, 3, -3, -7, 8, 12, -20, 30, -40, 60])})
            },
        };
        ops.push(op);
    }
    ops
}
