use crate::util::*;
use russell_lab::Vector;
use russell_ode::prelude::*;
use russell_ode::OutCount;
use russell_ode::OutData;
use russell_sparse::{CooMatrix, LinSolParams, Sym};
use serde_json::{json, Value};
use std::collections::HashMap;

/// what the user functions see and keep during a run
pub struct Rec {
    nf: i64,
    nj: i64,
    fmin: f64,
    fmax: f64,
    any: bool,
    evs: Vec<Value>,
    fail: i64,
    failj: i64,
    nan: i64,
    stop: i64,
    serr: i64,
    dstop: i64,
    derr: i64,
    nstep: i64,
    ndense: i64,
    ysc: f64,
    /// unit of time (a power of two): the problem is posed in it, everything logged is free of it
    un: f64,
}

const XS: f64 = 1e8;

fn rat(v: &Value) -> f64 {
    v[0].as_i64().unwrap() as f64 / v[1].as_i64().unwrap() as f64
}
fn method(s: &str) -> Method {
    use Method::*;
    match s {
        "Radau5" => Radau5,
        "BwEuler" => BwEuler,
        "FwEuler" => FwEuler,
        "Rk2" => Rk2,
        "Rk3" => Rk3,
        "Heun3" => Heun3,
        "Rk4" => Rk4,
        "Rk4alt" => Rk4alt,
        "MdEuler" => MdEuler,
        "Merson4" => Merson4,
        "Zonneveld4" => Zonneveld4,
        "Fehlberg4" => Fehlberg4,
        "DoPri5" => DoPri5,
        "Verner6" => Verner6,
        "Fehlberg7" => Fehlberg7,
        "DoPri8" => DoPri8,
        _ => panic!("harness: unknown method"),
    }
}
pub const METHODS: [&str; 16] = [
    "Radau5", "BwEuler", "FwEuler", "Rk2", "Rk3", "Heun3", "Rk4", "Rk4alt", "MdEuler", "Merson4", "Zonneveld4", "Fehlberg4", "DoPri5",
    "Verner6", "Fehlberg7", "DoPri8",
];

fn coef(p: &Value, x: f64) -> f64 {
    let w = geta(p, "w");
    let j = f64::floor(x * geti(p, "den") as f64 - 0.01).max(0.0).min(w.len() as f64 - 1.0) as usize;
    geti(p, if w[j] == 1 { "hi" } else { "lo" }) as f64
}
/// right-hand side without mass matrix: g(x, y)
fn rhs(p: &Value, f: &mut [f64], x: f64, y: &[f64]) {
    let n = f.len();
    match gets(p, "k") {
        // y_i' = sum_k (k+1) a_ik x^k / den
        "poly" => {
            let den = geti(p, "den") as f64;
            let a = geta(p, "a");
            for i in 0..n {
                let mut s = 0.0;
                for (k, c) in a[i].as_array().unwrap().iter().enumerate().rev() {
                    s = s * x + (k as f64 + 1.0) * c.as_i64().unwrap() as f64 / den;
                }
                f[i] = s;
            }
        }
        // y' = A y / den
        "lin" => {
            let den = geti(p, "den") as f64;
            let a = geta(p, "a");
            for i in 0..n {
                f[i] = (0..n).map(|j| a[i][j].as_i64().unwrap() as f64 / den * y[j]).sum();
            }
        }
        // y_i' = -c_i y_i^2  (first), coupled in a chain: y_i' = -y_i y_{i-1} (others)
        "rat" => {
            f[0] = -y[0] * y[0];
            for i in 1..n {
                f[i] = -y[i] * y[i - 1] * (if i % 2 == 1 { 2.0 } else { 1.0 });
            }
        }
        // contractive: y_i' = -c y_i^3 - y_i
        "cube" => {
            let c = geti(p, "c") as f64;
            for i in 0..n {
                f[i] = -c * y[i] * y[i] * y[i];
            }
        }
        // van der Pol oscillator with stiffness parameter
        "vdp" => {
            let c = geti(p, "c") as f64;
            f[0] = y[1];
            f[1] = c * (1.0 - y[0] * y[0]) * y[1] - y[0];
        }
        // y_i' = -c(x) y_i with a coefficient that depends on the stretch
        "word" => {
            let c = coef(p, x);
            for i in 0..n {
                f[i] = -c * y[i];
            }
        }
        // nothing happens until a ramp starts
        "ramp" => {
            let s = rat(&p["s"]);
            for i in 0..n {
                f[i] = if x > s { (x - s) * (i + 1) as f64 - 2.0 * y[i] } else { 0.0 };
            }
        }
        _ => panic!("harness: unknown problem"),
    }
}
fn jac(p: &Value, i: usize, j: usize, x: f64, y: &[f64]) -> f64 {
    match gets(p, "k") {
        "poly" => 0.0,
        "lin" => p["a"][i][j].as_i64().unwrap() as f64 / geti(p, "den") as f64,
        "rat" => {
            if i == 0 {
                if j == 0 {
                    -2.0 * y[0]
                } else {
                    0.0
                }
            } else {
                let c = if i % 2 == 1 { 2.0 } else { 1.0 };
                if j == i {
                    -c * y[i - 1]
                } else if j + 1 == i {
                    -c * y[i]
                } else {
                    0.0
                }
            }
        }
        "cube" => {
            if i == j {
                -3.0 * geti(p, "c") as f64 * y[i] * y[i]
            } else {
                0.0
            }
        }
        "vdp" => {
            let c = geti(p, "c") as f64;
            match (i, j) {
                (0, 0) => 0.0,
                (0, 1) => 1.0,
                (1, 0) => -2.0 * c * y[0] * y[1] - 1.0,
                _ => c * (1.0 - y[0] * y[0]),
            }
        }
        "word" => {
            if i == j {
                -coef(p, x)
            } else {
                0.0
            }
        }
        "ramp" => {
            if i == j && x > rat(&p["s"]) {
                -2.0
            } else {
                0.0
            }
        }
        _ => panic!("harness: unknown problem"),
    }
}

fn system(p: &Value) -> Result<System<'static, Rec>, &'static str> {
    let n = getu(p, "n");
    let mass: Option<Vec<Vec<f64>>> = if has(p, "mass") { Some(geta(p, "mass").iter().map(|r| r.as_array().unwrap().iter().map(|v| v.as_i64().unwrap() as f64).collect()).collect()) } else { None };
    let (p1, m1) = (p.clone(), mass.clone());
    let mut sys = System::new(n, move |f: &mut Vector, x: f64, y: &Vector, r: &mut Rec| {
        r.nf += 1;
        let x = x / r.un;
        if !r.any || x < r.fmin {
            r.fmin = x;
        }
        if !r.any || x > r.fmax {
            r.fmax = x;
        }
        r.any = true;
        if r.fail > 0 && r.nf >= r.fail {
            return Err("user function gave up");
        }
        let mut g = vec![0.0; n];
        rhs(&p1, &mut g, x, y.as_data());
        g.iter_mut().for_each(|v| *v /= r.un);
        for i in 0..n {
            f[i] = match m1.as_ref() {
                Some(m) => (0..n).map(|j| m[i][j] * g[j]).sum(),
                None => g[i],
            };
            if r.nan > 0 && r.nf >= r.nan {
                f[i] = f64::NAN;
            }
        }
        Ok(())
    });
    let kind = |k: &str| match gets(p, k) {
        "full" => Sym::YesFull,
        "lower" => Sym::YesLower,
        "upper" => Sym::YesUpper,
        _ => Sym::No,
    };
    let stored = move |s: Sym, i: usize, j: usize| !(s == Sym::YesLower && j > i || s == Sym::YesUpper && j < i);
    let sym = kind("sym");
    let msym = if has(p, "msym") { kind("msym") } else { sym };
    if gets(p, "jac") == "ana" {
        let (p2, m2) = (p.clone(), mass.clone());
        sys.set_jacobian(None, sym, move |jj: &mut CooMatrix, alpha: f64, x: f64, y: &Vector, r: &mut Rec| {
            r.nj += 1;
            let x = x / r.un;
            if r.failj > 0 && r.nj >= r.failj {
                return Err("user jacobian gave up");
            }
            jj.reset();
            for i in 0..n {
                for j in 0..n {
                    let v = match m2.as_ref() {
                        Some(m) => (0..n).map(|k| m[i][k] * jac(&p2, k, j, x, y.as_data())).sum(),
                        None => jac(&p2, i, j, x, y.as_data()),
                    };
                    if stored(sym, i, j) {
                        jj.put(i, j, alpha * v / r.un)?;
                    }
                }
            }
            Ok(())
        })?;
    }
    if let Some(m) = mass {
        sys.set_mass(None, msym, move |mm: &mut CooMatrix| {
            for i in 0..n {
                for j in 0..n {
                    if stored(msym, i, j) {
                        mm.put(i, j, m[i][j]).unwrap();
                    }
                }
            }
        })?;
    }
    Ok(sys)
}

fn params(m: &str, q: &Value, un: f64) -> Params {
    let mut p = Params::new(method(m));
    let (a, r) = (geti(q, "ta"), geti(q, "tr"));
    p.set_tolerances(10f64.powi(-a as i32), 10f64.powi(-r as i32), None).unwrap();
    p.step.h_ini = rat(&q["hini"]) * un;
    p.step.n_step_max = getu(q, "nmax");
    if has(q, "mmax") {
        // stepsizes are divided by the multipliers in the implicit method and multiplied by them in the explicit ones
        if m == "Radau5" {
            p.step.m_min = 1.0 / geti(q, "mmax") as f64;
        } else {
            p.step.m_max = geti(q, "mmax") as f64;
        }
    }
    p.newton.use_numerical_jacobian = geti(q, "numjac") == 1;
    if geti(q, "linp") == 1 {
        p.newton.lin_sol_params = Some(LinSolParams::new());
    }
    p.bweuler.use_modified_newton = geti(q, "modn") == 1;
    p.radau5.concurrent = geti(q, "conc") == 1;
    p.radau5.use_pred_control = geti(q, "pred") == 1;
    p.radau5.zero_trial = geti(q, "zt") == 1;
    p.erk.lund_beta = geti(q, "lb") as f64 / 100.0;
    p.stiffness.enabled = geti(q, "stiff") == 1;
    p.stiffness.save_results = geti(q, if has(q, "sv") { "sv" } else { "stiff" }) == 1;
    if has(q, "se") {
        p.stiffness.stop_with_error = geti(q, "se") == 1;
    }
    if has(q, "sr") {
        p.stiffness.ratified_after_nstep = getu(q, "sr");
        p.stiffness.ignored_after_nstep = getu(q, "si");
        p.stiffness.skip_first_n_accepted_step = getu(q, "ss");
    }
    p
}

fn bs(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| bits3(*x)).collect())
}

fn output(o: &Value, n: usize, key: &str, un: f64) -> Result<Output<'static, Rec>, &'static str> {
    let comps: Vec<usize> = (0..n).collect();
    let mut out = Output::new();
    if geti(o, "cb") == 1 {
        out.set_step_callback(move |st: &Stats, h: f64, x: f64, y: &Vector, r: &mut Rec| {
            let k = r.nstep;
            let (h, x) = (h / r.un, x / r.un);
            r.nstep += 1;
            let e = json!({"e":"step","k":k,"na":st.n_accepted,"ns":st.n_steps,"nr":st.n_rejected,"nf":st.n_function,"of":r.nf,
                "h":sc(h,XS),"x":sc(x,XS),"xb":bits3(x),"hb":bits3(h),"yb":bs(y.as_data()),"y":scs(y.as_data(),r.ysc),
                "fany":r.any,"fmin":sc(r.fmin,XS),"fmax":sc(r.fmax,XS)});
            r.evs.push(e);
            r.any = false;
            if r.serr > 0 && r.nstep >= r.serr {
                return Err("step callback gave up");
            }
            Ok(r.stop > 0 && r.nstep >= r.stop)
        });
    }
    if geti(o, "dcb") == 1 {
        out.set_dense_callback(move |_st: &Stats, _h: f64, x: f64, y: &Vector, r: &mut Rec| {
            let k = r.ndense;
            let x = x / r.un;
            r.ndense += 1;
            let e = json!({"e":"dense","k":k,"x":sc(x,XS),"xb":bits3(x),"yb":bs(y.as_data()),"y":scs(y.as_data(),r.ysc)});
            r.evs.push(e);
            if r.derr > 0 && r.ndense >= r.derr {
                return Err("dense callback gave up");
            }
            Ok(r.dstop > 0 && r.ndense >= r.dstop)
        });
    }
    if geti(o, "rec") == 1 {
        out.set_step_recording(&comps);
    }
    if has(o, "dh") {
        out.set_dense_h_out(rat(&o["dh"]) * un)?;
    }
    if has(o, "dx") {
        let d = geti(o, "dd") as f64;
        let xs: Vec<f64> = geta(o, "dx").iter().map(|v| v.as_i64().unwrap() as f64 / d * un).collect();
        out.set_dense_x_out(&xs)?;
    }
    if geti(o, "drec") == 1 {
        out.set_dense_recording(&comps);
    }
    if geti(o, "file") == 1 {
        out.set_step_file_writing(&format!("{key}_s"));
        if has(o, "dh") || has(o, "dx") {
            out.set_dense_file_writing(&format!("{key}_d"))?;
        }
    }
    if has(o, "yx") {
        let c = geti(o, "yx") as f64;
        out.set_yx_correct(move |y: &mut Vector, _x: f64, _r: &mut Rec| {
            for i in 0..y.dim() {
                y[i] = c;
            }
        });
    }
    Ok(out)
}

// the number as written in the text: the parser behind the library's reader may be off by one unit in the last place
fn written(text: &str, v: f64) -> f64 {
    text.split(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c)))
        .filter_map(|t| t.parse::<f64>().ok())
        .find(|t| *t == v || (t.is_sign_negative() == v.is_sign_negative() && t.to_bits().abs_diff(v.to_bits()) <= 1))
        .unwrap_or(v)
}

fn files(key: &str, un: f64) -> Value {
    match OutCount::read_json(&format!("{key}_count.json")) {
        Err(_) => json!({"n": -1}),
        Ok(c) => {
            let mut xs = Vec::new();
            let mut ys = Vec::new();
            for k in 0..c.n {
                let name = format!("{key}_{k}.json");
                match OutData::read_json(&name) {
                    Ok(d) => {
                        let text = std::fs::read_to_string(&name).unwrap_or_default();
                        let y: Vec<f64> = d.y.as_data().iter().map(|v| written(&text, *v)).collect();
                        xs.push(bits3(written(&text, d.x) / un));
                        ys.push(bs(&y));
                    }
                    Err(_) => xs.push(json!([-2, 0, 0])),
                }
            }
            json!({"n":c.n,"x":xs,"y":ys})
        }
    }
}

pub fn exec(ops: &[Value], log: &mut Log) {
    log.ev(&json!({"e":"reset"}), ops[0].clone());
    let un = f64::powi(2.0, ops[0].get("tu").map_or(0, |k| k.as_i64().unwrap() as i32));
    let free = |v: &[f64]| v.iter().map(|x| x / un).collect::<Vec<_>>();
    let scratch = std::env::var("VSCRATCH").expect("harness: VSCRATCH");
    let dir = format!("{scratch}/ode{}", std::process::id());
    let mut solvers: HashMap<i64, (OdeSolver<'static, Rec>, usize)> = HashMap::new();
    let mut outs: HashMap<i64, Output<'static, Rec>> = HashMap::new();
    for op in &ops[1..] {
        match gets(op, "e") {
            "new" => {
                let o = obs(
                    || {
                        let sys = system(&op["prob"])?;
                        OdeSolver::new(params(gets(op, "m"), &op["par"], un), sys)
                    },
                    |s| {
                        solvers.insert(geti(op, "s"), (s, getu(&op["prob"], "n")));
                        json!({})
                    },
                );
                let made = o["st"] == "ok";
                log.ev(op, o);
                if !made {
                    return;
                }
            }
            "upd" => {
                let sv = &mut solvers.get_mut(&geti(op, "s")).unwrap().0;
                let o = obs(|| sv.update_params(params(gets(op, "m"), &op["par"], un)), |_| json!({}));
                log.ev(op, o);
            }
            "run" => {
                let (sv, n) = solvers.get_mut(&geti(op, "s")).unwrap();
                let n = *n;
                let xd = geti(op, "xd") as f64;
                let (x0, x1) = (geti(op, "x0") as f64 / xd, geti(op, "x1") as f64 / xd);
                let yd = geti(op, "yd") as f64;
                let y0: Vec<f64> = getf(op, "y0").iter().map(|v| v / yd).collect();
                let mut y = Vector::from(&y0);
                let heq = if has(op, "heq") { Some(rat(&op["heq"])) } else { None };
                let g = |k: &str| if has(op, k) { geti(op, k) } else { 0 };
                let mut rec = Rec {
                    nf: 0,
                    nj: 0,
                    fmin: 0.0,
                    fmax: 0.0,
                    any: false,
                    evs: Vec::new(),
                    fail: g("fail"),
                    failj: g("failj"),
                    nan: g("nan"),
                    stop: g("stop"),
                    serr: g("serr"),
                    dstop: g("dstop"),
                    derr: g("derr"),
                    nstep: 0,
                    ndense: 0,
                    ysc: geti(op, "ysc") as f64,
                    un,
                };
                let oslot = if has(op, "oslot") { geti(op, "oslot") } else { -1 };
                let key = format!("{dir}/k{oslot}");
                let _ = std::fs::remove_dir_all(&dir);
                std::fs::create_dir_all(&dir).unwrap();
                let mut made = json!({"st":"ok"});
                if oslot >= 0 && !outs.contains_key(&oslot) {
                    made = obs(|| output(&op["out"], n, &key, un), |o| {
                        outs.insert(oslot, o);
                        json!({})
                    });
                }
                log.ev(op, json!({"st":made["st"],"x0b":bits3(x0),"x1b":bits3(x1),"y0b":bs(&y0),"x0s":sc(x0,XS),"x1s":sc(x1,XS)}));
                if made["st"] != "ok" {
                    continue;
                }
                let res = guarded(|| match outs.get_mut(&oslot) {
                    Some(out) => sv.solve(&mut y, x0 * un, x1 * un, heq.map(|h| h * un), &mut rec, Some(out)),
                    None => sv.solve(&mut y, x0 * un, x1 * un, heq.map(|h| h * un), &mut rec, None),
                });
                for e in rec.evs.drain(..) {
                    log.ev(&e, json!({}));
                }
                let (st, msg) = match res {
                    Ok(Ok(())) => ("ok", String::new()),
                    Ok(Err(m)) => ("err", m.to_string()),
                    Err(m) => ("panic", m),
                };
                let s = sv.stats();
                let mut end = json!({"e":"end","st":st,"msg":msg,"yb":bs(y.as_data()),"y":scs(y.as_data(),rec.ysc),"fin":y.as_data().iter().all(|v| v.is_finite()),
                    "nf":s.n_function,"nj":s.n_jacobian,"nfac":s.n_factor,"nls":s.n_lin_sol,"ns":s.n_steps,"na":s.n_accepted,"nr":s.n_rejected,"nitm":s.n_iterations_max,
                    "hacc":bits3(s.h_accepted / un),"of":rec.nf,"oj":rec.nj,"fany":rec.any,"fmin":sc(rec.fmin,XS),"fmax":sc(rec.fmax,XS)});
                if let Some(out) = outs.get(&oslot) {
                    let o = &op["out"];
                    if geti(o, "rec") == 1 {
                        end["rx"] = bs(&free(out.step_x()));
                        end["rh"] = bs(&free(out.step_h()));
                        end["ry"] = Value::Array((0..n).map(|m| bs(out.step_y(m))).collect());
                        if has(o, "yx") {
                            end["rg"] = scs(out.step_global_error(), rec.ysc);
                        }
                    }
                    if geti(o, "drec") == 1 {
                        end["dx"] = scs(&free(out.dense_x()), XS);
                        end["dys"] = Value::Array((0..n).map(|m| scs(out.dense_y(m), rec.ysc)).collect());
                        end["dy"] = Value::Array((0..n).map(|m| bs(out.dense_y(m))).collect());
                    }
                    if geti(o, "file") == 1 {
                        end["fs"] = files(&format!("{key}_s"), un);
                        end["fd"] = if has(o, "dh") || has(o, "dx") { files(&format!("{key}_d"), un) } else { json!({"n": -1}) };
                    }
                    end["stn"] = json!([out.stiff_step_index().len(), out.stiff_x().len(), out.stiff_h_times_rho().len()]);
                    end["sti"] = json!(out.stiff_step_index());
                    end["stx"] = scs(&free(out.stiff_x()), XS);
                    end["sth"] = scs(out.stiff_h_times_rho(), 1e6);
                }
                log.ev(&end, json!({}));
                if has(op, "dord") && st == "ok" {
                    let mut d = op.clone();
                    d["e"] = json!("dord");
                    log.ev(&d, json!({"st":"ok","dys":end["dys"]}));
                }
                let _ = std::fs::remove_dir_all(&dir);
            }
            _ => panic!("harness: unknown op"),
        }
    }
}

/// chooses a unit of time; the initial stepsize must not be below its limit
fn timed(rng: &mut Rng, mut ops: Vec<Value>) -> Vec<Value> {
    if rng.chance(1, 3) {
        // kinks and fast transients need very small steps, for which there is an absolute limit
        let smooth = ops.iter().filter(|op| has(op, "prob")).all(|op| ["poly", "lin", "rat"].contains(&gets(&op["prob"], "k")));
        let tu = *rng.pick(if smooth { &[-5, -12, -16, -24, -24] } else { &[-3, -5, -8, -10, -12] });
        ops[0]["tu"] = json!(tu);
        if tu == -24 {
            let h = *rng.pick(&[[1, 4], [1, 2], [1, 1]]);
            for op in ops.iter_mut().filter(|op| has(op, "par")) {
                op["par"]["hini"] = json!(h);
            }
        }
    }
    ops
}
fn embedded(m: &str) -> bool {
    method(m).information().embedded
}
fn dense_ok(m: &str) -> bool {
    ["Radau5", "DoPri5", "DoPri8"].contains(&m)
}
fn base_par(rng: &mut Rng) -> Value {
    json!({"ta":rng.int(5,9),"tr":rng.int(5,9),"hini":*rng.pick(&[[1,16],[1,64],[1,4],[1,100],[1,1000]]),"nmax":10000,"mmax":rng.int(2,5),
        "numjac":rng.int(0,1),"linp":rng.int(0,1),"modn":rng.int(0,1),"conc":0,"pred":rng.int(0,1),"zt":rng.int(0,1),"lb":*rng.pick(&[0,4]),"stiff":0})
}
fn poly(rng: &mut Rng, n: usize, deg: usize) -> Value {
    let a: Vec<Vec<i64>> = (0..n).map(|_| rng.ints(deg + 1, -2, 2)).collect();
    json!({"k":"poly","n":n,"a":a,"den":*rng.pick(&[1,2,4]),"jac":*rng.pick(&["ana","num"]),"sym":"no"})
}
fn lin(rng: &mut Rng, n: usize) -> Value {
    let mut a: Vec<Vec<i64>> = (0..n).map(|_| rng.ints(n, -2, 2)).collect();
    let sym = rng.chance(1, 3);
    if sym {
        for i in 0..n {
            for j in 0..i {
                a[i][j] = a[j][i];
            }
        }
    }
    json!({"k":"lin","n":n,"a":a,"den":*rng.pick(&[1,2,4]),"jac":*rng.pick(&["ana","num"]),"sym":if sym {*rng.pick(&["full","full","full","full","lower","upper"])} else {"no"}})
}
fn ratp(rng: &mut Rng, n: usize) -> Value {
    json!({"k":"rat","n":n,"jac":*rng.pick(&["ana","num"]),"sym":"no"})
}
fn mass(rng: &mut Rng, p: &mut Value) {
    let n = getu(p, "n");
    if rng.chance(1, 8) {
        // storage kinds of the two matrices must agree
        p["msym"] = json!(*rng.pick(&["no", "full", "lower"]));
    }
    if gets(p, "sym") != "no" {
        if rng.chance(1, 2) {
            p["mass"] = json!((0..n).map(|i| (0..n).map(|j| if i == j { 2 } else { 0 }).collect::<Vec<i64>>()).collect::<Vec<_>>());
        }
        return;
    }
    // unit lower times unit upper triangular factors: always invertible
    let mut l = vec![vec![0i64; n]; n];
    let mut u = vec![vec![0i64; n]; n];
    for i in 0..n {
        l[i][i] = 1;
        u[i][i] = rng.int(1, 2);
        for j in 0..i {
            l[i][j] = rng.int(-1, 1);
            u[j][i] = rng.int(-1, 1);
        }
    }
    let m: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| (0..n).map(|k| l[i][k] * u[k][j]).sum()).collect()).collect();
    p["mass"] = json!(m);
}
fn no_out() -> Value {
    json!({"cb":1,"rec":0,"dcb":0,"drec":0,"file":0})
}

/// run protocol: faults, stops, limits, fixed and adaptive stepping
pub fn random_a(rng: &mut Rng, thorough: bool) -> Vec<Value> {
    let ops = draw_a(rng, thorough);
    timed(rng, ops)
}
fn draw_a(rng: &mut Rng, _thorough: bool) -> Vec<Value> {
    let m = *rng.pick(&METHODS);
    let n = rng.us(1, 3);
    let info = method(m).information();
    let mut prob = match rng.us(0, 9) {
        0..=2 => {
            let d = rng.us(0, info.order.min(4) - 1);
            poly(rng, n, d)
        }
        3 | 4 => lin(rng, n),
        5 | 6 => ratp(rng, n),
        7 => json!({"k":"cube","n":n,"c":*rng.pick(&[1,10,300]),"jac":*rng.pick(&["ana","num"]),"sym":*rng.pick(&["no","no","full","full","lower"])}),
        8 => json!({"k":"vdp","n":2,"c":*rng.pick(&[1,5]),"jac":"ana","sym":"no"}),
        _ => json!({"k":"ramp","n":n,"s":[1,2],"jac":*rng.pick(&["ana","num"]),"sym":"no"}),
    };
    let n = getu(&prob, "n");
    if m == "Radau5" && rng.chance(1, 4) && gets(&prob, "k") != "cube" {
        mass(rng, &mut prob);
    }
    let mut par = base_par(rng);
    if ["MdEuler", "Merson4", "Zonneveld4", "Fehlberg4"].contains(&m) {
        par["ta"] = json!(5);
        par["tr"] = json!(5);
    }
    if m == "MdEuler" {
        par["ta"] = json!(3);
        par["tr"] = json!(3);
    }
    if m == "BwEuler" && rng.chance(1, 2) {
        par["linp"] = json!(0);
    }
    let mut ops = vec![json!({"mode":"A"}), json!({"e":"new","s":0,"m":m,"prob":prob,"par":par})];
    let nrun = rng.us(1, 2);
    for q in 0..nrun {
        let xd = *rng.pick(&[1, 2, 4, 10]);
        let x0 = rng.int(-2, 2);
        let mut x1 = x0 + rng.int(1, 2 * xd.min(4));
        if gets(&prob, "k") == "ramp" {
            x1 = x0 + 2 * xd;
        }
        let (y0, yd): (Vec<i64>, i64) = if gets(&prob, "k") == "rat" { (rng.ints(n, 1, 2), 2) } else { (rng.ints(n, -2, 2), 1) };
        let mut run = json!({"e":"run","s":0,"x0":x0,"x1":x1,"xd":xd,"y0":y0,"yd":yd,"ysc":100000,"oslot":q,"out":no_out()});
        let fixed = !embedded(m) || rng.chance(1, 3);
        if fixed {
            // number of steps of at most a few dozen
            run["heq"] = json!(*rng.pick(&[[1, 4], [1, 8], [1, 16], [3, 10], [1, 10], [1, 49], [1, 47], [2, 7], [1, 1], [5, 1]]));
            if !["poly", "lin", "rat", "ramp"].contains(&gets(&prob, "k")) && !info.implicit {
                run["heq"] = json!([1, 49]);
            }
        }
        match rng.us(0, 15) {
            0 => run["fail"] = json!(rng.int(1, 40)),
            1 => run["failj"] = json!(rng.int(1, 6)),
            2 => run["nan"] = json!(rng.int(1, 60)),
            3 | 4 => run["stop"] = json!(rng.int(1, 9)),
            5 => run["serr"] = json!(rng.int(1, 6)),
            6 => run["x1"] = json!(x0 - rng.int(0, 1)),
            7 => run["heq"] = json!([rng.int(-1, 0), 4]),
            8 => run["y0"] = json!(rng.ints(n + 1, 0, 1)),
            9 | 10 if embedded(m) => {
                // a limit on the number of steps: own solver
                let mut par2 = par.clone();
                par2["nmax"] = json!(rng.int(1, 12));
                ops.push(json!({"e":"upd","s":0,"m":m,"par":par2}));
                if dense_ok(m) && rng.chance(1, 2) {
                    run["out"]["drec"] = json!(1);
                    run["out"]["dh"] = json!([1, 4]);
                }
            }
            _ => (),
        }
        ops.push(run);
    }
    ops
}

/// output: step and dense records, callbacks, files, stops
pub fn random_b(rng: &mut Rng, thorough: bool) -> Vec<Value> {
    let ops = draw_b(rng, thorough);
    timed(rng, ops)
}
fn draw_b(rng: &mut Rng, _thorough: bool) -> Vec<Value> {
    let m = *rng.pick(&["Radau5", "DoPri5", "DoPri8", "DoPri5", "DoPri8", "Radau5", "Rk4", "Verner6", "BwEuler", "FwEuler", "MdEuler", "Fehlberg7"]);
    let n = rng.us(1, 2);
    let prob = match rng.us(0, 3) {
        0 | 1 => {
            let cap = match m {
                "DoPri8" => 5,
                "DoPri5" => 3,
                _ => 2,
            };
            let d = rng.us(0, cap.min(method(m).information().order - 1));
            poly(rng, n, d)
        }
        2 => ratp(rng, n),
        _ => lin(rng, n),
    };
    let mut par = base_par(rng);
    par["mmax"] = json!(rng.int(2, 5));
    if m == "MdEuler" {
        par["ta"] = json!(4);
        par["tr"] = json!(4);
    }
    par["stiff"] = json!(if rng.chance(1, 6) { 1 } else { 0 });
    let mut ops = vec![json!({"mode":"B"}), json!({"e":"new","s":0,"m":m,"prob":prob,"par":par})];
    let dense = dense_ok(m) && rng.chance(4, 5) || rng.chance(1, 15);
    let xd = *rng.pick(&[1i64, 2, 4]);
    let mut o = json!({"cb":rng.int(0,1),"rec":rng.int(0,1),"dcb":0,"drec":0,"file":if rng.chance(1,3) {1} else {0}});
    let x0 = rng.int(-2, 0);
    let len = rng.int(1, 3 * xd.min(2));
    if dense {
        o["dcb"] = json!(rng.int(0, 1));
        o["drec"] = json!(if o["dcb"] == 0 { 1 } else { rng.int(0, 1) });
        match rng.us(0, 3) {
            0 => (),
            1 => {
                // interior list in units of 1/(8 xd)
                let dd = 8 * xd;
                let low = if rng.chance(1, 5) { 0 } else { 1 };
                let mut xs: Vec<i64> = (0..rng.us(0, 7)).map(|_| 8 * x0 + rng.int(low, 8 * len - 1)).collect();
                xs.sort();
                if !rng.chance(1, 12) {
                    xs.dedup();
                }
                if rng.chance(1, 20) {
                    xs.reverse();
                }
                o["dx"] = json!(xs);
                o["dd"] = json!(dd);
            }
            _ => o["dh"] = json!(*rng.pick(&[[1, 4], [1, 8], [3, 8], [1, 2], [5, 16], [1, 1], [7, 1], [1, 10], [3, 10]])),
        }
    }
    if rng.chance(1, 3) {
        o["yx"] = json!(rng.int(-1, 1));
    }
    let nrun = rng.us(1, 3);
    for q in 0..nrun {
        let len = if has(&o, "dx") || rng.chance(1, 2) { len } else { rng.int(1, 3 * xd.min(2)) };
        let x0 = if has(&o, "dx") || rng.chance(1, 3) { x0 } else { rng.int(-2, 0) };
        let (y0, yd): (Vec<i64>, i64) = if gets(&prob, "k") == "rat" { (rng.ints(n, 1, 2), 2) } else { (rng.ints(n, -2, 2), 1) };
        // the same output object is used again and again, or a new one
        let mut run = json!({"e":"run","s":0,"x0":x0,"x1":x0+len,"xd":xd,"y0":y0,"yd":yd,"ysc":100000,"oslot":0,"out":o});
        if !embedded(m) || rng.chance(1, 3) {
            run["heq"] = json!(*rng.pick(&[[1, 4], [1, 8], [1, 3], [1, 10]]));
        }
        match rng.us(0, 9) {
            0 => run["fail"] = json!(rng.int(1, 60)),
            1 if o["cb"] == 1 => run["stop"] = json!(rng.int(1, 9)),
            2 if o["dcb"] == 1 => run["dstop"] = json!(rng.int(1, 9)),
            3 if o["dcb"] == 1 => run["derr"] = json!(rng.int(1, 9)),
            4 if embedded(m) && q == 0 => {
                let mut par2 = par.clone();
                par2["nmax"] = json!(rng.int(1, 9));
                ops.push(json!({"e":"upd","s":0,"m":m,"par":par2}));
            }
            _ => (),
        }
        ops.push(run);
    }
    ops
}

/// histories: the same run is made by fresh and used solvers, with and without output, after failures and stops
pub fn random_c(rng: &mut Rng, thorough: bool) -> Vec<Value> {
    let ops = draw_c(rng, thorough);
    timed(rng, ops)
}
fn draw_c(rng: &mut Rng, _thorough: bool) -> Vec<Value> {
    let m = *rng.pick(&["Radau5", "Radau5", "Radau5", "BwEuler", "DoPri5", "DoPri8", "DoPri8", "DoPri5", "Rk4", "Fehlberg4", "Verner6", "Merson4", "MdEuler", "FwEuler", "Fehlberg7", "Zonneveld4", "Heun3"]);
    let n = rng.us(1, 3);
    let mut prob = match rng.us(0, 6) {
        0 => poly(rng, n, 2),
        1 | 2 => lin(rng, n),
        3 => ratp(rng, n),
        4 => json!({"k":"vdp","n":2,"c":*rng.pick(&[1,8]),"jac":"ana","sym":"no"}),
        5 => json!({"k":"cube","n":n,"c":10,"jac":"ana","sym":*rng.pick(&["no","no","full","full","lower"])}),
        _ => json!({"k":"ramp","n":n,"s":[1,4],"jac":"ana","sym":"no"}),
    };
    if m == "Radau5" && rng.chance(1, 4) {
        mass(rng, &mut prob);
    }
    let n = getu(&prob, "n");
    let mut pars = Vec::new();
    for _ in 0..2 {
        let mut p = base_par(rng);
        p["mmax"] = json!(rng.int(2, 5));
        if m == "MdEuler" {
            p["ta"] = json!(4);
            p["tr"] = json!(4);
        }
        pars.push(p);
    }
    let kinds: Vec<Value> = (0..3)
        .map(|_| {
            let xd = *rng.pick(&[1, 2, 4]);
            let x0 = rng.int(-1, 1);
            let (y0, yd): (Vec<i64>, i64) = if gets(&prob, "k") == "rat" { (rng.ints(n, 1, 2), 2) } else { (rng.ints(n, -2, 2), 1) };
            let mut r = json!({"e":"run","s":0,"x0":x0,"x1":x0+rng.int(1, 2*xd),"xd":xd,"y0":y0,"yd":yd,"ysc":100000});
            if !embedded(m) || rng.chance(1, 4) {
                r["heq"] = json!(*rng.pick(&[[1, 4], [1, 8], [1, 16]]));
            }
            r
        })
        .collect();
    let outs = [json!({"cb":1,"rec":1,"dcb":0,"drec":0,"file":0}), json!({"cb":0,"rec":0,"dcb":0,"drec":1,"file":0,"dh":[1,8]})];
    let mut ops = vec![json!({"mode":"C"})];
    let mut cur: HashMap<i64, usize> = HashMap::new();
    let mut nslot = 0;
    let mut os = 0;
    for _ in 0..rng.us(3, 9) {
        if nslot == 0 || rng.chance(1, 4) {
            let p = rng.us(0, 1);
            ops.push(json!({"e":"new","s":nslot,"m":m,"prob":prob,"par":pars[p]}));
            cur.insert(nslot, p);
            nslot += 1;
        }
        let s = rng.int(0, nslot - 1);
        if rng.chance(1, 6) {
            let p = rng.us(0, 1);
            ops.push(json!({"e":"upd","s":s,"m":m,"par":pars[p]}));
            cur.insert(s, p);
        }
        let k = rng.us(0, 2);
        let mut r = kinds[k].clone();
        r["s"] = json!(s);
        let mut faulty = false;
        match rng.us(0, 7) {
            0 => {
                r["fail"] = json!(rng.int(1, 60));
                faulty = true;
            }
            1 => {
                r["nan"] = json!(rng.int(1, 60));
                faulty = true;
            }
            2 => {
                r["stop"] = json!(rng.int(1, 6));
                r["out"] = outs[0].clone();
                r["oslot"] = json!(os);
                os += 1;
                faulty = true;
            }
            _ => (),
        }
        if !faulty && rng.chance(1, 3) {
            let d = dense_ok(m) && rng.chance(1, 2);
            r["out"] = outs[d as usize].clone();
            r["oslot"] = json!(os);
            os += 1;
            r["dn"] = json!(d as i64);
        }
        r["key"] = json!(k * 2 + cur[&s]);
        ops.push(r);
    }
    ops
}

/// stiffness detection: words of signals with equal steps, and adaptive runs along the border of the stability region
pub fn random_e(rng: &mut Rng, thorough: bool) -> Vec<Value> {
    let ops = draw_e(rng, thorough);
    timed(rng, ops)
}
fn draw_e(rng: &mut Rng, _thorough: bool) -> Vec<Value> {
    let m = *rng.pick(&["DoPri5", "DoPri5", "DoPri5", "DoPri8", "DoPri8", "DoPri8", "Fehlberg4", "Merson4", "Radau5"]);
    let n = rng.us(1, 2);
    let fixed = rng.chance(1, 2);
    let len = if fixed { rng.us(1, 24) } else { rng.us(1, 4) };
    let hot = rng.int(1, 3);
    let w: Vec<i64> = (0..len).map(|_| if rng.int(0, 3) < hot { 1 } else { 0 }).collect();
    let prob = if fixed {
        let hi = if m == "DoPri8" { rng.int(25, 32) } else { rng.int(14, 16) };
        json!({"k":"word","n":n,"w":w,"hi":hi,"lo":rng.int(1, 12),"den":4,"jac":*rng.pick(&["ana","num"]),"sym":"no"})
    } else {
        json!({"k":"word","n":n,"w":w,"hi":rng.int(60, 200),"lo":rng.int(1, 20),"den":2,"jac":*rng.pick(&["ana","num"]),"sym":"no"})
    };
    let pars: Vec<Value> = (0..2)
        .map(|_| {
            let mut p = base_par(rng);
            p["ta"] = json!(rng.int(1, 3));
            p["tr"] = json!(rng.int(2, 4));
            p["mmax"] = json!(5);
            p["stiff"] = json!(if rng.chance(1, 10) { 0 } else { 1 });
            if rng.chance(1, 5) {
                p["sv"] = json!(rng.int(0, 1));
            }
            if rng.chance(4, 5) {
                p["se"] = json!(rng.int(0, 1));
            }
            if rng.chance(3, 4) {
                p["sr"] = json!(rng.int(1, 8));
                p["si"] = json!(rng.int(1, 4));
                p["ss"] = json!(rng.int(0, 8));
            }
            p
        })
        .collect();
    let mut ops = vec![json!({"mode":"E"}), json!({"e":"new","s":0,"m":m,"prob":prob,"par":pars[0]})];
    let y0: Vec<i64> = (0..n).map(|_| rng.int(10000, 1000000)).collect();
    for k in 0..rng.us(1, 3) {
        if k > 0 && rng.chance(1, 3) {
            ops.push(json!({"e":"upd","s":0,"m":m,"par":*rng.pick(&pars)}));
        }
        let out = json!({"cb":1,"rec":0,"dcb":0,"drec":0,"file":0});
        let mut run = json!({"e":"run","s":0,"x0":0,"x1":rng.int(1, len as i64),"xd":if fixed {4} else {2},"y0":y0,"yd":1,"ysc":1,"oslot":rng.int(0, 1),"out":out});
        if fixed {
            run["heq"] = json!([1, 4]);
        }
        ops.push(run);
    }
    ops
}

/// order of the dense output
fn dense_order(rng: &mut Rng) -> Vec<Value> {
    let m = *rng.pick(&["DoPri5", "DoPri8", "Radau5"]);
    let n = rng.us(1, 2);
    let mut prob = ratp(rng, n);
    if m == "Radau5" && rng.chance(1, 3) {
        mass(rng, &mut prob);
        prob.as_object_mut().unwrap().remove("msym");
    }
    let mut par = base_par(rng);
    par["ta"] = json!(7);
    par["tr"] = json!(7);
    let xd = *rng.pick(&[1, 2]);
    let (x0, y0) = (rng.int(-1, 1), rng.ints(n, 1, 2));
    let h = *rng.pick(if m == "Radau5" { &[[1, 8], [1, 8]] } else { &[[1, 4], [1, 8]] });
    let out = json!({"cb":0,"rec":0,"dcb":0,"drec":1,"file":0,"dh":[1, *rng.pick(&[32, 20, 64, 48])]});
    let mut run = json!({"e":"run","s":0,"x0":x0,"x1":x0+rng.int(1, xd),"xd":xd,"y0":y0,"yd":2,"ysc":1000000000,"heq":h,"oslot":0,"out":out});
    if m == "DoPri8" {
        run["dord"] = json!(1);
    }
    vec![json!({"mode":"F"}), json!({"e":"new","s":0,"m":m,"prob":prob,"par":par}), run]
}

/// exactness: polynomial, linear and rational problems with fixed and adaptive steps
pub fn random_d(rng: &mut Rng, thorough: bool) -> Vec<Value> {
    let ops = draw_d(rng, thorough);
    timed(rng, ops)
}
fn draw_d(rng: &mut Rng, _thorough: bool) -> Vec<Value> {
    if rng.chance(1, 8) {
        return dense_order(rng);
    }
    let m = *rng.pick(&METHODS);
    let info = method(m).information();
    let n = rng.us(1, 2);
    let kind = rng.us(0, 3);
    let mut prob = match kind {
        0 => {
            let d = if rng.chance(1, 2) { info.order - 1 } else { rng.us(0, info.order - 1) };
            poly(rng, n, d)
        }
        1 | 2 => lin(rng, n),
        _ => ratp(rng, n),
    };
    if m == "Radau5" && rng.chance(1, 3) {
        mass(rng, &mut prob);
    }
    let mut par = base_par(rng);
    par["ta"] = json!(9);
    par["tr"] = json!(9);
    par["conc"] = json!(if rng.chance(1, 6) { 1 } else { 0 });
    let adaptive = embedded(m) && rng.chance(1, 3);
    if adaptive {
        let t = if m == "MdEuler" { 4 } else { rng.int(4, 7) };
        par["ta"] = json!(t);
        par["tr"] = json!(t);
    }
    let mut ops = vec![json!({"mode":"D"}), json!({"e":"new","s":0,"m":m,"prob":prob,"par":par})];
    let mut run = match kind {
        0 => {
            let x0 = rng.int(-2, 1);
            json!({"e":"run","s":0,"x0":x0,"x1":rng.int(x0+1,2),"xd":1,"y0":rng.ints(n,-3,3),"yd":1,"ysc":100000})
        }
        _ => {
            let q = *rng.pick(&[2, 4, 8]);
            let x0 = rng.int(-4, 4);
            let len = if adaptive || kind == 3 { rng.int(1, 8) } else { rng.int(1, 2) };
            let y0 = if kind == 3 { vec![1; n] } else { rng.ints(n, -3, 3) };
            json!({"e":"run","s":0,"x0":x0,"x1":x0+len,"xd":q,"y0":y0,"yd":1,"ysc":1000000,"heq":[1,q]})
        }
    };
    if adaptive {
        run.as_object_mut().unwrap().remove("heq");
    } else if kind == 0 {
        run["heq"] = json!(*rng.pick(&[[1, 1], [1, 2], [1, 4], [1, 3], [2, 5]]));
    }
    ops.push(run);
    ops
}
