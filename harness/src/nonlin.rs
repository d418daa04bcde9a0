use crate::util::*;
use russell_lab::{Norm, Vector};
use russell_nonlin::{Config, DeltaLambda, IniDir, Method, Output, RdiffType, SoderlindClass, Solver, Status, Stop, System};
use russell_sparse::{CooMatrix, LinSolParams, Sym};
use serde_json::{json, Value};
use std::collections::HashMap;

const LS: f64 = 1e8;
const US: f64 = 1e6;
const GS: f64 = 1e12;

/// what the user functions see and keep during a run
pub struct Rec {
    evs: Vec<Value>,
    nf: i64,
    nj: i64,
    nsup: i64,
    nout: i64,
    f: Value,
}
impl Rec {
    fn hit(&self, k: &str, n: i64) -> bool {
        match &self.f[k] {
            Value::Number(x) => x.as_i64().unwrap() == n,
            Value::Array(a) => a.iter().any(|x| x.as_i64().unwrap() == n),
            _ => false,
        }
    }
}

fn rat(v: &Value) -> f64 {
    v[0].as_i64().unwrap() as f64 / v[1].as_i64().unwrap() as f64
}
fn bs(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| bits3(*x)).collect())
}

fn coef(p: &Value, k: &str, i: usize) -> f64 {
    p[k][i].as_i64().unwrap() as f64
}
/// G_i = sum_j a_ij u_j + q_i u_i^2 + c_i u_i^3 + p_i l + r_i l^2 + d_i
fn gg(p: &Value, g: &mut [f64], l: f64, u: &[f64]) {
    let n = g.len();
    for i in 0..n {
        let mut s = coef(p, "d", i) + coef(p, "p", i) * l + coef(p, "r", i) * l * l + (coef(p, "q", i) + coef(p, "c", i) * u[i]) * u[i] * u[i];
        for j in 0..n {
            s += p["a"][i][j].as_i64().unwrap() as f64 * u[j];
        }
        g[i] = s;
    }
}
fn jac(p: &Value, i: usize, j: usize, u: &[f64]) -> f64 {
    let mut s = p["a"][i][j].as_i64().unwrap() as f64;
    if i == j {
        s += 2.0 * coef(p, "q", i) * u[i] + 3.0 * coef(p, "c", i) * u[i] * u[i];
    }
    s
}

fn system(p: &Value) -> Result<System<'static, Rec>, &'static str> {
    let n = getu(p, "n");
    let sym = match gets(p, "sym") {
        "lower" => Sym::YesLower,
        "full" => Sym::YesFull,
        _ => Sym::No,
    };
    let (p1, p2) = (p.clone(), p.clone());
    let tri = gets(p, "sym") == "lower";
    let nnz = if geti(p, "nnz") == 1 { Some(if tri { n * (n + 1) / 2 } else { n * n }) } else { None };
    let mut sys = System::new(
        n,
        nnz,
        sym,
        move |g: &mut Vector, l: f64, u: &Vector, a: &mut Rec| {
            a.nf += 1;
            if a.hit("ggerr", a.nf) {
                a.evs.push(json!({"e":"ggerr","ub":bs(u.as_data()),"lb":bits3(l)}));
                return Err("user function gave up");
            }
            gg(&p1, g.as_mut_data(), l, u.as_data());
            if a.hit("ggnan", a.nf) {
                g[0] = f64::NAN;
            }
            let m = g.as_data().iter().fold(0.0, |m: f64, x| if x.is_nan() { x.abs() } else { m.max(x.abs()) });
            let fin = g.as_data().iter().all(|x| x.is_finite());
            a.evs.push(json!({"e":"gg","ub":bs(u.as_data()),"lb":bits3(l),"u":scs(u.as_data(),US),"l":sc(l,LS),"rb":bits3(m),"g":scs(g.as_data(),GS),"fin":fin}));
            Ok(())
        },
        move |ggu: &mut CooMatrix, ggl: &mut Vector, l: f64, u: &Vector, a: &mut Rec| {
            a.nj += 1;
            if a.hit("jacerr", a.nj) {
                a.evs.push(json!({"e":"jacerr","ub":bs(u.as_data()),"lb":bits3(l)}));
                return Err("user jacobian gave up");
            }
            let mut rows = Vec::new();
            for i in 0..n {
                let mut row = Vec::new();
                for j in 0..n {
                    let v = jac(&p2, i, j, u.as_data());
                    if !tri || j <= i {
                        ggu.put(i, j, v)?;
                    }
                    row.push(json!(sc(v, 1e3)));
                }
                ggl[i] = coef(&p2, "p", i) + 2.0 * coef(&p2, "r", i) * l;
                row.push(json!(sc(ggl[i], 1e3)));
                rows.push(Value::Array(row));
            }
            a.evs.push(json!({"e":"jac","ub":bs(u.as_data()),"lb":bits3(l),"j":rows}));
            Ok(())
        },
    )?;
    if geti(p, "hooks") == 1 {
        sys.set_backup_secondary_state(|a: &mut Rec| a.evs.push(json!({"e":"bak"})));
        sys.set_restore_secondary_state(|a: &mut Rec| a.evs.push(json!({"e":"res"})));
        sys.set_prepare_to_iterate(|a: &mut Rec| a.evs.push(json!({"e":"prep"})));
        sys.set_update_secondary_state(|b: bool, u0: &Vector, u1: &Vector, l0: f64, l1: f64, a: &mut Rec| {
            a.nsup += 1;
            let ret = if a.hit("superr", a.nsup) {
                "err"
            } else if a.hit("supterm", a.nsup) {
                "term"
            } else {
                "ok"
            };
            a.evs.push(json!({"e":"sup","b":b,"ret":ret,"u0b":bs(u0.as_data()),"u1b":bs(u1.as_data()),"l0b":bits3(l0),"l1b":bits3(l1),
                "u0":scs(u0.as_data(),US),"u1":scs(u1.as_data(),US),"l0":sc(l0,LS),"l1":sc(l1,LS)}));
            match ret {
                "err" => Err("secondary update gave up"),
                "term" => Ok(true),
                _ => Ok(false),
            }
        });
    }
    Ok(sys)
}

fn config(c: &Value) -> Config {
    let mut k = Config::new();
    k.set_verbose_header_footer(false);
    k.set_method(if gets(c, "m") == "arc" { Method::Arclength } else { Method::Natural });
    k.set_bordering(geti(c, "bord") == 1).set_euler_predictor(geti(c, "euler") == 1);
    k.set_m_failure(rat(&c["mf"])).set_n_step_max(getu(c, "nst")).set_n_cont_failure_max(getu(c, "ncf"));
    k.set_n_iteration_max(getu(c, "nit"));
    k.set_tol_abs_residual(10f64.powi(-geti(c, "tr") as i32));
    k.set_tol_delta(10f64.powi(-geti(c, "ta") as i32), 10f64.powi(-geti(c, "tb") as i32));
    k.set_delta_max_allowed(rat(&c["dmax"]));
    k.set_disable_rel_delta_analysis(geti(c, "norel") == 1);
    k.set_enable_precise_stop_u_comp(geti(c, "prec") == 1);
    k.set_debug_predictor(geti(c, "dbg") == 1);
    k.set_record_iterations_residuals(geti(c, "rit") == 1);
    k.set_nr_control_enabled(geti(c, "nr") == 1).set_tg_control_enabled(geti(c, "tg") == 1).set_tg_control_pid_vcc(geti(c, "pid") == 1);
    let cls = match gets(c, "cls") {
        "Ho211" => SoderlindClass::Ho211,
        "H211b" => SoderlindClass::H211b(4.0),
        "Ho312" => SoderlindClass::Ho312,
        "H312b" => SoderlindClass::H312b(8.0),
        "H312PID" => SoderlindClass::H312PID,
        "Ho321" => SoderlindClass::Ho321,
        "H321" => SoderlindClass::H321,
        _ => SoderlindClass::H211PI,
    };
    k.set_tg_control_soderlind(cls);
    k.set_tg_control_rdiff_type(if geti(c, "rmax") == 1 { RdiffType::Max } else { RdiffType::Ave });
    if geti(c, "linp") == 1 {
        k.set_lin_sol_config(Some(LinSolParams::new()));
    }
    k
}
fn norm(s: &str) -> Norm {
    match s {
        "one" => Norm::One,
        "euc" => Norm::Euc,
        _ => Norm::Max,
    }
}
fn stop(s: &Value) -> Stop {
    match gets(s, "k") {
        "minu" => Stop::MinCompU(getu(s, "i") - 1, rat(&s["v"])),
        "maxu" => Stop::MaxCompU(getu(s, "i") - 1, rat(&s["v"])),
        "norm" => Stop::MaxNormU(rat(&s["v"]), norm(gets(s, "n")), getu(s, "b"), getu(s, "t")),
        "minl" => Stop::MinLambda(rat(&s["v"])),
        "maxl" => Stop::MaxLambda(rat(&s["v"])),
        _ => Stop::Steps(getu(s, "i")),
    }
}
fn status(s: &Status) -> &'static str {
    match s {
        Status::BorderingSmallDenominator => "den",
        Status::LargeDelta => "large",
        Status::ReachedMaxIterations => "maxit",
        Status::ContinuedResidualDivergence => "rdiv",
        Status::ContinuedDeltaDivergence => "ddiv",
        Status::Rejection => "rej",
        Status::SecondaryUpdateError(_) => "superr",
        Status::UnmetStopCriterion => "unmet",
        Status::SmallStepsize => "small",
        Status::SecondaryUpdateTerminate => "supterm",
        Status::ContinuedFailure => "contfail",
        Status::ContinuedRejection => "contrej",
        Status::NanOrInfResidual => "nanres",
        Status::NanOrInfDelta => "nandelta",
        Status::Success => "success",
    }
}

pub fn exec(ops: &[Value], log: &mut Log) {
    log.ev(&json!({"e":"reset"}), ops[0].clone());
    let mut solvers: HashMap<i64, (Solver<'static, Rec>, usize)> = HashMap::new();
    for op in &ops[1..] {
        match gets(op, "e") {
            "new" => {
                // configurations live as long as the process
                let cfg: &'static Config = Box::leak(Box::new(config(&op["cfg"])));
                let o = obs(
                    || Solver::new(cfg, system(&op["sys"])?),
                    |s| {
                        solvers.insert(geti(op, "s"), (s, getu(&op["sys"], "n")));
                        json!({})
                    },
                );
                log.ev(op, o.merge(json!({"tolb":bits3(10f64.powi(-geti(&op["cfg"], "tr") as i32))})));
            }
            "run" => {
                let Some((sv, n)) = solvers.get_mut(&geti(op, "s")) else { return };
                let n = *n;
                let d = geti(op, "d") as f64;
                let u0: Vec<f64> = getf(op, "u0").iter().map(|v| v / d).collect();
                let l0 = geti(op, "l0") as f64 / d;
                let (mut u, mut l) = (Vector::from(&u0), l0);
                let st = stop(&op["stop"]);
                let dl = &op["ddl"];
                let v: Vec<f64> = geta(dl, "v").iter().map(rat).collect();
                let ddl = match gets(dl, "k") {
                    "auto" => DeltaLambda::auto(v[0]),
                    "const" => DeltaLambda::constant(v[0]),
                    _ => DeltaLambda::list(&v),
                };
                let dir = if geti(op, "dir") > 0 { IniDir::Pos } else { IniDir::Neg };
                let mut rec = Rec { evs: Vec::new(), nf: 0, nj: 0, nsup: 0, nout: 0, f: op["f"].clone() };
                let mut out = Output::new();
                let all: Vec<usize> = (0..n).collect();
                if geti(op, "rec") == 1 {
                    out.set_recording(true, &all, &all).set_record_norm_u(true, Norm::Max, 0, n);
                }
                if geti(op, "cb") == 1 {
                    out.set_callback(|s, u: &Vector, l, h, a: &mut Rec| {
                        a.nout += 1;
                        let ret = if a.hit("outerr", a.nout) {
                            "err"
                        } else if a.hit("outstop", a.nout) {
                            "stop"
                        } else {
                            "ok"
                        };
                        a.evs.push(json!({"e":"out","ret":ret,"ub":bs(u.as_data()),"lb":bits3(l),"hb":bits3(h),"u":scs(u.as_data(),US),"l":sc(l,LS),"h":sc(h,LS),
                            "nf":s.n_function,"nj":s.n_jacobian,"nst":s.n_steps,"nac":s.n_accepted,"nrj":s.n_rejected,"nit":s.n_iteration_total}));
                        match ret {
                            "err" => Err("output callback gave up"),
                            "stop" => Ok(true),
                            _ => Ok(false),
                        }
                    });
                }
                log.ev(op, json!({"u0b":bs(&u0),"l0b":bits3(l0),"u0s":scs(&u0,US),"l0s":sc(l0,LS),
                    "tb":if has(&op["stop"], "v") { bits3(rat(&op["stop"]["v"])) } else { json!([0,0,0]) }}));
                let noout = geti(op, "cb") == 0 && geti(op, "rec") == 0;
                let res = guarded(|| sv.solve(&mut rec, &mut u, &mut l, dir, st, &ddl, if noout { None } else { Some(&mut out) }));
                for e in rec.evs.drain(..) {
                    log.ev(&e, json!({}));
                }
                let (st, msg, code) = match &res {
                    Ok(Ok(s)) => ("ok", String::new(), status(s)),
                    Ok(Err(m)) => ("err", m.to_string(), ""),
                    Err(m) => ("panic", m.clone(), ""),
                };
                // the system at the state handed back, evaluated afresh
                let s = sv.get_stats();
                let mut end = json!({"e":"end","st":st,"msg":msg,"code":code,"ub":bs(u.as_data()),"lb":bits3(l),"u":scs(u.as_data(),US),"l":sc(l,LS),
                    "fin":l.is_finite() && u.as_data().iter().all(|v| v.is_finite()),
                    "nf":s.n_function,"nj":s.n_jacobian,"nfac":s.n_factor,"nls":s.n_lin_sol,"nst":s.n_steps,"nac":s.n_accepted,"nrj":s.n_rejected,"nit":s.n_iteration_total,
                    "itr":s.iterations_residuals.as_ref().map_or(-1, |v| v.len() as i64)});
                if geti(op, "rec") == 1 {
                    end["ru"] = Value::Array((0..n).map(|m| bs(out.get_u_values(m))).collect());
                    end["rl"] = bs(out.get_l_values());
                    end["rh"] = bs(out.get_h_values());
                    end["rn"] = scs(out.get_norm_u_values(), US);
                    end["rdl"] = scs(out.get_dlds_values(), US);
                    end["rdu"] = Value::Array((0..n).map(|m| scs(out.get_duds_values(m), US)).collect());
                }
                log.ev(&end, json!({}));
            }
            _ => panic!("harness: unknown op"),
        }
    }
}

fn base_cfg(rng: &mut Rng, arc: bool) -> Value {
    json!({"m":if arc {"arc"} else {"nat"},"bord":rng.int(0,1),"euler":rng.int(0,1),"mf":*rng.pick(&[[1,2],[1,4],[3,4]]),"nst":*rng.pick(&[5,12,30]),
        "ncf":rng.int(1,5),"nit":*rng.pick(&[2,4,20,20]),"tr":rng.int(8,11),"ta":rng.int(8,10),"tb":rng.int(6,8),
        "dmax":*rng.pick(&[[100000,1],[100000,1],[1,1]]),"norel":rng.int(0,1),"prec":rng.int(0,1),"dbg":if rng.chance(1,6) {1} else {0},"rit":rng.int(0,1),
        "nr":rng.int(0,1),"tg":rng.int(0,1),"pid":rng.int(0,1),"cls":*rng.pick(&["H211PI","Ho211","H211b","Ho312","H312b","H312PID"]),"rmax":rng.int(0,1),"linp":rng.int(0,1)})
}
/// systems with one solution for every parameter value (diagonally dominant, increasing)
fn mono(rng: &mut Rng, n: usize, hooks: i64) -> Value {
    let sym = *rng.pick(&["no", "full"]);
    let mut a = vec![vec![0i64; n]; n];
    for i in 0..n {
        for j in 0..i {
            a[i][j] = rng.int(-1, 1);
            a[j][i] = if sym == "no" { rng.int(-1, 1) } else { a[i][j] };
        }
        a[i][i] = rng.int(2, 5);
    }
    let c: Vec<i64> = (0..n).map(|_| if rng.chance(1, 3) { 0 } else { rng.int(0, 3) }).collect();
    let p: Vec<i64> = (0..n).map(|_| *rng.pick(&[-3, -1, 1, 2])).collect();
    json!({"k":"mono","n":n,"sym":sym,"nnz":rng.int(0,1),"hooks":hooks,"a":a,"c":c,"q":vec![0;n],"p":p,"r":vec![0;n],"d":rng.ints(n,-2,2)})
}
/// curves with turning points
fn fold(rng: &mut Rng, hooks: i64) -> (Value, i64, i64, i64) {
    // (system, u0, l0, d)
    match rng.us(0, 2) {
        // circle u^2 + l^2 = 25, from (3, 4) or (4, 3) ...
        0 => {
            let (u, l) = *rng.pick(&[(3, 4), (4, 3), (4, -3), (-3, 4), (-4, -3), (5, 0)]);
            (json!({"k":"circle","n":1,"sym":"no","nnz":0,"hooks":hooks,"a":[[0]],"c":[0],"q":[1],"p":[0],"r":[1],"d":[-25]}), u, l, 1)
        }
        // S-shaped: u^3 - 3 u = l, starting at u = -2 (l = -2) or u = 2
        1 => {
            let (u, l) = *rng.pick(&[(-2, -2), (2, 2), (0, 0)]);
            (json!({"k":"cubic","n":1,"sym":"no","nnz":1,"hooks":hooks,"a":[[-3]],"c":[1],"q":[0],"p":[-1],"r":[0],"d":[0]}), u, l, 1)
        }
        // parabola: u^2 = l
        _ => {
            let (u, l) = *rng.pick(&[(2, 4), (-1, 1), (1, 1)]);
            (json!({"k":"para","n":1,"sym":"no","nnz":0,"hooks":hooks,"a":[[0]],"c":[0],"q":[1],"p":[-1],"r":[0],"d":[0]}), u, l, 1)
        }
    }
}
fn rand_stop(rng: &mut Rng, n: usize, dir: i64, u0: &[i64], l0: i64, d: i64) -> Value {
    let up = rng.chance(1, 2);
    match rng.us(0, 9) {
        0..=2 => {
            let wrong = rng.chance(1, 20);
            json!({"k":"steps","i":if wrong {0} else {rng.int(1,7)}})
        }
        3..=5 => {
            let bad = rng.chance(1, 15);
            let s = if bad { -dir } else { dir };
            if (dir > 0) != bad {
                json!({"k":"maxl","v":[l0*4 + s*rng.int(0,12)*d, 4*d]})
            } else {
                json!({"k":"minl","v":[l0*4 + s*rng.int(0,12)*d, 4*d]})
            }
        }
        6 | 7 => {
            let i = rng.us(0, n - 1);
            let i1 = if rng.chance(1, 25) { n } else { i };
            let wrong = rng.chance(1, 10);
            let w = rng.int(if wrong { -2 } else { 1 }, 12);
            if up {
                json!({"k":"maxu","i":i1+1,"v":[u0[i]*4 + w*d, 4*d]})
            } else {
                json!({"k":"minu","i":i1+1,"v":[u0[i]*4 - w*d, 4*d]})
            }
        }
        _ => {
            let b = rng.us(0, n - 1);
            let t = if rng.chance(1, 10) { rng.us(0, n + 1) } else { rng.us(b + 1, n) };
            let base: i64 = u0.iter().map(|x| x.abs()).sum();
            json!({"k":"norm","n":*rng.pick(&["max","one","euc"]),"b":b,"t":t,"v":[base*4 + rng.int(1,8)*d, 4*d]})
        }
    }
}
fn rand_run(rng: &mut Rng, s: i64, sys: &Value, u0: &[i64], l0: i64, d: i64, arc: bool) -> Value {
    let n = getu(sys, "n");
    let dir = if rng.chance(1, 2) { 1 } else { -1 };
    let stop = rand_stop(rng, n, dir, u0, l0, d);
    let inc = |rng: &mut Rng| *rng.pick(&[[1, 10], [1, 4], [3, 10], [1, 1], [1, 16], [5, 2], [1, 100]]);
    let kind = *rng.pick(&["auto", "auto", "const", "list"]);
    let v: Vec<[i64; 2]> = if kind == "list" { (0..rng.us(1, 6)).map(|_| inc(rng)).collect() } else { vec![inc(rng)] };
    let _ = arc;
    json!({"e":"run","s":s,"u0":u0,"l0":l0,"d":d,"dir":dir,"stop":stop,"ddl":{"k":kind,"v":v},"f":{},"cb":1,"rec":rng.int(0,1)})
}
fn faults(rng: &mut Rng, kinds: &[&str]) -> Value {
    let k = *rng.pick(kinds);
    match k {
        "" => json!({}),
        "superr" => {
            let m = rng.us(1, 4);
            let mut a: Vec<i64> = (0..m).map(|_| rng.int(1, 12)).collect();
            a.sort();
            a.dedup();
            json!({"superr": a})
        }
        "ggnan" => json!({"ggnan":[rng.int(1,12)]}),
        _ => {
            let mut f = json!({});
            f[k] = json!(rng.int(1, 10));
            f
        }
    }
}
fn problem(rng: &mut Rng, arc: bool, hooks: i64) -> (Value, Vec<i64>, i64, i64) {
    if rng.chance(1, if arc { 2 } else { 4 }) {
        let (s, u, l, d) = fold(rng, hooks);
        (s, vec![u], l, d)
    } else {
        let n = rng.us(1, 3);
        let s = mono(rng, n, hooks);
        (s, rng.ints(n, -4, 4), rng.int(-3, 3), 2)
    }
}
/// one run with the protocol's hooks in place
pub fn random(rng: &mut Rng, prop: &str) -> Vec<Value> {
    let arc = rng.chance(1, 2);
    let hooks = if prop == "N02" { rng.int(0, 1) } else { 1 };
    let (mut sys, u0, l0, d) = problem(rng, arc, hooks);
    let mut cfg = base_cfg(rng, arc);
    if arc && geti(&cfg, "bord") == 0 && rng.chance(9, 10) {
        sys["sym"] = json!("no");
    }
    if prop == "N02" {
        cfg["nst"] = json!(30);
        cfg["nit"] = json!(20);
    }
    let mut ops = vec![json!({"prop":prop}), json!({"e":"new","s":0,"sys":sys,"cfg":cfg})];
    match prop {
        "N02" => {
            let again = rng.chance(1, 2);
            let r = rand_run(rng, 0, &sys, &u0, l0, d, arc);
            let mut first = r.clone();
            first["key"] = json!(1);
            ops.push(first.clone());
            if again {
                // other runs in between, then the same one on the used and on a fresh solver
                for _ in 0..rng.us(0, 2) {
                    let mut o = rand_run(rng, 0, &sys, &u0, l0, d, arc);
                    o["f"] = faults(rng, &["", "ggnan", "ggerr", "jacerr", "outstop"]);
                    ops.push(o);
                }
                ops.push(first.clone());
                ops.push(json!({"e":"new","s":1,"sys":sys,"cfg":cfg}));
                first["s"] = json!(1);
                first["cb"] = json!(rng.int(0, 1));
                ops.push(first);
            }
        }
        _ => {
            for _ in 0..rng.us(1, 2) {
                let mut r = rand_run(rng, 0, &sys, &u0, l0, d, arc);
                r["f"] = faults(rng, &["", "", "superr", "superr", "supterm", "ggnan", "ggerr", "jacerr", "outstop", "outerr"]);
                ops.push(r);
            }
        }
    }
    ops
}
