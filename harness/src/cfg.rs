//! settings of the continuation solver and parameters of the ODE solver
use crate::util::*;
use russell_lab::Vector;
use serde_json::{Value, json};
use std::collections::HashMap;

const OFF: i64 = -777_777;
/// the value in the units of the field; a marker when it is not a whole number of them
fn un(x: f64, unit: f64) -> i64 {
    let y = x * unit;
    if (y - y.round()).abs() > 1e-6 * y.abs().max(1.0) { OFF } else { sc(x, unit) }
}

mod nl {
    use super::*;
    use russell_nonlin::*;
    use russell_sparse::{CooMatrix, Sym};

    pub fn get(c: &Config) -> Value {
        json!({
            "method": (c.get_method() == Method::Arclength) as i64, "log": c.get_log_file().map_or(0, |s| s.len()), "verb": c.get_verbose() as i64, "verbi": c.get_verbose_iterations() as i64,
            "verbs": c.get_verbose_stats() as i64, "verbl": c.get_verbose_legend() as i64, "verbh": c.get_verbose_header_footer() as i64, "hide": c.get_hide_timings() as i64,
            "rit": c.get_record_iterations_residuals() as i64, "prec": c.get_enable_precise_stop_u_comp() as i64, "mf": un(c.get_m_failure(), 1e4),
            "nst": c.get_n_step_max(), "ncf": c.get_n_cont_failure_max(), "ncr": c.get_n_cont_rejection_max(),
            "tar": un(c.get_tol_abs_residual(), 1e13), "tad": un(c.get_tol_abs_delta(), 1e13), "trd": un(c.get_tol_rel_delta(), 1e13), "dmax": un(c.get_delta_max_allowed(), 10.0),
            "norel": c.get_disable_rel_delta_analysis() as i64, "nit": c.get_n_iteration_max(), "nrd": c.get_n_cont_residual_divergence_max(), "ndd": c.get_n_cont_delta_divergence_max(),
            "euler": c.get_euler_predictor() as i64, "bord": c.get_bordering() as i64, "dbg": c.get_debug_predictor() as i64, "nrc": c.get_nr_control_enabled() as i64,
            "tgc": c.get_tg_control_enabled() as i64, "pid": c.get_tg_control_pid_vcc() as i64, "rmin": un(c.get_tg_control_rdiff_min(), 1e8), "rho": un(c.get_tg_control_rho_for_tiny_rdiff(), 1e4),
            "nopt": c.get_nr_control_n_opt(), "nbeta": un(c.get_nr_control_beta(), 1e4), "rtype": (c.get_tg_control_rdiff_type() == RdiffType::Max) as i64, "tgt": un(c.get_tg_control_tol(), 1e8),
            "b1": un(c.get_tg_control_beta1(), 72.0), "b2": un(c.get_tg_control_beta2(), 72.0), "b3": un(c.get_tg_control_beta3(), 72.0),
            "a2": un(c.get_tg_control_alpha2(), 72.0), "a3": un(c.get_tg_control_alpha3(), 72.0)
        })
    }
    pub fn set(c: &mut Config, f: &str, v: &Value) {
        let k = v.as_i64().unwrap_or(0);
        let (b, n, x) = (k != 0, k as usize, k as f64);
        let at = |i: usize| v[i].as_i64().unwrap();
        match f {
            "method" => c.set_method(if b { Method::Arclength } else { Method::Natural }),
            "log" => c.set_log_file(&"x".repeat(n)),
            "verb" => c.set_verbose_only(b),
            "verbi" => c.set_verbose_iterations(b),
            "verbs" => c.set_verbose_stats(b),
            "verb3" => c.set_verbose(at(0) != 0, at(1) != 0, at(2) != 0),
            "verbl" => c.set_verbose_legend(b),
            "verbh" => c.set_verbose_header_footer(b),
            "hide" => c.set_hide_timings(b),
            "rit" => c.set_record_iterations_residuals(b),
            "prec" => c.set_enable_precise_stop_u_comp(b),
            "mf" => c.set_m_failure(x / 1e4),
            "nst" => c.set_n_step_max(n),
            "ncf" => c.set_n_cont_failure_max(n),
            "ncr" => c.set_n_cont_rejection_max(n),
            "tar" => c.set_tol_abs_residual(x / 1e13),
            "tad" => c.set_tol_abs_delta(x / 1e13),
            "trd" => c.set_tol_rel_delta(x / 1e13),
            "told" => c.set_tol_delta(at(0) as f64 / 1e13, at(1) as f64 / 1e13),
            "dmax" => c.set_delta_max_allowed(x / 10.0),
            "norel" => c.set_disable_rel_delta_analysis(b),
            "nit" => c.set_n_iteration_max(n),
            "nrd" => c.set_n_cont_residual_divergence_max(n),
            "ndd" => c.set_n_cont_delta_divergence_max(n),
            "euler" => c.set_euler_predictor(b),
            "bord" => c.set_bordering(b),
            "dbg" => c.set_debug_predictor(b),
            "nrc" => c.set_nr_control_enabled(b),
            "tgc" => c.set_tg_control_enabled(b),
            "pid" => c.set_tg_control_pid_vcc(b),
            "rmin" => c.set_tg_control_rdiff_min(x / 1e8),
            "rho" => c.set_tg_control_rho_for_tiny_rdiff(x / 1e4),
            "nopt" => c.set_nr_control_n_opt(n),
            "nbeta" => c.set_nr_control_beta(x / 1e4),
            "rtype" => c.set_tg_control_rdiff_type(if b { RdiffType::Max } else { RdiffType::Ave }),
            "tgt" => c.set_tg_control_tol(x / 1e8),
            "b1" => c.set_tg_control_beta1(x / 72.0),
            "b2" => c.set_tg_control_beta2(x / 72.0),
            "b3" => c.set_tg_control_beta3(x / 72.0),
            "a2" => c.set_tg_control_alpha2(x / 72.0),
            "a3" => c.set_tg_control_alpha3(x / 72.0),
            "sod" => c.set_tg_control_soderlind(match at(0) {
                1 => SoderlindClass::Ho211,
                2 => SoderlindClass::H211b(at(1) as f64),
                3 => SoderlindClass::H211PI,
                4 => SoderlindClass::Ho312,
                5 => SoderlindClass::H312b(at(1) as f64),
                6 => SoderlindClass::H312PID,
                7 => SoderlindClass::Ho321,
                _ => SoderlindClass::H321,
            }),
            _ => panic!("harness: unknown setting"),
        };
    }
    pub fn make(c: &Config) -> Value {
        // the log file is not opened here
        let mut c = c.clone();
        c.set_verbose(false, false, false).set_verbose_legend(false).set_verbose_header_footer(false);
        obs(
            || {
                let sys = System::new(
                    1,
                    None,
                    Sym::No,
                    |g: &mut Vector, l: f64, u: &Vector, _: &mut u8| {
                        g[0] = u[0] - l;
                        Ok(())
                    },
                    |gu: &mut CooMatrix, gl: &mut Vector, _: f64, _: &Vector, _: &mut u8| {
                        gu.put(0, 0, 1.0)?;
                        gl[0] = -1.0;
                        Ok(())
                    },
                )?;
                Solver::new(&c, sys).map(|_| ())
            },
            |_| json!({}),
        )
    }
}

mod od {
    use super::*;
    use russell_ode::*;

    pub fn method(m: &str) -> Method {
        [Method::Radau5, Method::BwEuler, Method::DoPri5, Method::DoPri8, Method::Merson4, Method::Rk4].into_iter().find(|k| format!("{:?}", k) == m).unwrap()
    }
    pub fn get(p: &Params) -> Value {
        json!({"nit": p.newton.n_iteration_max, "mmin": un(p.step.m_min, 1e4), "mmax": un(p.step.m_max, 1e4), "msaf": un(p.step.m_safety, 1e4), "mrej": un(p.step.m_first_reject, 1e4),
            "hini": un(p.step.h_ini, 1e9), "nmax": p.step.n_step_max, "rmin": un(p.step.rel_error_prev_min, 1e9), "theta": un(p.radau5.theta_max, 1e8),
            "c1h": un(p.radau5.c1h, 1e4), "c2h": un(p.radau5.c2h, 1e4), "beta": un(p.erk.lund_beta, 1e4), "lm": un(p.erk.lund_m, 1e4)})
    }
    pub fn set(p: &mut Params, f: &str, k: i64) {
        let x = k as f64;
        match f {
            "nit" => p.newton.n_iteration_max = k as usize,
            "mmin" => p.step.m_min = x / 1e4,
            "mmax" => p.step.m_max = x / 1e4,
            "msaf" => p.step.m_safety = x / 1e4,
            "mrej" => p.step.m_first_reject = x / 1e4,
            "hini" => p.step.h_ini = x / 1e9,
            "nmax" => p.step.n_step_max = k as usize,
            "rmin" => p.step.rel_error_prev_min = x / 1e9,
            "theta" => p.radau5.theta_max = x / 1e8,
            "c1h" => p.radau5.c1h = x / 1e4,
            "c2h" => p.radau5.c2h = x / 1e4,
            "beta" => p.erk.lund_beta = x / 1e4,
            "lm" => p.erk.lund_m = x / 1e4,
            _ => panic!("harness: unknown parameter"),
        }
    }
    pub fn solver(p: Params) -> Result<OdeSolver<'static, u8>, &'static str> {
        let sys = System::new(2, |f: &mut Vector, x: f64, y: &Vector, _: &mut u8| {
            f[0] = -20.0 * y[0] + y[1] * y[1] + x;
            f[1] = y[0] - y[1];
            Ok(())
        });
        OdeSolver::new(p, sys)
    }
}

pub fn exec(ops: &[Value], log: &mut Log) {
    log.ev(&ops[0], json!({}));
    let mut conf = russell_nonlin::Config::new();
    let mut par = russell_ode::Params::new(russell_ode::Method::DoPri5);
    let mut solvers: HashMap<i64, russell_ode::OdeSolver<'static, u8>> = HashMap::new();
    for op in &ops[1..] {
        match gets(op, "e") {
            "cnew" => {
                conf = russell_nonlin::Config::new();
                log.ev(op, json!({"st":"ok","g":nl::get(&conf)}));
            }
            "cset" => {
                nl::set(&mut conf, gets(op, "f"), &op["v"]);
                log.ev(op, json!({"st":"ok","g":nl::get(&conf)}));
            }
            "cmake" => log.ev(op, nl::make(&conf)),
            "pnew" => {
                par = russell_ode::Params::new(od::method(gets(op, "m")));
                par.newton.use_numerical_jacobian = true;
                log.ev(op, json!({"st":"ok","g":od::get(&par)}));
            }
            "pset" => {
                od::set(&mut par, gets(op, "f"), geti(op, "v"));
                log.ev(op, json!({"st":"ok","g":od::get(&par)}));
            }
            "ptol" => {
                let t = |k: &str| 10f64.powi(-geti(op, k) as i32);
                let o = obs(|| par.set_tolerances(t("a"), t("r"), if geti(op, "n") == 0 { None } else { Some(t("n")) }), |_| json!({}));
                log.ev(op, o.merge(json!({"g":od::get(&par)})));
            }
            "make" => {
                let o = obs(
                    || od::solver(par),
                    |s| {
                        solvers.insert(geti(op, "s"), s);
                        json!({})
                    },
                );
                log.ev(op, o);
            }
            "upd" => {
                let Some(s) = solvers.get_mut(&geti(op, "s")) else { return };
                log.ev(op, obs(|| s.update_params(par), |_| json!({})));
            }
            "run" => {
                let Some(s) = solvers.get_mut(&geti(op, "s")) else { return };
                let mut y = Vector::from(&[1.0, 0.5]);
                let h = if geti(op, "eq") == 1 { Some(0.0625) } else { None };
                let o = obs(|| s.solve(&mut y, 0.0, 1.0, h, &mut 0, None), |_| json!({}));
                let t = s.stats();
                log.ev(op, o.merge(json!({"y":[bits3(y[0]), bits3(y[1])],"k":[t.n_function, t.n_steps, t.n_accepted, t.n_rejected, t.n_jacobian]})));
            }
            _ => panic!("harness: unknown op"),
        }
    }
}

const CONT: [(&str, &[i64]); 39] = [
    ("method", &[0, 1]), ("log", &[1, 3]), ("verb", &[0, 1]), ("verbi", &[0, 1]), ("verbs", &[0, 1]), ("verbl", &[0, 1]), ("verbh", &[0, 1]), ("hide", &[0, 1]), ("rit", &[0, 1]),
    ("prec", &[0, 1]), ("mf", &[0, 9, 10, 11, 5000, 9000]), ("nst", &[0, 1, 50]), ("ncf", &[0, 1, 7]), ("ncr", &[0, 1, 7]), ("tar", &[0, 9, 10, 11, 1000, 100000]),
    ("tad", &[0, 9, 10, 11, 1000, 100000]), ("trd", &[0, 9, 10, 11, 1000, 100000]), ("dmax", &[-10, 0, 1, 500]), ("norel", &[0, 1]), ("nit", &[0, 1, 9]), ("nrd", &[0, 1, 4]),
    ("ndd", &[0, 1, 4]), ("euler", &[0, 1]), ("bord", &[0, 1]), ("dbg", &[0, 1]), ("nrc", &[0, 1]), ("tgc", &[0, 1]), ("pid", &[0, 1]), ("rmin", &[1, 1000]), ("rho", &[5000, 15000]),
    ("nopt", &[0, 1, 5]), ("nbeta", &[-1, 0, 1, 5000]), ("rtype", &[0, 1]), ("tgt", &[0, 1, 5000, 20000000]), ("b1", &[-12, 0, 40]), ("b2", &[-12, 0, 40]), ("b3", &[-12, 0, 40]),
    ("a2", &[-12, 0, 40]), ("a3", &[-12, 0, 40]),
];
const PARS: [(&str, &[i64]); 13] = [
    ("nit", &[0, 1, 2, 7, 9]), ("mmin", &[-1, 9, 10, 11, 99, 1000, 2000, 4999, 5001, 9000]), ("mmax", &[9, 99, 100, 101, 2000, 50000, 199999, 200000, 200001]),
    ("msaf", &[0, 999, 1000, 8000, 9000, 10000, 10001]), ("mrej", &[-1, 0, 1000, 5000]), ("hini", &[-1, 0, 9, 10, 11, 100000, 10000000]), ("nmax", &[0, 1, 5, 500, 3000]),
    ("rmin", &[0, 9, 10, 100000]), ("theta", &[0, 9, 10, 100000]), ("c1h", &[4999, 5000, 9000, 10000, 15000, 15001]), ("c2h", &[9999, 10000, 12000, 16000, 20000, 20001]),
    ("beta", &[-1, 0, 400, 1000, 1001]), ("lm", &[-1, 0, 7500, 10000, 10001]),
];

pub fn random_cont(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e":"reset","prop":"N04"}), json!({"e":"cnew"})];
    for _ in 0..rng.us(2, 25) {
        match rng.int(0, 11) {
            0 | 1 => ops.push(json!({"e":"cmake"})),
            2 => ops.push(json!({"e":"cset","f":"verb3","v":rng.ints(3, 0, 1)})),
            3 => {
                let (a, b) = (*rng.pick(&[0, 9, 10, 11, 500]), *rng.pick(&[0, 9, 10, 12, 700]));
                ops.push(json!({"e":"cset","f":"told","v":[a, b]}));
            }
            4 => {
                let (k, b) = (rng.int(1, 8), *rng.pick(&[2, 3, 4, 8, 9]));
                ops.push(json!({"e":"cset","f":"sod","v":[k, b]}));
            }
            _ => {
                let (f, vs) = *rng.pick(&CONT);
                ops.push(json!({"e":"cset","f":f,"v":*rng.pick(vs)}));
            }
        }
        if rng.chance(1, 40) {
            ops.push(json!({"e":"cnew"}));
        }
    }
    ops.push(json!({"e":"cmake"}));
    ops
}

pub fn random_ode(rng: &mut Rng) -> Vec<Value> {
    let m = *rng.pick(&["Radau5", "BwEuler", "DoPri5", "DoPri8", "Merson4", "Rk4"]);
    let eq = if m == "Rk4" || m == "BwEuler" { 1 } else { rng.int(0, 3) / 3 };
    let mut ops = vec![json!({"e":"reset","prop":"O06"}), json!({"e":"pnew","m":m}), json!({"e":"pset","f":"nmax","v":3000}), json!({"e":"make","s":0})];
    for k in 0..rng.us(2, 14) as i64 {
        match rng.int(0, 9) {
            0 => {
                let (a, r, n) = (rng.int(2, 17), rng.int(2, 17), if rng.chance(1, 2) { 0 } else { rng.int(1, 9) });
                ops.push(json!({"e":"ptol","a":a,"r":r,"n":n}));
            }
            1 | 2 => ops.push(json!({"e":"upd","s":0})),
            3 => ops.push(json!({"e":"make","s":1 + k % 2})),
            4 | 5 => ops.push(json!({"e":"run","s":rng.int(0, 2),"eq":eq})),
            6 if rng.chance(1, 4) => {
                ops.push(json!({"e":"pnew","m":*rng.pick(&["Radau5", "DoPri5"])}));
                ops.push(json!({"e":"pset","f":"nmax","v":500}));
            }
            _ => {
                let (f, vs) = *rng.pick(&PARS);
                ops.push(json!({"e":"pset","f":f,"v":*rng.pick(vs)}));
            }
        }
    }
    ops.push(json!({"e":"upd","s":0}));
    ops.push(json!({"e":"run","s":0,"eq":eq}));
    ops.push(json!({"e":"make","s":3}));
    ops.push(json!({"e":"run","s":3,"eq":eq}));
    ops
}
