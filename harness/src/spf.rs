//! Special and elementary functions
use crate::app::pf;
use crate::util::*;
use russell_lab::math::*;
use serde_json::{Value, json};

fn pfs(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| pf(*x)).collect())
}
/// values in units of the largest one
fn nrm(v: &[f64]) -> Value {
    let m = v.iter().fold(0.0, |m: f64, x| m.max(x.abs()));
    if m == 0.0 || !m.is_finite() || v.iter().any(|x| x.is_nan()) {
        return json!([]);
    }
    pfs(&v.iter().map(|x| x / m).collect::<Vec<_>>())
}
fn cls(v: f64) -> &'static str {
    if v.is_nan() { "nan" } else if v == f64::INFINITY { "inf" } else if v == f64::NEG_INFINITY { "-inf" } else if v == 0.0 { if v.is_sign_negative() { "-zero" } else { "zero" } }
    else if v == 1.0 { "one" } else if v == -1.0 { "-one" } else if v == 2.0 { "two" } else if v > 0.0 { "pos" } else { "neg" }
}
fn named(s: &str) -> f64 {
    match s {
        "nan" => f64::NAN,
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "zero" => 0.0,
        "-zero" => -0.0,
        "one" => 1.0,
        "-one" => -1.0,
        "two" => 2.0,
        "-two" => -2.0,
        "neg" => -1.5,
        "pos" => 1.5,
        "big" => 1e300,
        "-big" => -1e300,
        "tiny" => 1e-300,
        _ => panic!("harness: argument"),
    }
}
fn gd(f: impl FnOnce() -> Value) -> Value {
    match guarded(f) {
        Ok(mut v) => { if !has(&v, "st") { v["st"] = json!("ok"); } v }
        Err(m) => json!({"st": "panic", "msg": m}),
    }
}
const H: f64 = 1e-4;

fn elliptic(op: &Value) -> Value {
    let half = PI / 2.0;
    let m = geti(op, "m") as f64 / 16.0;
    let n = geti(op, "n") as f64 / 16.0;
    let j = geti(op, "j");
    let phi = half * j as f64 / 16.0;
    let val = |r: Result<f64, &'static str>| match r { Ok(v) => json!({"st": "ok", "v": pf(v), "c": cls(v)}), Err(_) => json!({"st": "err", "v": [0, 0], "c": ""}) };
    let mut r = json!({"F": val(elliptic_f(phi, m)), "E": val(elliptic_e(phi, m)), "P": val(elliptic_pi(n, phi, m)), "P0": val(elliptic_pi(0.0, phi, m))});
    r["phi"] = pf(phi);
    // slopes times the integrands' denominators
    let s2 = phi.sin().powi(2);
    let d = |f: &dyn Fn(f64) -> Result<f64, &'static str>, w: f64| match (f(phi + H), f(phi - H)) { (Ok(a), Ok(b)) => pf((a - b) / (2.0 * H) * w), _ => json!([NOT_FIN, 0]) };
    let q = (1.0 - m * s2).sqrt();
    r["dF"] = d(&|p| elliptic_f(p, m), q);
    r["dE"] = d(&|p| elliptic_e(p, m), 1.0 / q);
    r["dP"] = d(&|p| elliptic_pi(n, p, m), q * (1.0 - n * s2));
    if (1..16).contains(&geti(op, "m")) {
        let k = |m: f64| elliptic_f(half, m).unwrap();
        let e = |m: f64| elliptic_e(half, m).unwrap();
        r["leg"] = pf(e(m) * k(1.0 - m) + e(1.0 - m) * k(m) - k(m) * k(1.0 - m));
        let kp = m; // complementary modulus
        let m1 = ((1.0 - kp) / (1.0 + kp)).powi(2);
        r["lan"] = pf(k(1.0 - kp * kp) * (1.0 + kp) / 2.0 / k(m1));
    }
    r["sn"] = pf(phi.sin());
    let t = phi.tan();
    let w = (1.0 - n).abs().sqrt();
    let closed = if n < 1.0 { (w * t).atan() / w } else if n == 1.0 { t } else if w * t < 1.0 { (w * t).atanh() / w } else { (1.0 / (w * t)).atanh() / w };
    r["pc"] = match elliptic_pi(n, phi, 0.0) { Ok(v) => pf(v - closed), Err(_) => json!([NOT_FIN, 0]) };
    r
}

fn bessel(op: &Value) -> Value {
    let n = geti(op, "n") as i32;
    let x = geti(op, "k") as f64 / 16.0;
    let j = |n: i32| bessel_jn(n, x);
    let y = |n: i32| bessel_yn(n, x);
    let mut r = json!({
        "J": nrm(&[j(n - 1), j(n), j(n + 1)]), "Y": nrm(&[y(n - 1), y(n), y(n + 1)]),
        "wr": pf((j(n + 1) * y(n) - j(n) * y(n + 1)) * x),
        "jn": [bits3(j(n)), bits3(j(-n)), bits3(bessel_jn(n, -x)), bits3(-j(n))],
        "yn": [bits3(y(n)), bits3(y(-n)), bits3(-y(n))],
        "low": [bits3(j(0)) == bits3(bessel_j0(x)), bits3(j(1)) == bits3(bessel_j1(x)), bits3(y(0)) == bits3(bessel_y0(x)), bits3(y(1)) == bits3(bessel_y1(x)), bits3(bessel_j0(-x)) == bits3(bessel_j0(x)), bits3(bessel_j1(-x)) == bits3(-bessel_j1(x))],
        "yneg": [cls(bessel_y0(-x)), cls(bessel_y1(-x)), cls(bessel_yn(n, -x))],
    });
    let h = H * x.min(1.0);
    let d = |f: &dyn Fn(f64) -> f64| (f(x + h) - f(x - h)) / (2.0 * h);
    let (j0, j1, y0, y1) = (bessel_j0(x), bessel_j1(x), bessel_y0(x), bessel_y1(x));
    r["dd"] = json!([nrm(&[d(&bessel_j0), j1, j0]), nrm(&[d(&bessel_y0), y1, y0]), nrm(&[d(&bessel_j1), j0, j1 / x]), nrm(&[d(&bessel_y1), y0, y1 / x])]);
    if x <= 40.0 {
        r["sum"] = pf(j(0) + 2.0 * (1..40).map(|k| j(2 * k)).sum::<f64>());
    }
    if x <= 340.0 {
        let nn = n as usize;
        let i = |n: usize| bessel_in(n, x);
        let k = |n: i32| bessel_kn(n, x);
        r["I"] = nrm(&[i(nn.max(1) - 1), i(nn.max(1)), i(nn.max(1) + 1)]);
        r["K"] = nrm(&[k(n - 1), k(n), k(n + 1)]);
        r["wm"] = pf((i(nn) * k(n + 1) + i(nn + 1) * k(n)) * x);
        r["lowm"] = json!([bits3(i(0)) == bits3(bessel_i0(x)), bits3(i(1)) == bits3(bessel_i1(x)), bits3(k(0)) == bits3(bessel_k0(x)), bits3(k(1)) == bits3(bessel_k1(x)), bits3(bessel_i0(-x)) == bits3(bessel_i0(x)), bits3(bessel_i1(-x)) == bits3(-bessel_i1(x))]);
        r["in"] = json!([bits3(i(nn)), bits3(bessel_in(nn, -x)), bits3(-i(nn))]);
        r["kn"] = json!([bits3(k(n)), bits3(k(-n))]);
        let (i0, i1, k0, k1) = (bessel_i0(x), bessel_i1(x), bessel_k0(x), bessel_k1(x));
        r["dm"] = json!([nrm(&[d(&bessel_i0), i1]), nrm(&[d(&bessel_k0), k1]), nrm(&[d(&bessel_i1), i0, i1 / x]), nrm(&[d(&bessel_k1), k0, k1 / x])]);
        r["kneg"] = json!([cls(bessel_k0(-x)), cls(bessel_k1(-x)), cls(bessel_kn(n, -x))]);
        if x <= 20.0 {
            r["si"] = pf((i(0) + 2.0 * (1..60).map(|n| i(n)).sum::<f64>()) / x.exp());
        }
    }
    r
}

fn one(op: &Value) -> Value {
    match gets(op, "f") {
        "gam" => {
            let x = geti(op, "k") as f64 / 64.0;
            let g = gamma(x);
            let (l, s) = ln_gamma(x);
            let (l1, _) = ln_gamma(x + 1.0);
            json!({"rec": pf(gamma(x + 1.0) / g), "dup": pf(g * gamma(x + 0.5) * 2f64.powf(2.0 * x - 1.0) / (SQRT_PI * gamma(2.0 * x))), "ref": pf(g * gamma(1.0 - x) * (PI * x).sin() / PI),
                "log": pf((l - g.abs().ln()).exp()), "sg": [s, sign(g) as i64], "inc": pf((l1 - l).exp() / x.abs()), "int": xi(g)})
        }
        "lgam" => {
            let x = 2f64.powi(geti(op, "j") as i32) * geti(op, "k") as f64;
            let (a, s) = ln_gamma(2.0 * x);
            let b = ln_gamma(x).0 + ln_gamma(x + 0.5).0 + (2.0 * x - 1.0) * LN2 - SQRT_PI.ln();
            json!({"rel": pf((a - b) / a.abs().max(1.0)), "s": s})
        }
        "bet" => {
            let (a, b) = (geti(op, "a") as f64 / 16.0, geti(op, "b") as f64 / 16.0);
            let v = beta(a, b);
            json!({"sym": [bits3(v), bits3(beta(b, a))], "rec": nrm(&[v, beta(a + 1.0, b)]), "gam": pf(v * gamma(a + b) / gamma(a) / gamma(b)), "ln": pf((ln_beta(a, b) - v.abs().ln()).exp()), "lsym": [bits3(ln_beta(a, b)), bits3(ln_beta(b, a))], "cls": cls(v)})
        }
        "bas" => {
            // one argument much larger than the other
            let a = 1e6 * geti(op, "a") as f64;
            let b = geti(op, "b") as f64 / 16.0;
            let v = beta(a, b);
            json!({"rel": pf(v * a.powf(b) / gamma(b)), "ln": pf((ln_beta(a, b) - v.abs().ln()).exp()), "sym": [bits3(v), bits3(beta(b, a))], "ok": (v.abs() > 1e-290 && v.abs() < 1e290) as i64})
        }
        "erf" => {
            let x = geti(op, "k") as f64 / 64.0;
            json!({"v": pf(erf(x)), "c": pf(erfc(x)), "cm": pf(erfc(-x)), "odd": [bits3(erf(-x)), bits3(-erf(x))], "s": pf(erf(x) * (x * x).exp()), "t": pf(x * SQRT_PI * (x * x).exp() * erfc(x))})
        }
        "inv" => {
            let y = geti(op, "k") as f64 / 1024.0;
            json!({"v": pf(erf(erf_inv(y))), "odd": [bits3(erf_inv(-y)), bits3(-erf_inv(y))], "c": pf(erfc(erfc_inv(1.0 - y))), "cc": pf(erfc(erfc_inv(1.0 + y)))})
        }
        "tail" => {
            let h = 2f64.powi(-(geti(op, "k") as i32));
            json!({"v": pf(erfc(erf_inv(1.0 - h)) / h), "n": pf(erfc(-erf_inv(h - 1.0)) / h), "c": pf(erfc(erfc_inv(h)) / h), "small": pf(erf(erf_inv(h)) / h)})
        }
        "bes" => bessel(op),
        "hug" => {
            // far out the functions are shifted sines with the amplitude sqrt(2/(pi x))
            let n = geti(op, "n") as i32;
            let x = geti(op, "k") as f64 * 2f64.powi(geti(op, "s") as i32);
            let w = f64::sqrt(x) * f64::sqrt(std::f64::consts::FRAC_PI_2);
            let v = |y: f64| sc(y * w, 1e4);
            json!({"v": [v(bessel_j0(x)), v(bessel_j1(x)), v(bessel_y0(x)), v(bessel_y1(x))], "w": [v(bessel_jn(n, x)), v(bessel_yn(n, x)), v(bessel_jn(-n, x)), v(bessel_yn(-n, x)), v(bessel_jn(n, -x))]})
        }
        "ell" => elliptic(op),
        "pol" => {
            let n = getu(op, "n");
            let x = geti(op, "k") as f64 / 16.0;
            let t = [chebyshev_tn(n - 1, x), chebyshev_tn(n, x), chebyshev_tn(n + 1, x)];
            let u = [chebyshev_un(n - 1, x), chebyshev_un(n, x), chebyshev_un(n + 1, x)];
            let p = [legendre_pn(n - 1, x), legendre_pn(n, x), legendre_pn(n + 1, x)];
            let (t1, t2) = (chebyshev_tn_deriv1(n, x), chebyshev_tn_deriv2(n, x));
            let (u1, u2) = (chebyshev_un_deriv1(n, x), chebyshev_un_deriv2(n, x));
            let (p1, p2) = (legendre_pn_deriv1(n, x), legendre_pn_deriv2(n, x));
            json!({"t": nrm(&t), "u": nrm(&u), "p": nrm(&p), "td": nrm(&[t1, u[0], 1.0]), "tt": nrm(&[t2, t1, t[1]]), "uu": nrm(&[u2, u1, u[1]]), "ud": nrm(&[u1, t[2], u[1]]), "pd": nrm(&[p1, p[0], p[1]]), "pp": nrm(&[p2, p1, p[1]]),
                "v": pfs(&[t[1], t1, t2, u[1], u1, u2, p[1], p1, p2])})
        }
        "gau" => {
            let nn = getu(op, "n");
            let lob = geti(op, "lob") == 1;
            let (x, w) = if lob { (legendre_lobatto_points(nn), legendre_lobatto_weights(nn)) } else { (legendre_gauss_points(nn), legendre_gauss_weights(nn)) };
            let np = x.dim();
            let mom: Vec<f64> = (0..(2 * nn + 2)).map(|k| (0..np).map(|i| w[i] * x[i].powi(k as i32)).sum()).collect();
            json!({"np": [np, w.dim()], "mom": pfs(&mom), "inc": (1..np).all(|i| x[i] > x[i - 1]), "sym": (0..np).all(|i| (x[i] + x[np - 1 - i]).abs() < 1e-13 && (w[i] - w[np - 1 - i]).abs() < 1e-13), "ends": [pf(x[0]), pf(x[np - 1])], "pos": (0..np).all(|i| w[i] > 0.0)})
        }
        "chp" => {
            // Chebyshev points against the polynomials whose zeros and extrema they are
            let nn = getu(op, "n");
            let (g, l) = (chebyshev_gauss_points(nn), chebyshev_lobatto_points(nn));
            json!({"np": [g.dim(), l.dim()], "g": pfs(&g.as_data().iter().map(|x| chebyshev_tn(nn + 1, *x)).collect::<Vec<_>>()), "l": pfs(&l.as_data().iter().map(|x| chebyshev_tn(nn, *x)).collect::<Vec<_>>()), "inc": (1..=nn).all(|i| g[i] > g[i - 1] && l[i] > l[i - 1])})
        }
        "ele" => {
            let (k, j) = (geti(op, "k"), geti(op, "j"));
            let (x, y) = (k as f64 / 16.0, j as f64 / 16.0);
            let n = geti(op, "n") as i32;
            let b = 1.0 + geti(op, "b") as f64;
            let i = i_pow_n(n);
            let xi3 = x_times_i_pow_n(geti(op, "a") as f64, n.abs() % 9);
            let xin = x_times_i_pow_n(2.0, -(n.abs() % 9));
            let (fi, ff) = float_split(x);
            json!({"sign": xi(sign(x)), "ramp": xi(16.0 * ramp(x)), "heav": xi(2.0 * heaviside(x)), "neg": xi(neg_one_pow_n(n)), "ip": [xi(i.re), xi(i.im)], "xp": [xi(xi3.re), xi(xi3.im)], "xq": [xi(xin.re * 256.0), xi(xin.im * 256.0)],
                "mod": xi(16.0 * modulo(x, y)), "modc": cls(modulo(x, y)), "split": [xi(fi), xi(16.0 * ff)], "isint": [float_is_integer(x), float_is_neg_integer(x)],
                "box": gd(|| json!({"v": xi(2.0 * boxcar(x, y, y + b))})), "badbox": gd(|| json!({"v": xi(2.0 * boxcar(x, y, y - b + 1.0))})),
                "logi": pfs(&[logistic(x), logistic(-x), logistic_deriv1(x), smooth_ramp_deriv1(x, 1.0)]),
                "sm": pfs(&[smooth_ramp(x, b), smooth_ramp(-x, b), smooth_ramp_deriv1(x, b), smooth_ramp_deriv1(-x, b), smooth_ramp_deriv2(x, b), smooth_ramp_deriv2(-x, b), b * logistic_deriv1(b * x)]),
                "ds": pfs(&[(smooth_ramp(x + H, b) - smooth_ramp(x - H, b)) / (2.0 * H), (logistic(x + H) - logistic(x - H)) / (2.0 * H)]),
                "suq": pfs(&[suq_sin(x, 2.0).abs() + suq_cos(x, 2.0).abs(), suq_sin(x, 1.0) - x.sin(), suq_cos(x, 1.0) - x.cos(), suq_sin(x, 3.0) - x.sin().powi(3), suq_sin(-x, b) + suq_sin(x, b), suq_cos(-x, b) - suq_cos(x, b), suq_cos(x, 3.0) - x.cos().powi(3)])})
        }
        "flo" => {
            let (k, s) = (geti(op, "k") as f64, geti(op, "s") as i32);
            let h = s / 2;
            let x = k * 2f64.powi(h) * 2f64.powi(s - h);
            let (m, e) = float_decompose(x);
            let g = geti(op, "g") as i32;
            let c = float_compose(k, g);
            json!({"m": xi(m * 65536.0), "ex": e, "back": [bits3(float_compose(m, e)), bits3(x)], "cls": cls(c), "comp": if c.is_finite() && c != 0.0 { let (m, e) = float_decompose(c); json!([xi(m * 65536.0), e]) } else { json!([0, 0]) }})
        }
        "fac" => {
            let n = getu(op, "n");
            gd(|| json!({"q": if n == 0 { xi(factorial_lookup_22(0)) } else { xi(factorial_lookup_22(n) / factorial_lookup_22(n - 1)) }}))
        }
        "sp" => {
            let x = named(gets(op, "x"));
            let n = geti(op, "n") as i32;
            json!({"v": match gets(op, "fn") {
                "gamma" => cls(gamma(x)), "lngamma" => cls(ln_gamma(x).0), "erf" => cls(erf(x)), "erfc" => cls(erfc(x)), "erfinv" => cls(erf_inv(x)), "erfcinv" => cls(erfc_inv(x)),
                "j0" => cls(bessel_j0(x)), "j1" => cls(bessel_j1(x)), "jn" => cls(bessel_jn(n, x)), "y0" => cls(bessel_y0(x)), "y1" => cls(bessel_y1(x)), "yn" => cls(bessel_yn(n, x)),
                "i0" => cls(bessel_i0(x)), "i1" => cls(bessel_i1(x)), "in" => cls(bessel_in(n.unsigned_abs() as usize, x)), "k0" => cls(bessel_k0(x)), "k1" => cls(bessel_k1(x)), "kn" => cls(bessel_kn(n, x)),
                "modx" => cls(modulo(x, 3.0)), "mody" => cls(modulo(1.0, x)), "isint" => if float_is_integer(x) { "yes" } else { "no" }, "isneg" => if float_is_neg_integer(x) { "yes" } else { "no" },
                "betaa" => cls(beta(x, 1.0)), "lnbetaa" => cls(ln_beta(x, 2.5)), "gammaneg" => cls(gamma(-(n.abs() as f64) - 1.0)), "lngammaneg" => cls(ln_gamma(-(n.abs() as f64) - 1.0).0), "gammaover" => cls(gamma(172.0 + n.abs() as f64)),
                "betaneg" => cls(beta(-(n.abs() as f64) - 1.0, 0.5)), "betazero" => cls(beta(0.5, -(n.abs() as f64) - 1.5)), "lnbetazero" => cls(ln_beta(0.5, -(n.abs() as f64) - 1.5)),
                _ => panic!("harness: function"),
            }})
        }
        f => panic!("harness: unknown operation {f}"),
    }
}

pub fn exec(ops: &[Value], log: &mut Log) {
    for op in ops {
        if gets(op, "e") == "reset" {
            log.ev(op, json!({}));
        } else {
            log.ev(op, gd(|| one(op)));
        }
    }
}

pub fn random(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e": "reset", "prop": "L08"})];
    for _ in 0..rng.us(2, 6) {
        let op = match rng.us(0, 15) {
            0 | 1 => json!({"f": "gam", "k": if rng.chance(1, 3) { rng.int(-1920, 0) } else { rng.int(1, 5400) }}),
            2 => json!({"f": "lgam", "j": rng.int(-4, 45), "k": rng.int(1, 31)}),
            3 => {
                let w = *rng.pick(&[60, 300, 4000]);
                let (u, v) = (*rng.pick(&[-100, 1, 1, 1]), *rng.pick(&[-100, 1, 1, 1]));
                json!({"f": "bet", "a": rng.int(u, w), "b": rng.int(v, w)})
            }
            4 => {
                let u = *rng.pick(&[-48, 1]);
                json!({"f": "bas", "a": rng.int(2, 100), "b": rng.int(u, 16)})
            }
            5 | 6 => json!({"f": "erf", "k": if rng.chance(1, 3) { rng.int(-520, 520) } else { rng.int(-1680, 1680) }}),
            7 => if rng.chance(3, 4) { json!({"f": "inv", "k": rng.int(-1023, 1023)}) } else { json!({"f": "tail", "k": rng.int(1, 52)}) },
            8 | 9 | 10 => {
                let (w, n) = (*rng.pick(&[40, 320, 640, 5000, 16000]), *rng.pick(&[3, 8, 20, 60]));
                if rng.chance(1, 6) {
                    json!({"f": "hug", "n": rng.int(0, 40), "k": rng.int(1, 99999), "s": rng.int(40, 1000)})
                } else {
                    json!({"f": "bes", "n": rng.int(1, n), "k": rng.int(1, w)})
                }
            }
            11 | 12 => {
                let (m, w) = (-(rng.chance(1, 20) as i64), *rng.pick(&[16, 40]));
                let (j, u) = (-(rng.chance(1, 20) as i64), 16 + rng.chance(1, 20) as i64);
                json!({"f": "ell", "m": rng.int(m, w), "n": rng.int(-20, 30), "j": rng.int(j, u)})
            }
            13 => { let w = *rng.pick(&[6, 12, 30]); let n = rng.int(1, w); json!({"f": "pol", "n": n, "k": if n <= 6 { rng.int(-40, 40) } else { rng.int(-16, 16) }}) }
            14 => match rng.us(0, 3) {
                0 => json!({"f": "gau", "n": rng.int(1, 24), "lob": rng.int(0, 1)}),
                1 => json!({"f": "chp", "n": rng.int(1, 40)}),
                2 => json!({"f": "flo", "k": rng.int(-300, 300), "s": rng.int(-1074, 1014), "g": *rng.pick(&[-1090, -1082, -1074, -1000, -5, 0, 7, 1000, 1013, 1015, 1023, 1024, 2000])}),
                _ => json!({"f": "fac", "n": rng.int(0, 24)}),
            },
            _ => json!({"f": "ele", "k": rng.int(-100, 100), "j": rng.int(-50, 50), "n": rng.int(-40, 40), "b": rng.int(0, 6), "a": rng.int(-3, 3)}),
        };
        let mut op = op;
        op["e"] = json!("op");
        ops.push(op);
    }
    ops
}
