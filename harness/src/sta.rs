//! Descriptive statistics and probability distributions
use crate::app::pf;
use crate::util::*;
use num_traits::{Num, NumCast};
use rand::TryRng;
use russell_lab::math::{EULER, PI};
use russell_stat::*;
use serde_json::{Value, json};
use std::convert::Infallible;

fn gd(f: impl FnOnce() -> Value) -> Value {
    match guarded(f) {
        Ok(mut v) => { if !has(&v, "st") { v["st"] = json!("ok"); } v }
        Err(m) => json!({"st": "panic", "msg": m}),
    }
}
fn pfs(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| pf(*x)).collect())
}
fn cls(v: f64) -> &'static str {
    if v.is_nan() { "nan" } else if v == f64::INFINITY { "inf" } else if v == 0.0 { "zero" } else if v == 1.0 { "one" } else if v > 0.0 { "pos" } else { "neg" }
}
const NAN: i64 = 99999;
const INF: i64 = 88888;
/// data values: integers over a denominator, with marks for special values
fn real(k: i64, den: i64) -> f64 {
    match k {
        NAN => f64::NAN,
        INF => f64::INFINITY,
        _ if k == -INF => f64::NEG_INFINITY,
        _ => k as f64 / den as f64,
    }
}
fn cast<T: NumCast>(k: i64, den: i64) -> T {
    T::from(real(k, den)).unwrap()
}

fn hist<T: Num + NumCast + Copy + PartialOrd + std::fmt::Display>(op: &Value) -> Value {
    let den = geti(op, "den");
    let st: Vec<T> = geta(op, "s").iter().map(|k| cast(k.as_i64().unwrap(), den)).collect();
    let mut h = match Histogram::new(&st) {
        Ok(h) => h,
        Err(m) => return json!({"st": "err", "msg": m}),
    };
    let mut out = Vec::new();
    let mut len = 30;
    for a in geta(op, "h") {
        match gets(a, "k") {
            "cnt" => h.count(&geta(a, "x").iter().map(|k| cast::<T>(k.as_i64().unwrap(), den)).collect::<Vec<_>>()),
            "rst" => h.reset(),
            "len" => { len = getu(a, "n"); h.set_bar_max_len(len); }
            "prec" => { h.set_scientific_fmt_precision(getu(a, "n")); }
            _ => panic!("harness: histogram step"),
        }
        h.set_bar_char('#');
        let txt = format!("{:.2}", h);
        let lines: Vec<&str> = txt.lines().collect();
        let zero = lines.len() == 1 && lines[0] == "zero data";
        let bars: Vec<usize> = if zero { vec![] } else { lines[..lines.len() - 1].iter().map(|l| l.matches('#').count()).collect() };
        let shown: Vec<i64> = if zero { vec![] } else { lines[..lines.len() - 1].iter().map(|l| l.split('|').nth(1).unwrap().trim_end_matches('#').trim().parse().unwrap()).collect() };
        let sum: i64 = if zero { 0 } else { lines[lines.len() - 1].split('=').nth(1).unwrap().trim().parse().unwrap() };
        out.push(json!({"c": h.get_counts(), "zero": zero, "bars": bars, "shown": shown, "sum": sum, "len": len}));
    }
    json!({"out": out})
}
fn stats<T: Into<f64> + NumCast + Copy>(op: &Value) -> Value {
    let den = geti(op, "den");
    let x: Vec<T> = geta(op, "x").iter().map(|k| cast(k.as_i64().unwrap(), den)).collect();
    let s = Statistics::new(&x);
    let mut y = x.clone();
    y.reverse();
    y.rotate_left(geta(op, "x").len() / 3);
    let r = Statistics::new(&y);
    let txt = format!("{:.3}", s);
    json!({"v": pfs(&[s.min, s.max, s.mean, s.std_dev * s.std_dev]), "sd": cls(s.std_dev), "perm": pfs(&[s.min - r.min, s.max - r.max, s.mean - r.mean, s.std_dev - r.std_dev]),
        "txt": txt == format!("min = {:.3}\nmax = {:.3}\nmean = {:.3}\nstd_dev = {:.3}\n", s.min, s.max, s.mean, s.std_dev)})
}
fn ordered<T: Num + NumCast + Copy + PartialOrd>(op: &Value) -> Value {
    let den = geti(op, "den");
    let x: Vec<T> = geta(op, "x").iter().map(|k| cast(k.as_i64().unwrap(), den)).collect();
    let back = |v: T| xi((v.to_f64().unwrap() * den as f64).round());
    let q = gd(|| {
        let mut y = x.clone();
        let (a, b, c) = quartiles(&mut y);
        json!({"v": pfs(&[a, b, c]), "y": y.iter().map(|v| back(*v)).collect::<Vec<_>>()})
    });
    let i = gd(|| { let mut y = x.clone(); json!({"v": pf(inter_quartile_range(&mut y))}) });
    let o = gd(|| json!({"o": outliers(&x).iter().map(|(i, v)| json!([i + 1, back(*v)])).collect::<Vec<_>>()}));
    let qs: Vec<Value> = geta(op, "q").iter().map(|k| {
        gd(|| {
            let mut y = x.clone();
            y.sort_by(|a, b| a.partial_cmp(b).unwrap());
            json!({"v": pf(quantile(&y, real(k.as_i64().unwrap(), 128)))})
        })
    }).collect();
    json!({"quart": q, "iqr": i, "outl": o, "qs": qs})
}

pub struct Lcg(u64);
impl TryRng for Lcg {
    type Error = Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Infallible> {
        Ok((self.try_next_u64()? >> 32) as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Infallible> {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        Ok(z ^ (z >> 31))
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Infallible> {
        for b in d {
            *b = self.try_next_u64()? as u8;
        }
        Ok(())
    }
}

enum Dist {
    N(DistributionNormal),
    L(DistributionLognormal),
    G(DistributionGumbel),
    F(DistributionFrechet),
    U(DistributionUniform),
}
macro_rules! each {
    ($d:expr, $v:ident => $e:expr) => {
        match $d {
            Dist::N($v) => $e,
            Dist::L($v) => $e,
            Dist::G($v) => $e,
            Dist::F($v) => $e,
            Dist::U($v) => $e,
        }
    };
}
fn make(d: &str, p: &[f64]) -> Result<Dist, &'static str> {
    Ok(match d {
        "normal" => Dist::N(DistributionNormal::new(p[0], p[1])?),
        "lognormal" => Dist::L(DistributionLognormal::new(p[0], p[1])?),
        "lognormal2" => Dist::L(DistributionLognormal::new_from_mu_sig(p[0], p[1])?),
        "gumbel" => Dist::G(DistributionGumbel::new(p[0], p[1])?),
        "gumbel2" => Dist::G(DistributionGumbel::new_from_mu_sig(p[0], p[1])?),
        "frechet" => Dist::F(DistributionFrechet::new(p[0], p[1], p[2])?),
        "uniform" => Dist::U(DistributionUniform::new(p[0], p[1])?),
        _ => panic!("harness: distribution"),
    })
}

fn dist(op: &Value) -> Value {
    let name = gets(op, "d");
    let p: Vec<f64> = geta(op, "p").iter().map(|k| real(k.as_i64().unwrap(), 8)).collect();
    let d = match make(name, &p) {
        Ok(d) => d,
        Err(m) => return json!({"st": "err", "msg": m}),
    };
    let (mean, var) = each!(&d, v => (v.mean(), v.variance()));
    let pdf = |x: f64| each!(&d, v => v.pdf(x));
    let cdf = |x: f64| each!(&d, v => v.cdf(x));
    // place and width of the standard form
    let (m, s) = match name {
        "lognormal2" => { let v = (1.0 + p[1] * p[1] / (p[0] * p[0])).ln(); (p[0].ln() - v / 2.0, v.sqrt()) }
        "gumbel2" => { let s = p[1] * 6f64.sqrt() / PI; (p[0] - EULER * s, s) }
        "uniform" => (p[0], p[1] - p[0]),
        _ => (p[0], p[1]),
    };
    // argument and its rate with the standard variable
    let at = |u: f64| match name {
        "lognormal" | "lognormal2" => { let x = (m + s * u).exp(); (x, x * s) }
        "frechet" => { let y = s * (u / p[2]).exp(); (m + y, y / p[2]) }
        _ => (m + s * u, s),
    };
    let k0 = geti(op, "k");
    let us: Vec<f64> = (0..9).map(|i| (k0 + i) as f64 / 8.0).collect();
    let f = |u: f64| { let (x, r) = at(u); pdf(x) * r };
    let c = |u: f64| cdf(at(u).0);
    let mut r = json!({
        "c": pfs(&us.iter().map(|u| c(*u)).collect::<Vec<_>>()), "f": pfs(&us.iter().map(|u| f(*u)).collect::<Vec<_>>()),
        "cm": pfs(&us.iter().map(|u| c(-u)).collect::<Vec<_>>()), "fm": pfs(&us.iter().map(|u| f(-u)).collect::<Vec<_>>()),
        "mc": [cls(mean), cls(var)],
    });
    let ts = [f64::NEG_INFINITY, -1e6, -1e3, -50.0, -1.0, 0.0, 1e-12, 1e-9, 1e-3, 1.0, 50.0, 1e3, 1e6, f64::INFINITY];
    let far: Vec<f64> = ts.iter().map(|t| if name.starts_with("logn") { (m + 1.0).exp() * t } else { m + s * t }).collect();
    r["fc"] = json!(far.iter().map(|x| bits3(cdf(*x))).collect::<Vec<_>>());
    r["ff"] = json!(far.iter().map(|x| cls(pdf(*x))).collect::<Vec<_>>());
    r["fe"] = json!([cls(cdf(far[0])), cls(cdf(far[13]))]);
    r["rng"] = json!([bits3(0.0), bits3(1.0)]);
    if mean.is_finite() && var.is_finite() {
        let (lo, hi) = match name {
            "frechet" => (-6.0, 40.0 / (1.0 - 2.0 / p[2])),
            "gumbel" | "gumbel2" => (-6.0, 50.0),
            "uniform" => (0.0, 1.0),
            _ => (-12.0, 12.0 + 2.0 * s),
        };
        let n = if name == "uniform" { 4000 } else { ((hi - lo) * 16.0) as i64 };
        let h = (hi - lo) / n as f64;
        // trapezoidal rule, or midpoints where the density jumps
        let sh = if name == "uniform" { 0.5 } else { 0.0 };
        let (mut a, mut b, mut t) = (0.0, 0.0, 0.0);
        for i in 0..(if name == "uniform" { n } else { n + 1 }) {
            let u = lo + (i as f64 + sh) * h;
            let (x, w) = (at(u).0, f(u) * h);
            t += w;
            a += w * (x - mean);
            b += w * (x - mean) * (x - mean);
        }
        r["mom"] = pfs(&[t, a / var.sqrt(), b / var]);
        r["par"] = pfs(&[mean, var]);
    }
    // samples
    let n = getu(op, "n");
    if n > 0 {
        let draw = |seed: u64| { let mut g = Lcg(seed); (0..n).map(|_| each!(&d, v => v.sample(&mut g))).collect::<Vec<f64>>() };
        let (a, b) = (draw(getu(op, "seed") as u64), draw(getu(op, "seed") as u64));
        let mut cnt = vec![0; 8];
        for x in &a {
            let q = cdf(*x);
            cnt[((q * 8.0) as usize).min(7)] += 1;
        }
        let inside = a.iter().all(|x| x.is_finite() && match name { "uniform" => *x >= p[0] && *x <= p[1], "frechet" => *x >= p[0], "lognormal" | "lognormal2" => *x >= 0.0, _ => true });
        r["smp"] = json!({"cnt": cnt, "same": a == b, "in": inside});
    }
    r
}

fn one(op: &Value) -> Value {
    match (gets(op, "f"), if has(op, "t") { gets(op, "t") } else { "" }) {
        ("hist", "f64") => hist::<f64>(op),
        ("hist", "i32") => hist::<i32>(op),
        ("hist", "u8") => hist::<u8>(op),
        ("stats", "f64") => stats::<f64>(op),
        ("stats", "i32") => stats::<i32>(op),
        ("stats", "u8") => stats::<u8>(op),
        ("ord", "f64") => ordered::<f64>(op),
        ("ord", "i32") => ordered::<i32>(op),
        ("ord", "u8") => ordered::<u8>(op),
        ("dist", _) => dist(op),
        f => panic!("harness: unknown operation {f:?}"),
    }
}
pub fn exec(ops: &[Value], log: &mut Log) {
    for op in ops {
        if gets(op, "e") == "reset" {
            log.ev(op, json!({}));
        } else {
            log.ev(op, gd(|| one(op)));
        }
    }
}

fn data(rng: &mut Rng, t: &str, n: usize) -> Vec<i64> {
    let lo = if t == "u8" { 0 } else { -40 };
    match rng.us(0, 5) {
        0 => vec![rng.int(lo, 40); n],
        1 => (0..n).map(|_| rng.int(0, 2)).collect(),
        2 => { let c = rng.int(lo, 40); (0..n).map(|i| if i == 0 { *[200, c].iter().nth(c as usize & 1).unwrap() } else { c + rng.int(0, 3) }).map(|v| v.max(lo)).collect() }
        3 => (0..n).map(|i| i as i64 * rng.int(0, 2)).collect(),
        _ => (0..n).map(|_| rng.int(lo, 40)).collect(),
    }
}
pub fn random_a(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e": "reset", "prop": "A01"})];
    for _ in 0..rng.us(1, 4) {
        let t = *rng.pick(&["f64", "f64", "i32", "u8"]);
        let den = if t == "f64" { *rng.pick(&[1, 2, 3, 4, 7, 10]) } else { 1 };
        let n = if rng.chance(1, 12) { rng.us(0, 1) } else if rng.chance(1, 6) { rng.us(20, 60) } else { rng.us(1, 12) };
        let mut op = match rng.us(0, 2) {
            0 => {
                let ns = if rng.chance(1, 15) { rng.us(0, 1) } else if rng.chance(1, 6) { rng.us(10, 24) } else { rng.us(2, 9) };
                let mut s: Vec<i64> = vec![];
                let mut v = if t == "u8" { rng.int(0, 10) } else { rng.int(-30, 10) };
                for _ in 0..ns {
                    s.push(v);
                    v += rng.int(1, 9);
                }
                let mut h = vec![];
                for _ in 0..rng.us(1, 6) {
                    let k = rng.us(0, 9);
                    h.push(match k {
                        0 => json!({"k": "rst"}),
                        1 => json!({"k": "len", "n": rng.int(0, 60)}),
                        2 => json!({"k": "prec", "n": rng.int(0, 4)}),
                        _ => {
                            let m = rng.us(0, 20);
                            let mut x = data(rng, t, m);
                            if t == "f64" && rng.chance(1, 6) {
                                for v in x.iter_mut() {
                                    if rng.chance(1, 5) { *v = *rng.pick(&[NAN, INF, -INF]); }
                                }
                            }
                            if !s.is_empty() && rng.chance(1, 2) {
                                for v in x.iter_mut() {
                                    if rng.chance(1, 2) { *v = *rng.pick(&s); }
                                }
                            }
                            json!({"k": "cnt", "x": x})
                        }
                    });
                }
                json!({"f": "hist", "s": s, "h": h})
            }
            1 => json!({"f": "stats", "x": data(rng, t, n)}),
            _ => {
                let mut x = data(rng, t, n);
                if t == "f64" && rng.chance(1, 25) && n > 1 { x[0] = NAN; }
                let q: Vec<i64> = (0..rng.us(1, 5)).map(|_| if rng.chance(1, 15) { *rng.pick(&[-1, 129]) } else if rng.chance(1, 2) { 8 * rng.int(0, 16) } else { rng.int(0, 128) }).collect();
                json!({"f": "ord", "x": x, "q": q})
            }
        };
        op["e"] = json!("op");
        op["t"] = json!(t);
        op["den"] = json!(den);
        ops.push(op);
    }
    ops
}
pub fn random_b(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e": "reset", "prop": "A02"})];
    for _ in 0..rng.us(1, 3) {
        let d = *rng.pick(&["normal", "lognormal", "lognormal2", "gumbel", "gumbel2", "frechet", "uniform"]);
        let mut p = match d {
            "lognormal" => vec![rng.int(-24, 24), rng.int(1, 16)],
            "lognormal2" => vec![rng.int(1, 80), rng.int(1, 80)],
            "frechet" => vec![rng.int(-40, 40), rng.int(1, 60), if rng.chance(1, 3) { rng.int(60, 400) } else { rng.int(2, 60) }],
            "uniform" => { let a = rng.int(-60, 60); vec![a, a + rng.int(1, 80)] }
            _ => vec![rng.int(-80, 80), rng.int(1, 60)],
        };
        if rng.chance(1, 8) {
            let i = rng.us(0, p.len() - 1);
            p[i] = *rng.pick(&[NAN, INF, -INF, 0, -3]);
        }
        ops.push(json!({"e": "op", "f": "dist", "d": d, "p": p, "k": rng.int(-20, 40), "n": if rng.chance(1, 3) { 2000 } else { 0 }, "seed": rng.int(0, 1_000_000_000)}));
    }
    ops
}
