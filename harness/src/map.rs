use crate::pde::whole;
use crate::util::*;
use russell_lab::Vector;
use russell_pde::*;
use serde_json::{Value, json};

/// one component: terms (a, b, c, coefficient) of r^a s^b t^c
type Terms = Vec<Vec<[f64; 4]>>;

fn terms(op: &Value) -> Terms {
    geta(op, "terms")
        .iter()
        .map(|c| {
            c.as_array()
                .unwrap()
                .iter()
                .map(|t| {
                    let v: Vec<f64> = t.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect();
                    [v[0], v[1], v[2], v[3]]
                })
                .collect()
        })
        .collect()
}
/// unit of length (a power of two)
fn unit(op: &Value) -> f64 {
    f64::powi(2.0, op.get("ks").map_or(0, |k| k.as_i64().unwrap() as i32))
}
/// k-th derivative of x^a
fn pw(a: f64, x: f64, k: usize) -> f64 {
    let mut c = 1.0;
    let mut a = a;
    for _ in 0..k {
        c *= a;
        a -= 1.0;
    }
    if c == 0.0 { 0.0 } else { c * x.powi(a as i32) }
}
fn put(out: &mut Vector, t: &Terms, x: [f64; 3], k: [usize; 3]) {
    for i in 0..out.dim() {
        out[i] = t[i].iter().map(|m| m[3] * pw(m[0], x[0], k[0]) * pw(m[1], x[1], k[1]) * pw(m[2], x[2], k[2])).sum();
    }
}
/// point with coordinate `axis` fixed and the others given in order
fn on(dim: usize, axis: usize, v: f64, u: [f64; 2]) -> [f64; 3] {
    let mut x = [0.0; 3];
    let mut n = 0;
    for k in 0..dim {
        if k == axis {
            x[k] = v;
        } else {
            x[k] = u[n];
            n += 1;
        }
    }
    x
}
fn make2(t: &Terms, n: [usize; 3], second: bool) -> Result<Transfinite2d, &'static str> {
    let side = |f: usize, k: usize| -> FnVec1Param1 {
        let t = t.clone();
        let (axis, v) = (f / 2 % 2, if f % 2 == 0 { -1.0 } else { 1.0 });
        let mut d = [0; 3];
        d[1 - axis] = k;
        Box::new(move |x, u| put(x, &t, on(2, axis, v, [u, 0.0]), d))
    };
    let f = |k: usize| (0..n[k]).map(|s| side(s, k)).collect::<Vec<_>>();
    Transfinite2d::new(f(0), f(1), if second { Some(f(2)) } else { None })
}
fn make3(t: &Terms, n: [usize; 3], second: bool) -> Result<Transfinite3d, &'static str> {
    let face = |f: usize| {
        let (axis, v) = (f / 2 % 3, if f % 2 == 0 { -1.0 } else { 1.0 });
        let o: Vec<usize> = (0..3).filter(|k| *k != axis).collect();
        (axis, v, o[0], o[1])
    };
    let unit = |list: &[usize]| {
        let mut d = [0; 3];
        for k in list {
            d[*k] += 1;
        }
        d
    };
    let f0 = (0..n[0])
        .map(|f| {
            let (t, (axis, v, _, _)) = (t.clone(), face(f));
            let b: FnVec1Param2 = Box::new(move |x, u, w| put(x, &t, on(3, axis, v, [u, w]), [0; 3]));
            b
        })
        .collect();
    let f1 = (0..n[1])
        .map(|f| {
            let (t, (axis, v, p, q)) = (t.clone(), face(f));
            let (dp, dq) = (unit(&[p]), unit(&[q]));
            let b: FnVec2Param2 = Box::new(move |x, y, u, w| {
                put(x, &t, on(3, axis, v, [u, w]), dp);
                put(y, &t, on(3, axis, v, [u, w]), dq);
            });
            b
        })
        .collect();
    let f2 = (0..n[2])
        .map(|f| {
            let (t, (axis, v, p, q)) = (t.clone(), face(f));
            let (dp, dq, dm) = (unit(&[p, p]), unit(&[q, q]), unit(&[p, q]));
            let b: FnVec3Param2 = Box::new(move |x, y, z, u, w| {
                put(x, &t, on(3, axis, v, [u, w]), dp);
                put(y, &t, on(3, axis, v, [u, w]), dq);
                put(z, &t, on(3, axis, v, [u, w]), dm);
            });
            b
        })
        .collect();
    Transfinite3d::new(f0, f1, if second { Some(f2) } else { None })
}

fn show(v: &Vector, f: &dyn Fn(f64) -> i64) -> Value {
    Value::Array((0..v.dim()).map(|i| json!(f(v[i]))).collect())
}
fn look2(m: &mut Transfinite2d, pts: &[Vec<f64>], f: &dyn Fn(f64) -> i64) -> Value {
    let mut all = vec![];
    for p in pts {
        let (r, s) = (p[0] / 4.0, p[1] / 4.0);
        let mut v: Vec<Vector> = (0..8).map(|_| Vector::initialized(2, |_| 7.5)).collect();
        let [x, a, b, aa, bb, ab, y, z] = v.iter_mut().collect::<Vec<_>>().try_into().ok().unwrap();
        m.point(y, r, s);
        m.point_and_derivs(x, a, b, Some(aa), Some(bb), Some(ab), r, s);
        let (mut a1, mut b1) = (Vector::new(2), Vector::new(2));
        m.point_and_derivs(z, &mut a1, &mut b1, None, None, None, r, s);
        let same = (0..2).all(|i| a1[i] == a[i] && b1[i] == b[i] && z[i] == x[i]);
        all.push(json!({"p":show(y, f),"x":show(x, f),"d":[show(a, f),show(b, f)],"dd":[show(aa, f),show(bb, f),show(ab, f)],"same":same}));
    }
    let c = m.get_corners();
    json!({"st":"ok","at":all,"cor":[show(c.0, f),show(c.1, f),show(c.2, f),show(c.3, f)]})
}
fn look3(m: &mut Transfinite3d, pts: &[Vec<f64>], f: &dyn Fn(f64) -> i64) -> Value {
    let mut all = vec![];
    for p in pts {
        let (r, s, t) = (p[0] / 4.0, p[1] / 4.0, p[2] / 4.0);
        let mut v: Vec<Vector> = (0..12).map(|_| Vector::initialized(3, |_| 7.5)).collect();
        let [x, a, b, c, aa, bb, cc, ab, ac, bc, y, z] = v.iter_mut().collect::<Vec<_>>().try_into().ok().unwrap();
        m.point(y, r, s, t);
        m.point_and_derivs(x, a, b, c, Some(aa), Some(bb), Some(cc), Some(ab), Some(ac), Some(bc), r, s, t);
        let (mut a1, mut b1, mut c1) = (Vector::new(3), Vector::new(3), Vector::new(3));
        m.point_and_derivs(z, &mut a1, &mut b1, &mut c1, None, None, None, None, None, None, r, s, t);
        let same = (0..3).all(|i| a1[i] == a[i] && b1[i] == b[i] && c1[i] == c[i] && z[i] == x[i]);
        all.push(json!({"p":show(y, f),"x":show(x, f),"d":[show(a, f),show(b, f),show(c, f)],
            "dd":[show(aa, f),show(bb, f),show(cc, f),show(ab, f),show(ac, f),show(bc, f)],"same":same}));
    }
    let c = m.get_corners();
    json!({"st":"ok","at":all,"cor":[show(c.0, f),show(c.1, f),show(c.2, f),show(c.3, f),show(c.4, f),show(c.5, f),show(c.6, f),show(c.7, f)]})
}

fn vecs(v: &Value) -> Vec<Vec<f64>> {
    v.as_array().unwrap().iter().map(|r| r.as_array().map(|r| r.iter().map(|x| x.as_f64().unwrap()).collect()).unwrap_or_default()).collect()
}

pub fn exec(ops: &[Value], log: &mut Log) {
    let mut met: Option<(Metrics, bool, usize)> = None;
    for op in ops {
        let o = match gets(op, "e") {
            "map" => {
                let u = unit(op);
                let mut t = terms(op);
                t.iter_mut().flatten().for_each(|m| m[3] *= u);
                let pts = vecs(&op["pts"]);
                let second = geti(op, "d2") == 1;
                let n: Vec<usize> = getus(op, "n");
                let f = |x: f64| whole(x / u * 262144.0);
                if geti(op, "dim") == 2 {
                    obs(|| make2(&t, [n[0], n[1], n[2]], second), |mut m| look2(&mut m, &pts, &f))
                } else {
                    obs(|| make3(&t, [n[0], n[1], n[2]], second), |mut m| look3(&mut m, &pts, &f))
                }
            }
            "tri" => {
                let t = terms(op);
                obs(
                    || {
                        let mut m = make2(&t, [4, 4, 4], false)?;
                        Ok(m.triangulate(getu(op, "nr"), getu(op, "ns"), geti(op, "cr") == 1, geti(op, "cs") == 1))
                    },
                    |(x, y, tr)| json!({"x":scs(&x, 1e8),"y":scs(&y, 1e8),"tr":tr}),
                )
            }
            "samp" => {
                let p = getf(op, "par");
                let pts = vecs(&op["pts"]);
                let f = |x: f64| sc(x, 1e7);
                obs(
                    || {
                        Ok(match gets(op, "kind") {
                            "quad" => {
                                let w = |x: f64| whole(x * 64.0);
                                look2(&mut TransfiniteSamples::quadrilateral_2d(&p[0..2], &p[2..4], &p[4..6], &p[6..8]), &pts, &w)
                            }
                            "quarter" => look2(&mut TransfiniteSamples::quarter_ring_2d(p[0], p[1]), &pts, &f),
                            "half" => look2(&mut TransfiniteSamples::half_ring_2d(p[0], p[1]), &pts, &f),
                            "lozenge" => look2(&mut TransfiniteSamples::quarter_perforated_lozenge_2d(p[0], p[1]), &pts, &f),
                            "brick" => {
                                let w = |x: f64| whole(x * 64.0);
                                look3(&mut TransfiniteSamples::brick_3d(p[0], p[1], p[2]), &pts, &w)
                            }
                            _ => look3(&mut TransfiniteSamples::quarter_ring_3d(p[0], p[1], p[2]), &pts, &f),
                        })
                    },
                    |v| v,
                )
            }
            "mnew" => {
                let (dim, hom) = (getu(op, "dim"), geti(op, "hom") == 1);
                met = Some((Metrics::new(dim, hom), hom, dim));
                json!({"st":"ok"})
            }
            "met" => {
                let (m, hom, dim) = met.as_mut().unwrap();
                let u = unit(op);
                let grown = |v: &Vec<f64>| Vector::initialized(v.len(), |i| v[i] * u);
                let d: Vec<Vector> = vecs(&op["d"]).iter().map(grown).collect();
                let dd: Vec<Option<Vector>> = vecs(&op["dd"]).iter().map(|v| if v.is_empty() { None } else { Some(grown(v)) }).collect();
                let q = |k: usize| dd[k].as_ref();
                let res = guarded(|| {
                    if geti(op, "call") == 2 {
                        m.calculate_2d(&d[0], &d[1], q(0), q(1), q(2))
                    } else {
                        m.calculate_3d(&d[0], &d[1], &d[2], q(0), q(1), q(2), q(3), q(4), q(5))
                    }
                });
                match res {
                    Err(p) => json!({"st":"panic","msg":p}),
                    Ok(Err(e)) => json!({"st":"err","msg":e}),
                    Ok(Ok(g)) => {
                        let n = *dim;
                        let g = g / u.powi(2 * n as i32);
                        let mut o = json!({"st":"ok","g":whole(g),
                            "cov":(0..n).map(|i| show(&m.g_cov[i], &|x| whole(x / u))).collect::<Vec<_>>(),
                            "ctr":(0..n).map(|i| show(&m.g_ctr[i], &|x| whole(x * u * g))).collect::<Vec<_>>(),
                            "gm":(0..n).map(|i| (0..n).map(|j| whole(m.g_mat.get(i, j) / u / u)).collect::<Vec<_>>()).collect::<Vec<_>>(),
                            "gg":(0..n).map(|i| (0..n).map(|j| whole(m.gg_mat.get(i, j) * u * u * g)).collect::<Vec<_>>()).collect::<Vec<_>>()});
                        if !*hom {
                            o["ch"] = json!((0..n).map(|k| (0..n).map(|i| (0..n).map(|j| whole(m.christoffel_second[k][i][j] * g)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>());
                            o["ell"] = json!((0..n).map(|k| whole(m.ell_coefficient_for_laplacian(k) * u * u * g * g)).collect::<Vec<_>>());
                        }
                        o
                    }
                }
            }
            _ => json!({}),
        };
        log.ev(op, o);
    }
}

fn points(rng: &mut Rng, dim: usize, n: usize) -> Value {
    json!((0..n).map(|_| (0..dim).map(|_| if rng.chance(1, 3) { *rng.pick(&[-4, 4]) } else { rng.int(-4, 4) }).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn poly(rng: &mut Rng, dim: usize, maxdeg: i64, count: usize) -> Value {
    json!(
        (0..dim)
            .map(|_| {
                (0..count)
                    .map(|_| {
                        let mut t = rng.ints(dim, 0, maxdeg);
                        t.resize(3, 0);
                        t.push(rng.int(-5, 5));
                        t
                    })
                    .collect::<Vec<_>>()
            })
            .collect::<Vec<_>>()
    )
}

pub fn random(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e":"reset","prop":"D04"})];
    let dim = rng.us(2, 3);
    match rng.int(0, 9) {
        0..=3 => {
            let d2 = rng.chance(2, 3);
            let nf = 2 * dim;
            let mut n = vec![nf; 3];
            if rng.chance(1, 15) {
                let k = rng.us(0, 2);
                n[k] = rng.us(0, nf + 2);
            }
            let deg = if d2 { rng.int(1, 3) } else { 1 };
            let mut t = poly(rng, dim, deg, 4);
            if dim == 3 && !d2 {
                // flat faces: without second derivatives of the boundaries, these are taken as zero
                for m in t.as_array_mut().unwrap().iter_mut().flat_map(|c| c.as_array_mut().unwrap().iter_mut()) {
                    let k = rng.us(0, 3);
                    *m = json!([(k == 0) as i64, (k == 1) as i64, (k == 2) as i64, m[3]]);
                }
            }
            ops.push(json!({"e":"map","dim":dim,"d2":d2 as i64,"n":n,"terms":t,"pts":points(rng, dim, 4),"ks":*rng.pick(&[0, 0, -3, -12, -30, 7, 20])}));
        }
        4 => {
            let n = [1, 2, 3, 4, 8, 5, 6];
            ops.push(json!({"e":"tri","nr":rng.pick(&n)+1,"ns":rng.pick(&n)+1,"cr":rng.int(0, 1),"cs":rng.int(0, 1),
                "terms":[[[1,0,0,rng.int(1, 3)],[0,0,0,rng.int(-2, 2)]],[[0,1,0,rng.int(-3, -1)],[0,0,0,rng.int(-2, 2)]]]}));
        }
        5 | 6 => {
            let kind = *rng.pick(&["quad", "quarter", "half", "lozenge", "brick", "ring3"]);
            let a = rng.int(1, 4);
            let b = a + rng.int(1, 3);
            let par = match kind {
                "quad" => rng.ints(8, -5, 5),
                "brick" => rng.ints(3, 1, 6),
                "ring3" => vec![a, b, rng.int(1, 6)],
                _ => vec![a, b],
            };
            let dim = if kind == "brick" || kind == "ring3" { 3 } else { 2 };
            ops.push(json!({"e":"samp","kind":kind,"par":par,"pts":points(rng, dim, 6)}));
        }
        _ => {
            let hom = rng.chance(1, 4);
            ops.push(json!({"e":"mnew","dim":dim,"hom":hom as i64}));
            for _ in 0..3 {
                let call = if rng.chance(1, 20) { 5 - dim } else { dim };
                let vd = if rng.chance(1, 20) { 5 - call } else { call };
                let mut d: Vec<Vec<i64>> = (0..call).map(|_| rng.ints(call, -3, 3)).collect();
                if vd != call {
                    let k = rng.us(0, call - 1);
                    d[k] = rng.ints(vd, -3, 3);
                }
                if rng.chance(1, 12) {
                    d[1] = d[0].clone();
                }
                let nd = if call == 2 { 3 } else { 6 };
                let mut dd: Vec<Vec<i64>> = (0..nd).map(|_| rng.ints(call, -3, 3)).collect();
                if rng.chance(1, 10) {
                    let k = rng.us(0, nd - 1);
                    dd[k] = vec![];
                }
                ops.push(json!({"e":"met","call":call,"d":d,"dd":dd,"ks":if dim == 2 { rng.int(-8, 8) } else { rng.int(-5, 6) }}));
            }
        }
    }
    ops
}
