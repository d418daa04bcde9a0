use crate::util::*;
use russell_lab::Vector;
use russell_pde::*;
use serde_json::{Value, json};

type Poly = Vec<Vec<f64>>;

fn mat(v: &Value) -> Poly {
    v.as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect()).collect()
}
fn eval(p: &Poly, x: f64, y: f64) -> f64 {
    p.iter().enumerate().map(|(i, r)| r.iter().enumerate().map(|(j, c)| c * x.powi(i as i32) * y.powi(j as i32)).sum::<f64>()).sum()
}

/// boundary curves of a quadrilateral with corners a, b, c, d whose sides may bulge
fn quad(q: &Poly, bend: &Poly, d: f64) -> Transfinite2d {
    let (a, b, c, e) = (q[0].clone(), q[1].clone(), q[2].clone(), q[3].clone());
    let ends = [(a.clone(), e.clone()), (b.clone(), c.clone()), (a, b), (e, c)];
    let mut f: [Vec<FnVec1Param1>; 3] = [vec![], vec![], vec![]];
    for (s, (p, q)) in ends.iter().enumerate() {
        for k in 0..3 {
            let (p, q, w) = (p.clone(), q.clone(), bend[s].clone());
            f[k].push(Box::new(move |x, u| {
                for i in 0..2 {
                    x[i] = match k {
                        0 => p[i] * (1.0 - u) / 2.0 + q[i] * (1.0 + u) / 2.0 + w[i] * (1.0 - u * u),
                        1 => (q[i] - p[i]) / 2.0 - 2.0 * w[i] * u,
                        _ => -2.0 * w[i],
                    } / d;
                }
            }));
        }
    }
    let [f0, f1, f2] = f;
    Transfinite2d::new(f0, f1, Some(f2)).unwrap()
}

fn shown(r: Result<Vector, &'static str>) -> (Value, Option<Vector>) {
    match r {
        Ok(a) => (json!({"st":"ok","a":scs(a.as_data(), 1e6)}), Some(a)),
        Err(e) => (json!({"st":"err","msg":e}), None),
    }
}

/// reference points along one axis
fn cgl(n: usize) -> Value {
    match Grid1d::new_chebyshev_gauss_lobatto(n) {
        Ok(g) => json!((0..n).map(|m| sc(g.coord(m), 1e8)).collect::<Vec<_>>()),
        Err(_) => json!([]),
    }
}

macro_rules! see {
    ($f:ident, $op:ident, $src:expr, $xs:ident, $ys:ident, $two:expr) => {{
        let al = geti($op, "al") as f64;
        let (s1, _) = shown($f.solve_sps(al, $src));
        let (s2, a) = shown($f.solve_lmm(al, $src));
        let (ds, dl) = ($f.get_dims_sps(), $f.get_dims_lmm());
        let (_, cc) = $f.get_matrices_lmm(al, 0, true);
        let mut o = json!({"st":"ok","s1":s1,"s2":s2,"x":scs(&$xs, 1e8),"y":scs(&$ys, 1e8),"r":cgl(getu($op, "gx")),"s":cgl(getu($op, "gy")),"dsps":[ds.0,ds.1],"dlmm":[dl.0,dl.1,dl.2],
            "ps":$f.get_equations().prescribed().iter().map(|m| m + 1).collect::<Vec<_>>(),
            "cc":cc.map_or(json!(0), |c| json!((0..c.get_info().2).map(|k| json!([c.get_row_indices()[k] + 1, c.get_col_indices()[k] + 1, xi(c.get_values()[k])])).collect::<Vec<_>>())),
            "bad": $f.calculate_flow_vectors(&Vector::new(ds.0 + ds.1 + 1)).is_err()});
        if let Some(a) = a {
            let w = $f.calculate_flow_vectors(&a).unwrap();
            let (wx, wy) = $two(w);
            o["wx"] = scs(&wx, 1e5);
            o["wy"] = scs(&wy, 1e5);
        }
        o
    }};
}

pub fn exec(ops: &[Value], log: &mut Log) {
    log.ev(&ops[0], json!({"e":"reset"}));
    for op in &ops[1..] {
        let o = guarded(|| one(op)).unwrap_or_else(|p| json!({"st":"panic","msg":p}));
        log.ev(op, o);
    }
}

fn one(op: &Value) -> Value {
    let d = geti(op, "d") as f64;
    let k = getf(op, "k");
    let (phi, src) = (mat(&op["phi"]), mat(&op["src"]));
    let flux: Vec<Poly> = geta(op, "flux").iter().map(mat).collect();
    let len: Vec<f64> = getf(op, "len2").iter().map(|v| v.sqrt()).collect();
    let sides: Vec<&str> = geta(op, "sides").iter().map(|v| v.as_str().unwrap()).collect();
    let (nx, ny) = (getu(op, "gx"), getu(op, "gy"));
    let per = has(op, "per");
    let (mut xs, mut ys) = (vec![], vec![]);
    if gets(op, "kind") == "1d" {
        let (mut e, mut n) = (EssentialBcs1d::new(), NaturalBcs1d::new());
        for s in 0..2 {
            if sides[s] == "v" || sides[s] == "b" {
                let p = phi.clone();
                e.set(Side::from_index(s), move |x| eval(&p, x, 0.0));
            }
            if sides[s] == "f" || sides[s] == "b" {
                let (p, l) = (flux[s].clone(), len[s]);
                n.set(Side::from_index(s), move |x| eval(&p, x, 0.0) / l);
            }
        }
        if per {
            e.set_periodic(true);
        }
        let b = getf(op, "box");
        let f = match Spc1d::new(b[0] / d, b[1] / d, nx, e, n, k[0]) {
            Ok(f) => f,
            Err(e) => return json!({"st":"err","msg":e}),
        };
        f.for_each_coord(|_, x| {
            xs.push(x);
            ys.push(0.0);
        });
        return see!(f, op, |x| eval(&src, x, 0.0), xs, ys, |w: Vec<f64>| (w, vec![]));
    }
    let (mut e, mut n) = (EssentialBcs2d::new(), NaturalBcs2d::new());
    for s in 0..4 {
        if sides[s] == "v" || sides[s] == "b" {
            let p = phi.clone();
            e.set(Side::from_index(s), move |x, y| eval(&p, x, y));
        }
        if sides[s] == "f" || sides[s] == "b" {
            let (p, l) = (flux[s].clone(), len[s]);
            n.set(Side::from_index(s), move |x, y| eval(&p, x, y) / l);
        }
    }
    if per {
        e.set_periodic(geti(op, "per") != 1, geti(op, "per") != 0);
    }
    if gets(op, "kind") == "2d" {
        let b = getf(op, "box");
        let f = match Spc2d::new(b[0] / d, b[1] / d, b[2] / d, b[3] / d, nx, ny, e, n, k[0], k[1]) {
            Ok(f) => f,
            Err(e) => return json!({"st":"err","msg":e}),
        };
        f.for_each_coord(|_, x, y| {
            xs.push(x);
            ys.push(y);
        });
        see!(f, op, |x, y| eval(&src, x, y), xs, ys, |w| w)
    } else {
        let map = quad(&mat(&op["quad"]), &mat(&op["bend"]), d);
        let mut f = match SpcMap2d::new(map, nx, ny, e, n, k[0]) {
            Ok(f) => f,
            Err(e) => return json!({"st":"err","msg":e}),
        };
        f.for_each_coord(|_, x, y| {
            xs.push(x);
            ys.push(y);
        });
        see!(f, op, |x, y| eval(&src, x, y), xs, ys, |w| w)
    }
}

type P = [[i64; 5]; 5];
fn dx(p: &P) -> P {
    let mut q = [[0; 5]; 5];
    for i in 0..4 {
        for j in 0..5 {
            q[i][j] = (i as i64 + 1) * p[i + 1][j];
        }
    }
    q
}
fn dy(p: &P) -> P {
    let mut q = [[0; 5]; 5];
    for i in 0..5 {
        for j in 0..4 {
            q[i][j] = (j as i64 + 1) * p[i][j + 1];
        }
    }
    q
}
fn lin(t: &[(i64, P)]) -> P {
    let mut q = [[0; 5]; 5];
    for (c, p) in t {
        for i in 0..5 {
            for j in 0..5 {
                q[i][j] += c * p[i][j];
            }
        }
    }
    q
}

pub fn random(rng: &mut Rng) -> Vec<Value> {
    let kind = *rng.pick(&["1d", "2d", "2d", "map", "map", "map"]);
    let d = *rng.pick(&[1i64, 2, 4]);
    let small = rng.chance(1, 4);
    let (nx, ny) = (rng.int(if small { 2 } else { 3 }, if kind == "1d" { 9 } else { 6 }), if kind == "1d" { 1 } else { rng.int(if small { 2 } else { 3 }, 6) });
    let k = [rng.int(1, 4), rng.int(1, 4)];
    let k = if kind == "map" { [k[0], k[0]] } else { k };
    let al = if rng.chance(1, 2) { 0 } else { rng.int(1, 5) };
    let mut sides: Vec<&str> = (0..4).map(|_| if rng.chance(1, 2) { "v" } else { "f" }).collect();
    if rng.chance(1, 12) {
        let s = rng.us(0, 3);
        sides[s] = *rng.pick(&["n", "b"]);
    }
    let ax = |rng: &mut Rng| {
        let a = rng.int(-2 * d, 2 * d - 1);
        (a, rng.int(a + 1, 2 * d))
    };
    let (x0, x1) = ax(rng);
    let (y0, y1) = ax(rng);
    let mut bend = vec![vec![0, 0]; 4];
    // a convex quadrilateral with corners in [-2, 2], counter-clockwise
    let mut q = vec![vec![x0, y0], vec![x1, y0], vec![x1, y1], vec![x0, y1]];
    if kind == "map" {
        loop {
            q = (0..4).map(|_| vec![rng.int(-2 * d, 2 * d), rng.int(-2 * d, 2 * d)]).collect();
            let area = |i: usize| {
                let (a, b, c) = (&q[i], &q[(i + 1) % 4], &q[(i + 2) % 4]);
                (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])
            };
            if (0..4).all(|i| area(i) >= 1 && 2 * area(i) >= d * d) {
                break;
            }
        }
    }
    let mut deg = if kind == "1d" { 4.min(nx - 1) } else { 4.min(nx - 1).min(ny - 1) };
    if kind == "map" && deg >= 2 && rng.chance(1, 3) {
        // bulging sides carry values and stay inside the range
        let s = rng.us(0, 3);
        if sides[s] == "v" && q.iter().all(|p| p.iter().all(|v| v.abs() < 2 * d)) {
            bend[s] = rng.ints(2, -1, 1);
            let m = quad(
                &q.iter().map(|v| v.iter().map(|x| *x as f64).collect()).collect(),
                &bend.iter().map(|v| v.iter().map(|x| *x as f64).collect()).collect(),
                d as f64,
            );
            let mut m = m;
            let (mut x, mut a, mut b) = (Vector::new(2), Vector::new(2), Vector::new(2));
            for i in 0..9 {
                for j in 0..9 {
                    m.point_and_derivs(&mut x, &mut a, &mut b, None, None, None, i as f64 / 4.0 - 1.0, j as f64 / 4.0 - 1.0);
                    if a[0] * b[1] - a[1] * b[0] < 0.1 {
                        bend[s] = vec![0, 0];
                    }
                }
            }
            if bend[s] != [0, 0] {
                deg /= 2;
            }
        }
    }
    let mut phi: P = [[0; 5]; 5];
    for i in 0..5usize {
        for j in 0..5usize {
            let fits = if kind == "2d" { (i as i64) < nx && (j as i64) < ny && i + j <= 4 } else { i + j <= deg as usize };
            if fits && (kind != "1d" || j == 0) && rng.chance(2, 3) {
                phi[i][j] = rng.int(-3, 3);
            }
        }
    }
    let (px, py) = (dx(&phi), dy(&phi));
    let src = lin(&[(-k[0], dx(&px)), (-k[1], dy(&py)), (al, phi)]);
    let mut flux = vec![];
    let mut len2 = vec![];
    for (a, b) in [(3, 0), (1, 2), (0, 1), (2, 3)] {
        let (n0, n1) = if kind == "map" { (q[b][1] - q[a][1], q[a][0] - q[b][0]) } else { ((q[b][1] - q[a][1]).signum(), (q[a][0] - q[b][0]).signum()) };
        flux.push(lin(&[(-k[0] * n0, px), (-k[1] * n1, py)]));
        len2.push(n0 * n0 + n1 * n1);
    }
    let mut op = json!({"e":"spc","kind":kind,"gx":nx,"gy":ny,"d":d,"box":[x0,x1,y0,y1],"quad":q,"bend":bend,"k":k,"al":al,"sides":sides,
        "phi":phi,"src":src,"flux":flux,"len2":len2});
    if rng.chance(1, 30) {
        op["per"] = json!(rng.int(0, 2));
    }
    vec![json!({"prop":"D03"}), op]
}
