use crate::pde::whole;
use crate::util::*;
use russell_lab::*;
use serde_json::{Value, json};
use std::collections::BTreeMap;

#[derive(Clone)]
enum Slot {
    V(Vector),
    Z(ComplexVector),
    M(Matrix),
    C(ComplexMatrix),
}
use Slot::*;

fn cx(v: &Value) -> Complex64 {
    Complex64::new(v[0].as_f64().unwrap(), v[1].as_f64().unwrap())
}
fn pair(z: Complex64) -> Value {
    json!([xi(z.re), xi(z.im)])
}
fn show(s: &Slot) -> Value {
    match s {
        V(v) => json!((0..v.dim()).map(|i| json!([xi(v[i]), 0])).collect::<Vec<_>>()),
        Z(v) => json!((0..v.dim()).map(|i| pair(v[i])).collect::<Vec<_>>()),
        M(a) => json!({"r":a.nrow(),"c":a.ncol(),"a":(0..a.nrow()).map(|i| (0..a.ncol()).map(|j| json!([xi(a.get(i, j)), 0])).collect::<Vec<_>>()).collect::<Vec<_>>()}),
        C(a) => json!({"r":a.nrow(),"c":a.ncol(),"a":(0..a.nrow()).map(|i| (0..a.ncol()).map(|j| pair(a.get(i, j))).collect::<Vec<_>>()).collect::<Vec<_>>()}),
    }
}
fn make(op: &Value) -> Slot {
    let d = &op["val"];
    let name = gets(op, "o");
    let at = |i: usize, j: usize| cx(&d["a"][i][j]);
    match &name[0..1] {
        "v" => V(Vector::initialized(d.as_array().unwrap().len(), |i| cx(&d[i]).re)),
        "z" => Z(ComplexVector::initialized(d.as_array().unwrap().len(), |i| cx(&d[i]))),
        "m" => M(Matrix::initialized(getu(d, "r"), getu(d, "c"), |i, j| at(i, j).re)),
        _ => C(ComplexMatrix::initialized(getu(d, "r"), getu(d, "c"), |i, j| at(i, j))),
    }
}
fn norm(k: &str) -> Norm {
    match k {
        "euc" => Norm::Euc,
        "fro" => Norm::Fro,
        "inf" => Norm::Inf,
        "max" => Norm::Max,
        _ => Norm::One,
    }
}

/// runs an operation on the output slots `o` (taken out of the pool) and input slots `i`
fn run(op: &Value, o: &mut [Slot], i: &[Slot]) -> Result<Value, &'static str> {
    let s: Vec<Complex64> = geta(op, "s").iter().map(cx).collect();
    let none = json!({});
    let up = has(op, "up") && geti(op, "up") == 1;
    let second = has(op, "sec") && geti(op, "sec") == 1;
    let kind = || norm(gets(op, "kind"));
    // norms are taken in units of a power of two
    let unit = f64::powi(2.0, op.get("ks").map_or(0, |k| k.as_i64().unwrap() as i32));
    let sq = |x: f64| {
        let x = x / unit;
        json!({"q":whole(x * x),"w":whole(x)})
    };
    let vu = |u: &Vector| Vector::initialized(u.dim(), |i| u[i] * unit);
    match (gets(op, "f"), o, i) {
        ("copy", [V(v)], [V(u)]) => vec_copy(v, u).map(|_| none),
        ("copy", [Z(v)], [Z(u)]) => complex_vec_copy(v, u).map(|_| none),
        ("copy", [M(v)], [M(u)]) => mat_copy(v, u).map(|_| none),
        ("copy", [C(v)], [C(u)]) => complex_mat_copy(v, u).map(|_| none),
        ("copys", [V(v)], [V(u)]) => vec_copy_scaled(v, s[0].re, u).map(|_| none),
        ("scale", [V(v)], []) => {
            vec_scale(v, s[0].re);
            Ok(none)
        }
        ("scale", [Z(v)], []) => {
            complex_vec_scale(v, s[0]);
            Ok(none)
        }
        ("scale", [M(v)], []) => {
            mat_scale(v, s[0].re);
            Ok(none)
        }
        ("scale", [C(v)], []) => {
            complex_mat_scale(v, s[0]);
            Ok(none)
        }
        ("add", [V(w)], [V(u), V(v)]) => vec_add(w, s[0].re, u, s[1].re, v).map(|_| none),
        ("add", [Z(w)], [Z(u), Z(v)]) => complex_vec_add(w, s[0], u, s[1], v).map(|_| none),
        ("add", [M(w)], [M(u), M(v)]) => mat_add(w, s[0].re, u, s[1].re, v).map(|_| none),
        ("add", [C(w)], [C(u), C(v)]) => complex_mat_add(w, s[0], u, s[1], v).map(|_| none),
        ("plus", [V(w)], [V(u), V(v)]) => vec_plus(w, u, v).map(|_| none),
        ("plus", [Z(w)], [Z(u), Z(v)]) => complex_vec_plus(w, u, v).map(|_| none),
        ("plus", [M(w)], [M(u), M(v)]) => mat_plus(w, u, v).map(|_| none),
        ("plus", [C(w)], [C(u), C(v)]) => complex_mat_plus(w, u, v).map(|_| none),
        ("minus", [V(w)], [V(u), V(v)]) => vec_minus(w, u, v).map(|_| none),
        ("minus", [Z(w)], [Z(u), Z(v)]) => complex_vec_minus(w, u, v).map(|_| none),
        ("minus", [M(w)], [M(u), M(v)]) => mat_minus(w, u, v).map(|_| none),
        ("minus", [C(w)], [C(u), C(v)]) => complex_mat_minus(w, u, v).map(|_| none),
        ("upd", [V(w)], [V(u)]) => vec_update(w, s[0].re, u).map(|_| none),
        ("upd", [Z(w)], [Z(u)]) => complex_vec_update(w, s[0], u).map(|_| none),
        ("upd", [M(w)], [M(u)]) => mat_update(w, s[0].re, u).map(|_| none),
        ("upd", [C(w)], [C(u)]) => complex_mat_update(w, s[0], u).map(|_| none),
        ("zip", [Z(w)], [V(u), V(v)]) => complex_vec_zip(w, u, v).map(|_| none),
        ("zip", [C(w)], [M(u), M(v)]) => complex_mat_zip(w, u, v).map(|_| none),
        ("unzip", [V(u), V(v)], [Z(w)]) => complex_vec_unzip(u, v, w).map(|_| none),
        ("unzip", [M(u), M(v)], [C(w)]) => complex_mat_unzip(u, v, w).map(|_| none),
        ("mul", [M(c)], [M(a), M(b)]) => mat_mat_mul(c, s[0].re, a, b, s[1].re).map(|_| none),
        ("mul", [C(c)], [C(a), C(b)]) => complex_mat_mat_mul(c, s[0], a, b, s[1]).map(|_| none),
        ("tmul", [M(c)], [M(a), M(b)]) => mat_t_mat_mul(c, s[0].re, a, b, s[1].re).map(|_| none),
        ("tmul", [C(c)], [C(a), C(b)]) => complex_mat_t_mat_mul(c, s[0], a, b, s[1]).map(|_| none),
        ("syrk", [M(c)], [M(a)]) => mat_sym_rank_op(c, a, s[0].re, s[1].re, up, second).map(|_| none),
        ("syrk", [C(c)], [C(a)]) => complex_mat_sym_rank_op(c, a, s[0], s[1], up, second).map(|_| none),
        ("herk", [C(c)], [C(a)]) => complex_mat_herm_rank_op(c, a, s[0].re, s[1].re, up, second).map(|_| none),
        ("band", [M(c)], [M(a)]) => mat_convert_to_blas_band(c, a, getu(op, "ml"), getu(op, "mu")).map(|_| none),
        ("mv", [V(v)], [M(a), V(u)]) => mat_vec_mul(v, s[0].re, a, u).map(|_| none),
        ("mv", [Z(v)], [C(a), Z(u)]) => complex_mat_vec_mul(v, s[0], a, u).map(|_| none),
        ("mvu", [V(v)], [M(a), V(u)]) => mat_vec_mul_update(v, s[0].re, a, u, s[1].re).map(|_| none),
        ("vm", [V(v)], [V(u), M(a)]) => vec_mat_mul(v, s[0].re, u, a).map(|_| none),
        ("vm", [Z(v)], [Z(u), C(a)]) => complex_vec_mat_mul(v, s[0], u, a).map(|_| none),
        ("outer", [M(a)], [V(u), V(v)]) => vec_outer(a, s[0].re, u, v).map(|_| none),
        ("outeru", [M(a)], [V(u), V(v)]) => vec_outer_update(a, s[0].re, u, v).map(|_| none),
        ("sumc", [V(v)], [M(a)]) => mat_sum_cols(v, a).map(|_| none),
        ("sumr", [V(v)], [M(a)]) => mat_sum_rows(v, a).map(|_| none),
        ("inner", [], [V(u), V(v)]) => Ok(json!({"q":whole(vec_inner(u, v))})),
        ("norm", [], [V(u)]) => Ok(sq(vec_norm(&vu(u), kind()))),
        ("norm", [], [Z(u)]) => Ok(sq(complex_vec_norm(&ComplexVector::initialized(u.dim(), |i| u[i] * unit), kind()))),
        ("norm", [], [M(u)]) => Ok(sq(mat_norm(&Matrix::initialized(u.nrow(), u.ncol(), |i, j| u.get(i, j) * unit), kind()))),
        ("norm", [], [C(u)]) => Ok(sq(complex_mat_norm(&ComplexMatrix::initialized(u.nrow(), u.ncol(), |i, j| u.get(i, j) * unit), kind()))),
        ("normc", [], [V(u)]) => Ok(sq(vec_norm_chunk(&vu(u), kind(), getu(op, "lo"), getu(op, "hi")))),
        ("normd", [], [V(u), V(v)]) => Ok(sq(vec_norm_diff(&vu(u), &vu(v), kind()))),
        ("maxabs", [], [V(u), V(v)]) => vec_max_abs_diff(u, v).map(|(k, d)| json!({"at":[k + 1],"q":whole(d)})),
        ("maxabs", [], [M(u), M(v)]) => mat_max_abs_diff(u, v).map(|(k, l, d)| json!({"at":[k + 1, l + 1],"q":whole(d)})),
        ("maxsc", [], [V(u), V(v)]) => Ok(json!({"q":sc(vec_max_scaled(u, v, s[0].re), 1e6)})),
        ("maxscd", [], [V(u), V(v), V(w)]) => Ok(json!({"q":sc(vec_max_scaled_diff(u, v, w), 1e6)})),
        ("rms", [], [V(u), V(v)]) => Ok(json!({"q":sc(vec_rms_scaled(u, v, s[0].re, s[1].re).powi(2) * u.dim() as f64, 1e6)})),
        ("rmsd", [], [V(u), V(v)]) => Ok(json!({"q":sc(vec_rms_scaled_diff(u, v, s[0].re, s[1].re).powi(2) * u.dim() as f64, 1e6)})),
        ("near", [], [V(u), V(v)]) => {
            vec_approx_eq(u, v.as_data(), s[0].re);
            Ok(none)
        }
        ("near", [], [Z(u), Z(v)]) => {
            complex_vec_approx_eq(u, v.as_data(), s[0].re);
            Ok(none)
        }
        ("near", [], [M(u), M(v)]) => {
            let rows: Vec<Vec<f64>> = (0..v.nrow()).map(|i| v.extract_row(i)).collect();
            mat_approx_eq(u, &rows, s[0].re);
            Ok(none)
        }
        ("near", [], [C(u), C(v)]) => {
            let rows: Vec<Vec<Complex64>> = (0..v.nrow()).map(|i| v.extract_row(i)).collect();
            complex_mat_approx_eq(u, &rows, s[0].re);
            Ok(none)
        }
        ("trans", [M(b)], [M(a)]) => {
            *b = a.transposed();
            Ok(none)
        }
        ("trans", [C(b)], [C(a)]) => {
            *b = a.transposed();
            Ok(none)
        }
        ("tri", [M(b)], [M(a)]) => {
            let rows: Vec<Vec<f64>> = (0..a.nrow()).map(|i| a.extract_row(i)).collect();
            *b = if up { Matrix::from_upper(&rows)? } else { Matrix::from_lower(&rows)? };
            Ok(none)
        }
        ("diag", [M(b)], [V(u)]) => {
            *b = Matrix::diagonal(u.as_data());
            Ok(none)
        }
        ("eye", [M(b)], []) => {
            *b = Matrix::identity(getu(op, "ml"));
            Ok(none)
        }
        ("row", [V(u)], [M(a)]) => {
            *u = Vector::from(&a.extract_row(getu(op, "ml")));
            Ok(none)
        }
        ("col", [V(u)], [M(a)]) => {
            *u = Vector::from(&a.extract_column(getu(op, "ml")));
            Ok(none)
        }
        ("elem", [M(a)], []) => {
            let (i, j) = (getu(op, "ml"), getu(op, "mu"));
            match gets(op, "kind") {
                "set" => a.set(i, j, s[0].re),
                "add" => a.add(i, j, s[0].re),
                _ => a.mul(i, j, s[0].re),
            }
            Ok(none)
        }
        ("fill", [V(u)], []) => {
            u.fill(s[0].re);
            Ok(none)
        }
        ("fill", [M(u)], []) => {
            u.fill(s[0].re);
            Ok(none)
        }
        ("split", [V(u), V(v)], [V(w)]) => {
            w.split2(u.as_mut_data(), v.as_mut_data());
            Ok(none)
        }
        ("join", [V(w)], [V(u), V(v)]) => {
            w.join2(u.as_data(), v.as_data());
            Ok(none)
        }
        ("diffs", [V(w)], [V(u)]) => {
            *w = u.get_differences();
            Ok(none)
        }
        ("cumsum", [V(w)], [V(u)]) => {
            *w = u.get_cumulative_sum(if up { Some(s[0].re) } else { None });
            Ok(none)
        }
        ("lins", [V(w)], []) => {
            *w = if up {
                Vector::mapped_linspace(s[0].re, s[1].re, getu(op, "ml"), |x| 3.0 * x)?
            } else {
                Vector::linspace(s[0].re, s[1].re, getu(op, "ml"))?
            };
            Ok(none)
        }
        ("grid", [M(x), M(y), M(z)], []) => {
            let (nx, ny) = (getu(op, "ml"), getu(op, "mu"));
            if up {
                (*x, *y, *z) = generate3d(s[0].re, s[1].re, s[0].im, s[1].im, nx, ny, |u, v| 2.0 * u - 3.0 * v + u * v);
            } else {
                (*x, *y) = generate2d(s[0].re, s[1].re, s[0].im, s[1].im, nx, ny);
            }
            Ok(none)
        }
        ("sadd", [V(w)], [V(u), V(v)]) => {
            let mut t = arr(w);
            small_vec_add(&mut t, s[0].re, &arr(u), s[1].re, &arr(v), getu(op, "ml"));
            *w = Vector::from(&t);
            Ok(none)
        }
        ("supd", [V(w)], [V(u)]) => {
            let mut t = arr(w);
            small_vec_update(&mut t, s[0].re, &arr(u), getu(op, "ml"));
            *w = Vector::from(&t);
            Ok(none)
        }
        ("sadd", [M(w)], [M(u), M(v)]) => {
            let mut t = arm(w);
            small_mat_add(&mut t, s[0].re, &arm(u), s[1].re, &arm(v), getu(op, "ml"));
            *w = Matrix::from(&t);
            Ok(none)
        }
        ("supd", [M(w)], [M(u)]) => {
            let mut t = arm(w);
            small_mat_update(&mut t, s[0].re, &arm(u), getu(op, "ml"));
            *w = Matrix::from(&t);
            Ok(none)
        }
        ("smul", [M(w)], [M(u), M(v)]) => {
            let mut t = arm(w);
            small_mat_mat_mul(&mut t, s[0].re, &arm(u), &arm(v), s[1].re, getu(op, "ml"));
            *w = Matrix::from(&t);
            Ok(none)
        }
        (f, _, _) => {
            let m = format!("unknown operation {f}");
            eprintln!("{m}");
            std::process::exit(3)
        }
    }
}
/// leading 4 entries, zero padded
fn arr(v: &Vector) -> [f64; 4] {
    let mut t = [0.0; 4];
    for i in 0..v.dim().min(4) {
        t[i] = v[i];
    }
    t
}
fn arm(v: &Matrix) -> [[f64; 4]; 4] {
    let mut t = [[0.0; 4]; 4];
    for i in 0..v.nrow().min(4) {
        for j in 0..v.ncol().min(4) {
            t[i][j] = v.get(i, j);
        }
    }
    t
}

pub fn exec(ops: &[Value], log: &mut Log) {
    let mut pool: BTreeMap<String, Slot> = BTreeMap::new();
    for op in ops {
        let o = match gets(op, "e") {
            "new" => {
                pool.insert(gets(op, "o").to_string(), make(op));
                json!({"st":"ok"})
            }
            "op" => {
                let outs: Vec<String> = geta(op, "o").iter().map(|x| x.as_str().unwrap().to_string()).collect();
                let mut o: Vec<Slot> = outs.iter().map(|k| pool[k].clone()).collect();
                let i: Vec<Slot> = geta(op, "i").iter().map(|k| pool[k.as_str().unwrap()].clone()).collect();
                let before: Vec<Value> = i.iter().map(show).collect();
                let mut r = obs(|| run(op, &mut o, &i), |v| v);
                let kept = before == i.iter().map(show).collect::<Vec<_>>();
                r["out"] = Value::Array(o.iter().map(show).collect());
                r["kept"] = json!(kept);
                for (k, s) in outs.iter().zip(o) {
                    pool.insert(k.clone(), s);
                }
                r
            }
            _ => json!({}),
        };
        log.ev(op, o);
    }
}

fn entries(rng: &mut Rng, n: usize, cplx: bool, wide: i64) -> Value {
    json!((0..n).map(|_| json!([rng.int(-wide, wide), if cplx { rng.int(-wide, wide) } else { 0 }])).collect::<Vec<_>>())
}
fn fresh(rng: &mut Rng, name: &str, r: usize, c: usize) -> Value {
    let cplx = name.starts_with('z') || name.starts_with('c');
    let wide = *rng.pick(&[1, 5, 9]);
    let val = if name.starts_with('v') || name.starts_with('z') {
        entries(rng, r, cplx, wide)
    } else {
        json!({"r":r,"c":c,"a":(0..r).map(|_| entries(rng, c, cplx, wide)).collect::<Vec<_>>()})
    };
    json!({"e":"new","o":name,"val":val})
}

pub fn random(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e":"reset","prop":"L01"})];
    // shapes: mostly small, sometimes empty, sometimes beyond the unrolled loops
    let dim = |rng: &mut Rng| match rng.int(0, 9) {
        0 => 0,
        1 => rng.us(6, 9),
        _ => rng.us(1, 5),
    };
    for _ in 0..rng.us(2, 4) {
        let cplx = rng.chance(1, 2);
        let (v, m) = if cplx { ("z", "c") } else { ("v", "m") };
        let f = *rng.pick(&[
            "copy", "copys", "scale", "add", "plus", "minus", "upd", "zip", "unzip", "mul", "tmul", "syrk", "herk", "band", "mv", "mvu", "vm", "outer",
            "outeru", "sumc", "sumr", "inner", "norm", "norm", "normc", "normd", "maxabs", "maxsc", "maxscd", "rms", "rmsd", "near", "trans", "tri",
            "diag", "eye", "row", "col", "elem", "fill", "split", "join", "diffs", "cumsum", "lins", "grid", "sadd", "supd", "smul", "add", "mul", "tmul", "syrk", "herk",
        ]);
        let mat = rng.chance(1, 2);
        // elementwise operations also on long vectors
        let (p, q, k) = (dim(rng), dim(rng), dim(rng));
        let long = if rng.chance(1, 3) { rng.us(0, 40) } else { p };
        let (t, r, c) = if mat { (m, p, q) } else { (v, long, 0) };
        let n = |t: &str, i: usize| format!("{t}{i}");
        let mut want: Vec<(String, usize, usize)> = vec![]; // outputs first
        let mut op = json!({"e":"op","f":f});
        let nout;
        match f {
            "copy" => {
                nout = 1;
                want = vec![(n(t, 0), r, c), (n(t, 1), r, c)];
            }
            "copys" | "diffs" | "cumsum" => {
                nout = 1;
                want = vec![(n("v", 0), long, 0), (n("v", 1), long, 0)];
            }
            "scale" => {
                nout = 1;
                want = vec![(n(t, 0), r, c)];
            }
            "fill" => {
                nout = 1;
                let t = if mat { "m" } else { "v" };
                want = vec![(n(t, 0), r, c)];
            }
            "add" | "plus" | "minus" => {
                nout = 1;
                want = vec![(n(t, 0), r, c), (n(t, 1), r, c), (n(t, 2), r, c)];
            }
            "upd" => {
                nout = 1;
                want = vec![(n(t, 0), r, c), (n(t, 1), r, c)];
            }
            "zip" => {
                nout = 1;
                let (a, b) = if mat { ("c", "m") } else { ("z", "v") };
                want = vec![(n(a, 0), r, c), (n(b, 1), r, c), (n(b, 2), r, c)];
            }
            "unzip" => {
                nout = 2;
                let (a, b) = if mat { ("c", "m") } else { ("z", "v") };
                want = vec![(n(b, 1), r, c), (n(b, 2), r, c), (n(a, 0), r, c)];
            }
            "mul" => {
                nout = 1;
                want = vec![(n(m, 0), p, q), (n(m, 1), p, k), (n(m, 2), k, q)];
            }
            "tmul" => {
                nout = 1;
                want = vec![(n(m, 0), p, q), (n(m, 1), k, p), (n(m, 2), k, q)];
            }
            "syrk" | "herk" => {
                nout = 1;
                let m = if f == "herk" { "c" } else { m };
                let sec = rng.chance(1, 2);
                op["sec"] = json!(sec as i64);
                want = vec![(n(m, 0), p, p), if sec { (n(m, 1), k, p) } else { (n(m, 1), p, k) }];
            }
            "band" => {
                nout = 1;
                let (ml, mu) = (rng.us(0, p.max(1) - 1), rng.us(0, q.max(1) - 1));
                op["ml"] = json!(ml);
                op["mu"] = json!(mu);
                want = vec![(n("m", 0), ml + mu + 1, q), (n("m", 1), p, q)];
            }
            "mv" => {
                nout = 1;
                want = vec![(n(v, 0), p, 0), (n(m, 1), p, q), (n(v, 1), q, 0)];
            }
            "mvu" => {
                nout = 1;
                want = vec![(n("v", 0), p, 0), (n("m", 1), p, q), (n("v", 1), q, 0)];
            }
            "vm" => {
                nout = 1;
                want = vec![(n(v, 0), q, 0), (n(v, 1), p, 0), (n(m, 1), p, q)];
            }
            "outer" | "outeru" => {
                nout = 1;
                want = vec![(n("m", 0), p, q), (n("v", 0), p, 0), (n("v", 1), q, 0)];
            }
            "sumc" | "sumr" => {
                nout = 1;
                want = vec![(n("v", 0), if f == "sumc" { p } else { q }, 0), (n("m", 1), p, q)];
            }
            "inner" | "maxsc" | "rms" | "rmsd" | "normd" => {
                nout = 0;
                want = vec![(n("v", 0), long, 0), (n("v", 1), long, 0)];
            }
            "maxscd" => {
                nout = 0;
                want = vec![(n("v", 0), long, 0), (n("v", 1), long, 0), (n("v", 2), long, 0)];
            }
            "norm" => {
                nout = 0;
                if rng.chance(1, 3) {
                    op["ks"] = json!(*rng.pick(&[-900, -520, -60, 60, 520, 900]));
                }
                want = vec![(n(t, 0), r, c)];
            }
            "normc" => {
                nout = 0;
                if rng.chance(1, 3) {
                    op["ks"] = json!(*rng.pick(&[-900, -520, -60, 60, 520, 900]));
                }
                want = vec![(n("v", 0), long, 0)];
                op["lo"] = json!(rng.us(0, long));
                op["hi"] = json!(rng.us(0, long + 1));
            }
            "maxabs" => {
                nout = 0;
                let t = if mat { "m" } else { "v" };
                want = vec![(n(t, 0), r, c), (n(t, 1), r, c)];
            }
            "near" => {
                nout = 0;
                // matrices given as rows cannot have rows without columns
                let (r, c) = if mat { (r.max(1), c.max(1)) } else { (r, c) };
                want = vec![(n(t, 0), r, c), (n(t, 1), r, c)];
            }
            "trans" => {
                nout = 1;
                want = vec![(n(m, 0), 1, 1), (n(m, 1), p, q)];
            }
            "tri" => {
                nout = 1;
                let q = if rng.chance(3, 4) { p.max(1) } else { q.max(1) };
                want = vec![(n("m", 0), 1, 1), (n("m", 1), p.max(1), q)];
            }
            "diag" => {
                nout = 1;
                want = vec![(n("m", 0), 1, 1), (n("v", 1), p, 0)];
            }
            "eye" => {
                nout = 1;
                op["ml"] = json!(p);
                want = vec![(n("m", 0), 1, 1)];
            }
            "row" | "col" => {
                nout = 1;
                let (p, q) = (p.max(1), q.max(1));
                op["ml"] = json!(rng.us(0, if f == "row" { p - 1 } else { q - 1 }));
                want = vec![(n("v", 0), 1, 0), (n("m", 1), p, q)];
            }
            "elem" => {
                nout = 1;
                let (p, q) = (p.max(1), q.max(1));
                op["ml"] = json!(rng.us(0, p - 1));
                op["mu"] = json!(rng.us(0, q - 1));
                want = vec![(n("m", 0), p, q)];
            }
            "split" => {
                nout = 2;
                want = vec![(n("v", 0), p, 0), (n("v", 1), q, 0), (n("v", 2), p + q, 0)];
            }
            "join" => {
                nout = 1;
                want = vec![(n("v", 2), p + q, 0), (n("v", 0), p, 0), (n("v", 1), q, 0)];
            }
            "lins" => {
                nout = 1;
                op["ml"] = json!(*rng.pick(&[0usize, 1, 2, 3, 5, 9, 17]));
                want = vec![(n("v", 0), 1, 0)];
            }
            "grid" => {
                nout = 3;
                op["ml"] = json!(*rng.pick(&[0usize, 1, 2, 3, 5, 9]));
                op["mu"] = json!(*rng.pick(&[0usize, 1, 2, 3, 5, 9]));
                want = vec![(n("m", 0), 1, 1), (n("m", 1), p, q), (n("m", 2), 2, 2)];
            }
            "smul" => {
                nout = 1;
                op["ml"] = json!(rng.us(0, 5));
                want = vec![(n("m", 0), 4, 4), (n("m", 1), 4, 4), (n("m", 2), 4, 4)];
            }
            _ => {
                nout = 1;
                op["ml"] = json!(rng.us(0, 5));
                let (t, r, c) = if mat { ("m", 4, 4) } else { ("v", 4, 0) };
                want.push((n(t, 0), r, c));
                want.push((n(t, 1), r, c));
                if f == "sadd" {
                    want.push((n(t, 2), r, c));
                }
            }
        }
        // reuse of an input, wrong shapes
        let last = want.len() - 1;
        let mut names: Vec<String> = want.iter().map(|w| w.0.clone()).collect();
        if want.len() - nout >= 2 && want[last].0[0..1] == want[last - 1].0[0..1] && want[last].1 == want[last - 1].1 && want[last].2 == want[last - 1].2 && rng.chance(1, 5) {
            names[last] = names[last - 1].clone();
        }
        // keep what earlier steps left in the pool, sometimes
        if rng.chance(1, 12) && !["row", "col", "elem", "tri"].contains(&f) {
            let j = rng.us(0, last);
            let w = &mut want[j];
            if rng.chance(1, 2) { w.1 += 1 } else { w.2 += 1 }
        }
        for w in &want {
            if !(ops.iter().any(|o| o["e"] == "new" && o["o"] == w.0.as_str()) && rng.chance(1, 6) && !["row", "col", "elem", "tri"].contains(&f)) {
                let mut x = fresh(rng, &w.0, w.1, w.2);
                if f == "herk" && w.0 == "c0" {
                    for k in 0..w.1.min(w.2) {
                        x["val"]["a"][k][k][1] = json!(0);
                    }
                }
                ops.push(x);
            }
        }
        let cplx = names[0].starts_with('z') || names[0].starts_with('c');
        let c = |rng: &mut Rng| if cplx { json!([rng.int(-3, 3), rng.int(-2, 2)]) } else { json!([*rng.pick(&[0, 1, -1, 2, 3, -2]), 0]) };
        op["s"] = match f {
            "rms" | "rmsd" => json!([[rng.int(1, 3), 0], [rng.int(0, 2), 0]]),
            "maxsc" => json!([[rng.int(1, 3), 0]]),
            "near" => json!([[*rng.pick(&[0, 5, 18, 30]), 0]]),
            "herk" => json!([[rng.int(-2, 3), 0], [rng.int(-2, 3), 0]]),
            "lins" => {
                let (a, d) = (rng.int(-9, 9), rng.int(-5, 5));
                json!([[a, 0], [a + d * (geti(&op, "ml") - 1).max(0), 0]])
            }
            "grid" => {
                let (a, d, b, g) = (rng.int(-9, 9), rng.int(-5, 5), rng.int(-9, 9), rng.int(-5, 5));
                let end = |lo: i64, h: i64, k: &str| if geti(&op, k) > 1 { lo + h * (geti(&op, k) - 1) } else { lo + h };
                json!([[a, b], [end(a, d, "ml"), end(b, g, "mu")]])
            }
            _ => json!([c(rng), c(rng)]),
        };
        op["up"] = json!(rng.int(0, 1));
        op["kind"] = json!(if f == "elem" { *rng.pick(&["set", "add", "mul"]) } else { *rng.pick(&["euc", "fro", "inf", "max", "one"]) });
        op["o"] = json!(names[0..nout]);
        op["i"] = json!(names[nout..]);
        ops.push(op);
    }
    ops
}
