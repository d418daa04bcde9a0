use crate::util::*;
use russell_lab::Vector;
use russell_pde::*;
use russell_sparse::{CooMatrix, Genie, Sym};
use serde_json::{Value, json};

fn side(v: &Value) -> Side {
    Side::from_index(getu(v, "side"))
}

fn sym(s: &str) -> Sym {
    match s {
        "no" => Sym::No,
        "full" => Sym::YesFull,
        "lower" => Sym::YesLower,
        _ => Sym::YesUpper,
    }
}

/// entries of a triplet matrix with scaled values; values must be integers after scaling
fn coo(a: &CooMatrix, s: f64) -> Value {
    let (m, n, nnz, y) = a.get_info();
    let t: Vec<Value> = (0..nnz).map(|k| json!([a.get_row_indices()[k] + 1, a.get_col_indices()[k] + 1, whole(a.get_values()[k] * s)])).collect();
    let y = match y {
        Sym::No => "no",
        Sym::YesFull => "full",
        Sym::YesLower => "lower",
        Sym::YesUpper => "upper",
    };
    json!({"m":m,"n":n,"sym":y,"t":t})
}

/// integer nearest to a value that is an integer up to rounding
pub fn whole(x: f64) -> i64 {
    if !x.is_finite() {
        NOT_FIN
    } else if (x - x.round()).abs() > 1e-9 * (1.0 + x.abs()) {
        NOT_INT
    } else {
        sc(x, 1.0)
    }
}
fn wholes(v: &Vector, s: f64) -> Value {
    Value::Array((0..v.dim()).map(|i| json!(whole(v[i] * s))).collect())
}
/// how many of the extra entries asked for can still be put
fn free(a: &mut CooMatrix, extra: usize) -> usize {
    (0..extra).take_while(|_| a.put(0, 0, 0.0).is_ok()).count()
}
fn one(v: &[usize]) -> Value {
    json!(v.iter().map(|m| m + 1).collect::<Vec<_>>())
}
fn poly(c: Vec<f64>) -> impl Fn(f64, f64) -> f64 + Send + Sync + Clone {
    move |x, y| {
        let mut s = c[0];
        if c.len() > 1 {
            s += c[1] * x;
        }
        if c.len() > 2 {
            s += c[2] * y;
        }
        if c.len() > 3 {
            s += c[3] * x * y;
        }
        s
    }
}

fn eqs(h: &EquationHandler) -> Value {
    let n = h.neq();
    let iu: Vec<i64> = (0..n).map(|e| if h.is_unknown(e) { h.iu(e) as i64 + 1 } else { 0 }).collect();
    let ip: Vec<i64> = (0..n).map(|e| if h.is_prescribed(e) { h.ip(e) as i64 + 1 } else { 0 }).collect();
    json!({"neq":n,"nu":h.nu(),"np":h.np(),"us":one(h.unknown()),"ps":one(h.prescribed()),"iu":iu,"ip":ip})
}

enum Bcs<'a> {
    One(EssentialBcs1d<'a>, NaturalBcs1d<'a>),
    Two(EssentialBcs2d<'a>, NaturalBcs2d<'a>),
}

fn make1(g: &Value) -> Result<Grid1d, &'static str> {
    let d = geti(g, "d") as f64;
    let x: Vec<f64> = getf(g, "x").iter().map(|v| v / d).collect();
    match gets(g, "k") {
        "uni" => Grid1d::new_uniform(x[0], x[1], getu(g, "gx")),
        "list" => Grid1d::new(&x),
        _ => Grid1d::new_chebyshev_gauss_lobatto(getu(g, "gx")),
    }
}
fn make2(g: &Value) -> Result<Grid2d, &'static str> {
    let d = geti(g, "d") as f64;
    let x: Vec<f64> = getf(g, "x").iter().map(|v| v / d).collect();
    let y: Vec<f64> = getf(g, "y").iter().map(|v| v / d).collect();
    match gets(g, "k") {
        "uni" => Grid2d::new_uniform(x[0], x[1], y[0], y[1], getu(g, "gx"), getu(g, "gy")),
        "list" => Grid2d::new(&x, &y),
        _ => Grid2d::new_chebyshev_gauss_lobatto(getu(g, "gx"), getu(g, "gy")),
    }
}

fn see1(g: Grid1d, s: f64) -> Value {
    let n = g.nx();
    let mut walk = Vec::new();
    g.for_each_coord(|m, x| walk.push(json!([m + 1, sc(x, s)])));
    let (b0, b1) = g.get_boundary_nodes();
    json!({"rnx":n,"cx":(0..n).map(|m| sc(g.coord(m), s)).collect::<Vec<_>>(), "walk":walk,
        "ix":(0..n).map(|m| json!([g.is_xmin(m), g.is_xmax(m), g.on_boundary(m)])).collect::<Vec<_>>(),
        "sd":[one(g.get_nodes_on_side(Side::Xmin)), one(g.get_nodes_on_side(Side::Xmax))], "bd":[one(b0), one(b1)],
        "dx": g.get_dx().map_or(-1, |v| sc(v, s))})
}
fn see2(g: Grid2d, s: f64) -> Value {
    let n = g.size();
    let mut walk = Vec::new();
    g.for_each_coord(|m, x, y| walk.push(json!([m + 1, sc(x, s), sc(y, s)])));
    let b = g.get_boundary_nodes();
    let mut e: Vec<Vec<usize>> = vec![Vec::new(); 4];
    g.for_each_node_xmin(|m| e[0].push(*m));
    g.for_each_node_xmax(|m| e[1].push(*m));
    g.for_each_node_ymin(|m| e[2].push(*m));
    g.for_each_node_ymax(|m| e[3].push(*m));
    let dd = g.get_dx_dy();
    json!({"rnx":g.nx(),"rny":g.ny(),"size":n,"cg":g.is_chebyshev_gauss_lobatto(),
        "lim":[sc(g.xmin(),s),sc(g.xmax(),s),sc(g.ymin(),s),sc(g.ymax(),s)],
        "co":(0..n).map(|m| json!([sc(g.coord(m).0, s), sc(g.coord(m).1, s)])).collect::<Vec<_>>(), "walk":walk,
        "ij":(0..n).map(|m| { let (i, j) = g.get_ij(m); json!([i + 1, j + 1, g.get_m(i, j) + 1]) }).collect::<Vec<_>>(),
        "ix":(0..n).map(|m| json!([g.is_xmin(m), g.is_xmax(m), g.is_ymin(m), g.is_ymax(m), g.on_boundary(m), g.is_corner(m)])).collect::<Vec<_>>(),
        "sd":(0..4).map(|i| one(g.get_nodes_on_side(Side::from_index(i)))).collect::<Vec<_>>(),
        "bd":[one(b.0), one(b.1), one(b.2), one(b.3)], "each": e.iter().map(|v| one(v)).collect::<Vec<_>>(),
        "dx": dd.map_or(-1, |v| sc(v.0, s)), "dy": dd.map_or(-1, |v| sc(v.1, s))})
}

macro_rules! fdm_see {
    ($f:ident, $op:ident, $src:expr) => {{
        let f = $f;
        let s = geti($op, "ks") as f64; // scale of matrix entries
        let r = geti($op, "rs") as f64; // scale of right-hand sides
        let al = geti($op, "al") as f64;
        let neq = f.get_equations().neq();
        let mut out = json!({"st":"ok","eq":eqs(f.get_equations()),"dsps":[f.get_dims_sps().0, f.get_dims_sps().1],
            "dlmm":[f.get_dims_lmm().0, f.get_dims_lmm().1, f.get_dims_lmm().2]});
        let mut mol = Vec::new();
        for m in 0..neq {
            f.loop_over_molecule(m, |n, v| mol.push(json!([m + 1, n + 1, whole(v * s)])));
        }
        out["mol"] = json!(mol);
        let (aa, ff) = f.get_vectors_lmm($src);
        out["aa0"] = wholes(&aa, 1.0);
        out["ff"] = wholes(&ff, r);
        let (mut mm, cc) = f.get_matrices_lmm(al, getu($op, "extra"), geti($op, "cons") == 1, sym(gets($op, "sym")));
        out["mm"] = coo(&mm, s);
        out["cc"] = cc.map_or(json!(0), |c| coo(&c, 1.0));
        let mut room = free(&mut mm, getu($op, "extra"));
        out["sps"] = json!(0);
        if f.get_dims_sps().0 > 0 {
            let (mut kb, kc) = f.get_matrices_sps(al, getu($op, "extra"), sym(gets($op, "sym")));
            out["kb"] = coo(&kb, s);
            out["kc"] = kc.map_or(json!(0), |c| coo(&c, s));
            room = room.min(free(&mut kb, getu($op, "extra")));
            out["sps"] = json!(1);
        }
        out["room"] = json!(room);
        let (ab, ac, fb) = f.get_vectors_sps($src);
        out["ab0"] = wholes(&ab, 1.0);
        out["ac"] = wholes(&ac, r);
        out["fb"] = wholes(&fb, r);
        let mut u = ab.clone();
        for i in 0..u.dim() {
            u[i] = 1000.0 + i as f64;
        }
        out["join"] = wholes(&f.get_joined_vector_sps(&u, &ac), r);
        if geti($op, "solve") == 1 {
            let sol = |r: Result<Vector, &'static str>| match r {
                Ok(a) => json!({"st":"ok","a":scs(a.as_data(), 1e4),"b":scs(a.as_data(), 1e6),"c":scs(a.as_data(), 1e2)}),
                Err(e) => json!({"st":"err","msg":e}),
            };
            out["s1"] = guarded(|| sol(f.solve_sps(al, $src))).unwrap_or_else(|p| json!({"st":"panic","msg":p}));
            out["s2"] = guarded(|| sol(f.solve_lmm(al, $src))).unwrap_or_else(|p| json!({"st":"panic","msg":p}));
        }
        out
    }};
}

pub fn exec(ops: &[Value], log: &mut Log) {
    log.ev(&ops[0], json!({"e":"reset"}));
    let mut handler: Option<EquationHandler> = None;
    let mut bcs: Option<Bcs> = None;
    for op in &ops[1..] {
        let o = match gets(op, "e") {
            "eqnew" => {
                let h = EquationHandler::new(getu(op, "n"));
                let r = eqs(&h);
                handler = Some(h);
                r
            }
            "eqset" => {
                let h = handler.as_mut().unwrap();
                let p: Vec<usize> = getus(op, "p").iter().map(|e| e - 1).collect();
                match guarded(|| h.recompute(&p)) {
                    Ok(_) => eqs(h).merge(json!({"st":"ok"})),
                    Err(e) => json!({"st":"panic","msg":e}),
                }
            }
            "grid" => {
                let s = if gets(op, "k") == "cgl" { 1e8 } else { geti(op, "d") as f64 * 1e4 };
                if geti(op, "dim") == 1 {
                    obs(|| make1(op), |g| see1(g, s))
                } else {
                    obs(|| make2(op), |g| see2(g, s))
                }
            }
            "bcnew" => {
                bcs = Some(if geti(op, "dim") == 1 {
                    Bcs::One(EssentialBcs1d::new(), NaturalBcs1d::new())
                } else {
                    Bcs::Two(EssentialBcs2d::new(), NaturalBcs2d::new())
                });
                json!({})
            }
            "bc" => {
                let f = if has(op, "c") { poly(getf(op, "c")) } else { poly(vec![0.0]) };
                let g = f.clone();
                let v = match bcs.as_mut().unwrap() {
                    Bcs::One(e, n) => {
                        match gets(op, "k") {
                            "set" => e.set(side(op), move |x| f(x, 0.0)),
                            "per" => e.set_periodic(geti(op, "px") == 1),
                            "hom" => e.set_homogeneous(),
                            _ => n.set(side(op), move |x| g(x, 0.0)),
                        }
                        e.validate(n)
                    }
                    Bcs::Two(e, n) => {
                        match gets(op, "k") {
                            "set" => e.set(side(op), f),
                            "per" => e.set_periodic(geti(op, "px") == 1, geti(op, "py") == 1),
                            "hom" => e.set_homogeneous(),
                            _ => n.set(side(op), g),
                        }
                        e.validate(n)
                    }
                };
                json!({"valid": v.is_ok()})
            }
            "fdm" => {
                let k = getf(op, "k");
                let src = poly(getf(op, "src"));
                let genie = Genie::Umfpack;
                let r = guarded(|| match bcs.take().unwrap() {
                    Bcs::One(e, n) => {
                        let g = match make1(&op["grid"]) {
                            Ok(g) => g,
                            Err(e) => return json!({"st":"badgrid","msg":e}),
                        };
                        match Fdm1d::new(g, e, n, k[0]) {
                            Ok(mut f) => {
                                f.set_solver_options(genie, geti(op, "symm") == 1);
                                fdm_see!(f, op, |x| src(x, 0.0))
                            }
                            Err(e) => json!({"st":"err","msg":e}),
                        }
                    }
                    Bcs::Two(e, n) => {
                        let g = match make2(&op["grid"]) {
                            Ok(g) => g,
                            Err(e) => return json!({"st":"badgrid","msg":e}),
                        };
                        match Fdm2d::new(g, e, n, k[0], k[1]) {
                            Ok(mut f) => {
                                f.set_solver_options(genie, geti(op, "symm") == 1);
                                fdm_see!(f, op, |x, y| src(x, y))
                            }
                            Err(e) => json!({"st":"err","msg":e}),
                        }
                    }
                });
                r.unwrap_or_else(|p| json!({"st":"panic","msg":p}))
            }
            x => panic!("harness: unknown operation {x}"),
        };
        log.ev(op, o);
    }
}

fn rand_grid(rng: &mut Rng, dim: i64) -> Value {
    let k = *rng.pick(&["uni", "uni", "uni", "list", "list", "cgl"]);
    let d = *rng.pick(&[1i64, 2, 3, 10]);
    let big = rng.chance(1, 3);
    let top = if big { 5000 } else { 12 };
    let nx = if rng.chance(1, 20) { rng.int(0, 1) } else { rng.int(2, if dim == 1 { 14 } else { 6 }) };
    let ny = if rng.chance(1, 20) { rng.int(0, 1) } else { rng.int(2, 5) };
    let axis = |rng: &mut Rng, n: i64| -> Vec<i64> {
        let a = rng.int(-top, top);
        match k {
            "uni" => vec![a, a + if rng.chance(1, 20) { rng.int(-2, 0) } else { rng.int(1, top) }],
            "list" => {
                let mut v = vec![];
                let p = rng.int(1, 4);
                let uneven = rng.chance(1, 3);
                let mut x = a;
                for i in 0..n {
                    v.push(x);
                    let lo = if rng.chance(1, 3) { -1 } else { 1 };
                    x += if uneven && i == n / 2 { rng.int(lo, 4) } else { p };
                }
                v
            }
            _ => vec![],
        }
    };
    let x = axis(rng, nx);
    let y = axis(rng, ny);
    json!({"e":"grid","dim":dim,"k":k,"d":d,"x":x,"y":y,"gx":nx,"gy":ny})
}

fn rand_bc(rng: &mut Rng, dim: i64, ops: &mut Vec<Value>) {
    ops.push(json!({"e":"bcnew","dim":dim}));
    let sides = if dim == 1 { 1 } else { 3 };
    let c = |rng: &mut Rng| rng.ints(3, -3, 3);
    if rng.chance(2, 3) {
        // a consistent setting, in random order
        let mut todo = Vec::new();
        let px = rng.chance(1, 5);
        let py = dim == 2 && rng.chance(1, 5);
        for s in 0..=sides {
            if (s < 2 && px) || (s >= 2 && py) {
                continue;
            }
            let k = if rng.chance(3, 5) { "set" } else { "nat" };
            todo.push(json!({"e":"bc","k":k,"side":s,"c":c(rng)}));
            if rng.chance(1, 5) {
                todo.push(json!({"e":"bc","k":k,"side":s,"c":c(rng)}));
            }
        }
        if px || py {
            todo.push(json!({"e":"bc","k":"per","px":px as i64,"py":py as i64}));
        }
        while !todo.is_empty() {
            let k = rng.us(0, todo.len() - 1);
            ops.push(todo.remove(k));
        }
    } else {
        for _ in 0..rng.us(1, 7) {
            let s = rng.int(0, sides);
            ops.push(match rng.us(0, 9) {
                0..=3 => json!({"e":"bc","k":"set","side":s,"c":c(rng)}),
                4..=6 => json!({"e":"bc","k":"nat","side":s,"c":c(rng)}),
                7 => json!({"e":"bc","k":"hom"}),
                _ => json!({"e":"bc","k":"per","px":rng.int(0, 1),"py":rng.int(0, 1)}),
            });
        }
    }
}

fn rand_fdm(rng: &mut Rng, dim: i64) -> Value {
    let (q, px, py) = (rng.int(1, 4), rng.int(1, 3), if dim == 1 { 1 } else { rng.int(1, 3) });
    let nx = if rng.chance(1, 4) { 2 } else { rng.int(3, if dim == 1 { 9 } else { 5 }) };
    let ny = if rng.chance(1, 4) { 2 } else { rng.int(3, 4) };
    let big = rng.chance(1, 6);
    let x0 = if big { rng.int(-900, 900) } else { rng.int(-4, 4) };
    let y0 = rng.int(-4, 4);
    let grid = if rng.chance(3, 4) {
        json!({"dim":dim,"k":"uni","d":q,"x":[x0, x0 + px * (nx - 1)],"y":[y0, y0 + py * (ny - 1)],"gx":nx,"gy":ny})
    } else {
        let mut x: Vec<i64> = (0..nx).map(|i| x0 + px * i).collect();
        if rng.chance(1, 5) && nx > 2 {
            x[nx as usize - 1] += 1;
        }
        let y: Vec<i64> = (0..ny).map(|i| y0 + py * i).collect();
        json!({"dim":dim,"k":"list","d":q,"x":x,"y":y,"gx":nx,"gy":ny})
    };
    json!({"e":"fdm","grid":grid,"pq":[px,py,q],"k":[rng.int(1, 4), rng.int(1, 4)],"al":rng.int(0, 3),"src":rng.ints(4, -3, 3),
        "ks":4 * px * px * py * py,"rs":4 * px * py * q * q,"extra":rng.int(0, 3),"cons":rng.int(0, 1),
        "sym":rng.pick(&["no", "full", "lower", "upper"]),"solve":(!big) as i64,"symm":rng.int(0, 1)})
}

pub fn random(rng: &mut Rng, prop: &str) -> Vec<Value> {
    let mut ops = vec![json!({"prop":prop})];
    let dim = rng.int(1, 2);
    if prop == "D01" {
        match rng.us(0, 2) {
            0 => {
                let n = rng.int(1, 12);
                ops.push(json!({"e":"eqnew","n":n}));
                for _ in 0..rng.us(1, 4) {
                    let k = rng.us(0, n as usize + 1);
                    ops.push(json!({"e":"eqset","p":rng.ints(k, 1, n)}));
                }
            }
            1 => ops.push(rand_grid(rng, dim)),
            _ => {
                rand_bc(rng, dim, &mut ops);
                ops.push(rand_fdm(rng, dim));
            }
        }
    } else {
        rand_bc(rng, dim, &mut ops);
        ops.push(rand_fdm(rng, dim));
    }
    ops
}
