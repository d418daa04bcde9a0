use crate::sparse::sym_of;
use crate::util::*;
use russell_lab::*;
use russell_sparse::prelude::*;
use russell_sparse::*;
use serde_json::{json, Value};

/// integer k with x == k/den exactly (sentinels otherwise)
fn dec(x: f64, den: f64) -> i64 {
    if !x.is_finite() {
        return NOT_FIN;
    }
    let r = (x * den).round();
    if r.abs() > 1.9e9 {
        TOO_BIG
    } else if r / den == x {
        r as i64
    } else {
        NOT_INT
    }
}

fn render(ln: &Value, den: f64, pad: usize, data: bool) -> String {
    let sp = if pad == 1 { "   " } else { " " };
    let lead = if pad == 2 { "\t " } else { "" };
    match gets(ln, "k") {
        "head" => geta(ln, "w").iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>().join(sp),
        "com" => format!("{lead}% 9 9 9"),
        "blank" => lead.to_string(),
        "junk" => "what is this".to_string(),
        "num" => {
            let v: Vec<i64> = geta(ln, "v").iter().map(|x| x.as_i64().unwrap()).collect();
            let mut s = String::from(lead);
            for (k, x) in v.iter().enumerate() {
                if k > 0 {
                    s.push_str(sp);
                }
                if k >= 2 && data {
                    s.push_str(&format!("{:?}", *x as f64 / den));
                } else {
                    s.push_str(&x.to_string());
                }
            }
            s
        }
        _ => panic!("harness: bad line"),
    }
}

fn parse(text: &str, den: f64, vis: bool, cx: bool) -> Value {
    let mut out = Vec::new();
    let mut dims = false;
    for line in text.lines() {
        let t = line.trim();
        if t.starts_with("%%") {
            out.push(json!({"k":"head","w":t.split_whitespace().collect::<Vec<_>>()}));
        } else if t.starts_with('%') {
            out.push(json!({"k":"com"}));
        } else if t.is_empty() {
            out.push(json!({"k":"blank"}));
        } else {
            let mut v = Vec::new();
            let mut ok = true;
            for (k, w) in t.split_whitespace().enumerate() {
                if k < 2 || !dims {
                    match w.parse::<i64>() {
                        Ok(x) => v.push(x),
                        Err(_) => ok = false,
                    }
                } else {
                    match w.parse::<f64>() {
                        Ok(x) => v.push(if vis && cx { sc(x * x * den * den, 1.0) } else { dec(x, den) }),
                        Err(_) => ok = false,
                    }
                }
            }
            dims = true;
            out.push(if ok { json!({"k":"num","v":v}) } else { json!({"k":"junk"}) });
        }
    }
    json!(out)
}

pub fn exec(ops: &[Value], log: &mut Log) {
    let cx = geti(&ops[0], "cx") == 1;
    let den = geti(&ops[0], "den") as f64;
    log.ev(&json!({"e":"reset"}), ops[0].clone());
    let dir = format!("{}/mm-{}", std::env::var("VSCRATCH").unwrap(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    for op in &ops[1..] {
        let path = format!("{dir}/{}.mtx", gets(op, "f"));
        let o = match gets(op, "e") {
            "mmwrite" => {
                let _ = std::fs::remove_file(&path);
                let m = &op["m"];
                let t = geta(m, "trip");
                let (nr, nc, s) = (getu(m, "nrow"), getu(m, "ncol"), sym_of(gets(m, "sym")));
                let vis = geti(op, "vis") == 1;
                let tol = geti(op, "tol") as f64 / den;
                let ix = |x: &Value, k: usize| x[k].as_u64().unwrap() as usize;
                let nm = |x: &Value, k: usize| x[2][k].as_i64().unwrap() as f64 / den;
                let r = if cx {
                    obs(
                        || {
                            let mut a = ComplexCooMatrix::new(nr, nc, t.len().max(1), s)?;
                            for x in t {
                                a.put(ix(x, 0), ix(x, 1), Complex64::new(nm(x, 0), nm(x, 1)))?;
                            }
                            ComplexCscMatrix::from_coo(&a)?.write_matrix_market(&path, vis, tol)
                        },
                        |_| json!({}),
                    )
                } else {
                    obs(
                        || {
                            let mut a = CooMatrix::new(nr, nc, t.len().max(1), s)?;
                            for x in t {
                                a.put(ix(x, 0), ix(x, 1), nm(x, 0))?;
                            }
                            CscMatrix::from_coo(&a)?.write_matrix_market(&path, vis, tol)
                        },
                        |_| json!({}),
                    )
                };
                let text = std::fs::read_to_string(&path).unwrap_or_default();
                r.merge(json!({"lines":parse(&text, den, vis, cx)}))
            }
            "mmput" => {
                let pad = getu(op, "pad");
                let mut dims = false;
                let mut s = String::new();
                for ln in geta(op, "lines") {
                    s.push_str(&render(ln, den, pad, dims));
                    s.push('\n');
                    if gets(ln, "k") == "num" {
                        dims = true;
                    }
                }
                if pad == 2 {
                    s.pop();
                }
                std::fs::write(&path, s).unwrap();
                json!({"st":"ok"})
            }
            "mmedit" => {
                let text = std::fs::read_to_string(&path).unwrap();
                let mut v: Vec<String> = text.lines().map(|x| x.to_string()).collect();
                let at = getu(op, "at") - 1;
                let dims = v[..at].iter().any(|x| !x.trim().is_empty() && !x.trim().starts_with('%'));
                match gets(op, "op") {
                    "del" => {
                        v.remove(at);
                    }
                    "ins" => v.insert(at, render(&op["ln"], den, 0, dims)),
                    "set" => v[at] = render(&op["ln"], den, 0, dims),
                    _ => panic!("harness: bad edit"),
                }
                std::fs::write(&path, v.join("\n")).unwrap();
                json!({"st":"ok"})
            }
            "mmread" => {
                let h = match gets(op, "h") {
                    "lower" => MMsym::LeaveAsLower,
                    "upper" => MMsym::SwapToUpper,
                    "full" => MMsym::MakeItFull,
                    _ => panic!("harness: bad handling"),
                };
                obs(
                    || read_matrix_market(&path, h),
                    |(a, b)| {
                        if let Some(a) = a {
                            let (m, n, nnz, s) = a.get_info();
                            let d = a.as_dense();
                            let rows: Vec<Value> = (0..m).map(|i| Value::Array((0..n).map(|j| json!([dec(d.get(i, j), den), 0])).collect())).collect();
                            json!({"iscx":b.is_some(),"nrow":m,"ncol":n,"nnz":nnz,"sym":crate::sparse::sym_str(s),"dense":rows})
                        } else {
                            let a = b.unwrap();
                            let (m, n, nnz, s) = a.get_info();
                            let d = a.as_dense();
                            let rows: Vec<Value> = (0..m)
                                .map(|i| Value::Array((0..n).map(|j| json!([dec(d.get(i, j).re, den), dec(d.get(i, j).im, den)])).collect()))
                                .collect();
                            json!({"iscx":true,"nrow":m,"ncol":n,"nnz":nnz,"sym":crate::sparse::sym_str(s),"dense":rows})
                        }
                    },
                )
            }
            _ => panic!("harness: unknown op"),
        };
        log.ev(&op.clone().merge(json!({"cx":cx as i64})), o);
    }
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn random(rng: &mut Rng, thorough: bool) -> Vec<Value> {
    let cx = rng.chance(1, 2);
    let den = *rng.pick(&[1i64, 1, 1, 3, 7, 1000, 99991]);
    let mut ops = vec![json!({"cx": cx as i64, "den": den})];
    let nmax = if thorough { 8 } else { 5 };
    let val = |rng: &mut Rng| {
        let z = if rng.chance(1, 5) { 0 } else { rng.int(-99, 99) };
        json!([z, if cx { if rng.chance(1, 3) { 0 } else { rng.int(-99, 99) } } else { 0 }])
    };
    if rng.chance(2, 3) {
        // written file, maybe edited, then read
        let n = rng.us(1, nmax);
        let sym = *rng.pick(&["no", "no", "full", "lower", "upper"]);
        let m = if sym == "no" && rng.chance(1, 2) { rng.us(1, nmax) } else { n };
        let mut t = Vec::new();
        let dup = den == 1 && rng.chance(1, 2);
        for i in 0..m {
            for j in 0..n {
                if (sym == "lower" && j > i) || (sym == "upper" && j < i) || (sym == "full" && j < i) || rng.chance(1, 2) {
                    continue;
                }
                for _ in 0..(1 + dup as usize * rng.us(0, 1)) {
                    let v = val(rng);
                    t.push(json!([i, j, v]));
                    if sym == "full" && i != j {
                        t.push(json!([j, i, v]));
                    }
                }
            }
        }
        if t.is_empty() {
            let v = val(rng);
            t.push(json!([0, 0, v]));
        }
        for k in (1..t.len()).rev() {
            let p = rng.us(0, k);
            t.swap(k, p);
        }
        let tol = if rng.chance(1, 3) { rng.int(0, 50) } else { 0 };
        let rec = json!({"nrow":m,"ncol":n,"sym":sym,"trip":t});
        ops.push(json!({"e":"mmwrite","f":"v","m":rec,"vis":1,"tol":tol}));
        ops.push(json!({"e":"mmwrite","f":"a","m":rec,"vis":0,"tol":tol}));
        if rng.chance(1, 3) {
            // sums of entries must stay exact
            ops[0]["den"] = json!(1);
            let at = rng.us(1, 2);
            let ln = if at == 1 {
                json!({"k":"head","w":["%%MatrixMarket","matrix","coordinate",if cx {"complex"} else {"real"}, *rng.pick(&["general","symmetric","skew"])]})
            } else {
                json!({"k":"num","v":[m as i64 + rng.int(-1, 1), n as i64 + rng.int(-1,1), rng.int(0, 4)]})
            };
            ops.push(json!({"e":"mmedit","f":"a","op":"set","at":at,"ln":ln}));
        }
        for h in ["lower", "upper", "full"] {
            ops.push(json!({"e":"mmread","f":"a","h":h,"herm":0}));
        }
    } else {
        // hand-made file
        let m = rng.int(1, nmax as i64);
        let symm = *rng.pick(&["general", "general", "symmetric", "symmetric", "Hermitian"]);
        let n = if symm == "general" { rng.int(1, nmax as i64) } else if rng.chance(1, 20) { m + 1 } else { m };
        let field = if cx { "complex" } else if symm == "Hermitian" { "real" } else { *rng.pick(&["real", "real", "real", "real", "integer"]) };
        let mut w = vec!["%%MatrixMarket", "matrix", "coordinate", field, symm];
        if rng.chance(1, 15) {
            w.truncate(rng.us(1, 4));
        } else if rng.chance(1, 15) {
            w[rng.us(0, 4)] = "bogus";
        }
        let good_head = w.len() == 5 && !w.contains(&"bogus");
        let mut lines = vec![json!({"k":"head","w":w})];
        let extra = |rng: &mut Rng, lines: &mut Vec<Value>| {
            while rng.chance(1, 4) {
                lines.push(if rng.chance(1, 2) { json!({"k":"com"}) } else { json!({"k":"blank"}) });
            }
        };
        extra(rng, &mut lines);
        let nnz = rng.int(1, 6);
        if !rng.chance(1, 25) {
            lines.push(json!({"k":"num","v":[m,n,nnz]}));
        }
        let cnt = if rng.chance(1, 6) { nnz + rng.int(-1, 1) } else { nnz };
        for _ in 0..cnt {
            extra(rng, &mut lines);
            let mut i = rng.int(1, m);
            let mut j = rng.int(1, n);
            if symm != "general" && j > i && rng.chance(14, 15) {
                std::mem::swap(&mut i, &mut j);
            }
            if rng.chance(1, 25) {
                i = *rng.pick(&[0, m + 1, -1]);
            }
            if rng.chance(1, 25) {
                j = *rng.pick(&[0, n + 1, -1]);
            }
            // the diagonal of a Hermitian matrix is real
            let im = if symm == "Hermitian" && i == j { 0 } else { rng.int(-9, 9) };
            let mut v = vec![i, j, rng.int(-9, 9)];
            if field == "complex" {
                v.push(im);
            }
            if rng.chance(1, 30) {
                v.pop();
            }
            lines.push(if rng.chance(1, 40) { json!({"k":"junk"}) } else { json!({"k":"num","v":v}) });
        }
        extra(rng, &mut lines);
        let herm = (symm == "Hermitian" && good_head) as i64;
        ops[0]["den"] = json!(1);
        ops.push(json!({"e":"mmput","f":"b","lines":lines,"pad":rng.us(0,2)}));
        for h in ["lower", "upper", "full"] {
            ops.push(json!({"e":"mmread","f":"b","h":h,"herm":herm}));
        }
    }
    ops
}
