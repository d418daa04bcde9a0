//! Text tables, dumps, formatted numbers and durations
use crate::util::*;
use russell_lab::*;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::time::Instant;

fn dir() -> String {
    let d = format!("{}/txt-{}", std::env::var("VSCRATCH").unwrap(), std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// writes the lines of tokens with the given layout
fn render(op: &Value) -> String {
    let seps = [" ", "\t", "   ", " \t "];
    let ends = ["\n", "\r\n", " \n", "\t \n"];
    let mut s = String::new();
    let lines = geta(op, "lines");
    for (k, line) in lines.iter().enumerate() {
        let lay = getu(op, "lay") + k * getu(op, "layk");
        s.push_str(["", " ", "\t", "    "][lay % 4]);
        let toks: Vec<&str> = line.as_array().unwrap().iter().map(|t| gets(t, "s")).collect();
        s.push_str(&toks.join(seps[(lay / 4) % 4]));
        if k + 1 < lines.len() || geti(op, "cut") == 0 {
            s.push_str(ends[(lay / 16) % 4]);
        }
    }
    s
}

fn q4(x: f64) -> i64 {
    xi(x * 4.0)
}

/// number written as integer times a power of ten
fn dec(v: &Value) -> f64 {
    let a = v.as_array().unwrap();
    if a.len() == 3 {
        return a[2].as_str().unwrap().parse().unwrap();
    }
    format!("{}e{}", a[0].as_i64().unwrap(), a[1].as_i64().unwrap()).parse().unwrap()
}
fn decs(op: &Value, k: &str) -> Vec<f64> {
    geta(op, k).iter().map(dec).collect()
}
fn rows(op: &Value, k: &str) -> Matrix {
    let r = geta(op, k);
    let (m, n) = (r.len(), r.first().map_or(0, |x| x.as_array().unwrap().len()));
    let mut a = Matrix::new(m, n);
    for i in 0..m {
        for j in 0..n {
            a.set(i, j, dec(&r[i][j]));
        }
    }
    a
}

/// splits source text into words, punctuation and numbers
fn lex(text: &str) -> Value {
    let (mut t, mut n, mut x) = (vec![], vec![], vec![]);
    for line in text.lines() {
        if line.trim_start().starts_with("//") || line.trim_start().starts_with("#[") {
            continue;
        }
        let c: Vec<char> = line.chars().collect();
        let mut k = 0;
        while k < c.len() {
            let b = k;
            if c[k].is_whitespace() {
                k += 1;
            } else if c[k].is_alphabetic() || c[k] == '_' {
                while k < c.len() && (c[k].is_alphanumeric() || c[k] == '_' || c[k] == '.') {
                    k += 1;
                }
                t.push(c[b..k].iter().collect::<String>());
            } else if c[k].is_ascii_digit() || c[k] == '-' || c[k] == '+' || c[k] == '.' {
                while k < c.len()
                    && (c[k].is_ascii_digit()
                        || c[k] == '.'
                        || c[k] == 'e'
                        || c[k] == 'E'
                        || ((c[k] == '-' || c[k] == '+') && (k == b || c[k - 1] == 'e' || c[k - 1] == 'E')))
                {
                    k += 1;
                }
                match c[b..k].iter().collect::<String>().parse::<f64>() {
                    Ok(v) => {
                        t.push("N".to_string());
                        n.push(bits3(v));
                        x.push(xi(v));
                    }
                    Err(_) => t.push("?".to_string()),
                }
            } else {
                t.push(c[k].to_string());
                k += 1;
            }
        }
    }
    json!({"t":t,"n":n,"x":x})
}

/// takes a formatted number apart
fn number(text: &str) -> Value {
    let s = text.trim_start_matches(' ');
    let body = s.strip_prefix('-').unwrap_or(s);
    let (mant, exp) = match body.find('E') {
        Some(k) => (&body[..k], Some(&body[k + 1..])),
        None => (body, None),
    };
    let (whole, frac) = match mant.find('.') {
        Some(k) => (&mant[..k], &mant[k + 1..]),
        None => (mant, ""),
    };
    let ok = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
    let eok = exp.is_none_or(|e| (e.starts_with('+') || e.starts_with('-')) && ok(&e[1..]));
    if !ok(whole) || (mant.contains('.') && !ok(frac)) || !eok {
        return json!({"k":"word","w":s,"len":text.chars().count()});
    }
    let digits: Vec<u32> = whole.chars().chain(frac.chars()).map(|c| c.to_digit(10).unwrap()).collect();
    json!({
        "k": if exp.is_some() {"sci"} else {"dec"}, "neg": s.starts_with('-'), "nw": whole.len(), "nf": frac.len(), "d": digits,
        "x": exp.map_or(0, |e| e.parse::<i64>().unwrap()), "xd": exp.map_or(0, |e| e.len() - 1),
        "len": text.chars().count(), "rb": s.parse::<f64>().map_or(json!([-2,-2,-2]), bits3), "q": s.parse::<f64>().map_or(NOT_FIN, q4)
    })
}

/// takes a framed drawing apart
fn frame(text: &str) -> Value {
    if !text.contains('\n') {
        return json!({"w":[],"lines":[],"fr":text});
    }
    let (mut w, mut lines, mut fr) = (vec![], vec![], String::new());
    for line in text.split('\n') {
        let c: Vec<char> = line.chars().collect();
        w.push(c.len());
        if c.len() >= 2 {
            fr.push(c[0]);
            fr.push(c[c.len() - 1]);
            let inner: String = c[1..c.len() - 1].iter().collect();
            lines.push(inner.split_whitespace().map(number).collect::<Vec<_>>());
        }
    }
    let fr = fr.replace('┌', "a").replace('┐', "b").replace('│', "|").replace('└', "c").replace('┘', "d");
    json!({"w":w,"lines":lines,"fr":fr})
}

/// takes a duration apart
fn pieces(text: &str) -> Value {
    let mut out = vec![];
    let c: Vec<char> = text.chars().collect();
    let mut k = 0;
    while k < c.len() {
        let b = k;
        while k < c.len() && (c[k].is_ascii_digit() || c[k] == '.') {
            k += 1;
        }
        let num: String = c[b..k].iter().collect();
        let u = k;
        while k < c.len() && !c[k].is_ascii_digit() && c[k] != '.' {
            k += 1;
        }
        let unit: String = c[u..k].iter().collect();
        let (w, f) = num.split_once('.').unwrap_or((&num, ""));
        let nd = f.len();
        let mut f9: String = f.chars().take(9).collect();
        while f9.len() < 9 {
            f9.push('0');
        }
        let unit = match unit.as_str() {
            "µs" => "us".to_string(),
            _ => unit,
        };
        out.push(json!({"u":unit,"w":w.parse::<i64>().unwrap_or(-1),"f":f9.parse::<i64>().unwrap_or(-1),"nd":nd}));
    }
    json!(out)
}
fn split_ns(ns: u128) -> Value {
    let s = ns / 1_000_000_000;
    json!({"h":(s / 3600) as i64,"m":((s / 60) % 60) as i64,"s":(s % 60) as i64,"ns":(ns % 1_000_000_000) as i64})
}

fn run(op: &Value) -> Result<Value, &'static str> {
    match gets(op, "f") {
        "table" => {
            let path = format!("{}/t.txt", dir());
            std::fs::write(&path, render(op)).unwrap();
            let labels: Vec<&str> = geta(op, "labels").iter().map(|x| x.as_str().unwrap()).collect();
            let map: HashMap<String, Vec<f64>> = match geti(op, "lab") {
                0 => read_table(&path, None)?,
                1 => read_table(&path, Some(&labels))?,
                _ => read_data(&path, &labels)?,
            };
            let mut keys: Vec<&String> = map.keys().collect();
            keys.sort();
            let cols: Vec<Value> = keys.iter().map(|k| json!({"l":k,"v":map[*k].iter().map(|x| q4(*x)).collect::<Vec<_>>()})).collect();
            Ok(json!({"cols":cols}))
        }
        "itable" => {
            let path = format!("{}/t.txt", dir());
            std::fs::write(&path, render(op)).unwrap();
            let map: HashMap<String, Vec<i64>> = read_table(&path, None)?;
            let mut keys: Vec<&String> = map.keys().collect();
            keys.sort();
            let cols: Vec<Value> = keys.iter().map(|k| json!({"l":k,"v":map[*k].iter().map(|x| x * 4).collect::<Vec<_>>()})).collect();
            Ok(json!({"cols":cols}))
        }
        "mat" => {
            let path = format!("{}/t.txt", dir());
            std::fs::write(&path, render(op)).unwrap();
            let a = NumMatrix::<f64>::from_text_file(&path)?;
            let (m, n) = a.dims();
            let v: Vec<Vec<i64>> = (0..m).map(|i| (0..n).map(|j| q4(a.get(i, j))).collect()).collect();
            Ok(json!({"m":m,"n":n,"v":v}))
        }
        "dump" => {
            let a = rows(op, "a");
            let name = gets(op, "name");
            let (m, n) = a.dims();
            let text = match gets(op, "lang") {
                "mathematica" => mat_to_mathematica(name, &a),
                "numpy" => mat_to_numpy(name, &a),
                "rust" => mat_to_static_array(name, &a),
                _ => {
                    let mut v = Vector::new(n);
                    for j in 0..n {
                        v[j] = a.get(0, j);
                    }
                    vec_to_static_array(name, &v)
                }
            };
            let ab: Vec<Value> = (0..m).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| bits3(a.get(i, j))).collect();
            Ok(lex(&text).merge(json!({"ab":ab})))
        }
        "vis" => {
            let a = rows(op, "a");
            let path = format!("{}/sub{}/v.smat", dir(), geti(op, "sub"));
            let _ = std::fs::remove_file(&path);
            mat_write_vismatrix(&path, &a, dec(&op["tol"]))?;
            let text = std::fs::read_to_string(&path).unwrap();
            let lines: Vec<Vec<i64>> = text
                .lines()
                .enumerate()
                .map(|(h, l)| {
                    l.split_whitespace()
                        .enumerate()
                        .map(|(k, t)| {
                            let x = t.parse::<f64>().unwrap_or(f64::NAN);
                            if k == 2 && h > 0 { q4(x) } else { xi(x) }
                        })
                        .collect()
                })
                .collect();
            Ok(json!({"lines":lines}))
        }
        "sci" => {
            let x = dec(&op["x"]);
            let text = match geti(op, "way") {
                0 => format_scientific(x, getu(op, "w"), getu(op, "p")),
                1 => format_fortran(x),
                _ => {
                    let mut b = String::new();
                    write_formatted_number(&mut b, x, getu(op, "w"), None, Some(getu(op, "p")));
                    b
                }
            };
            Ok(json!({"o":number(&text),"ab":bits3(x)}))
        }
        "num" => {
            let x = dec(&op["x"]);
            let p = geti(op, "p");
            let mut b = String::new();
            write_formatted_number(&mut b, x, getu(op, "w"), if p < 0 { None } else { Some(p as usize) }, None);
            Ok(json!({"o":number(&b),"ab":bits3(x)}))
        }
        "vfmt" => {
            let x = decs(op, "a");
            let v = Vector::from(&x);
            Ok(frame(&vec_fmt_scientific(&v, getu(op, "p"))).merge(json!({"ab":x.iter().map(|y| bits3(*y)).collect::<Vec<_>>()})))
        }
        "disp" => {
            let a = rows(op, "a");
            let (m, n) = a.dims();
            let p = geti(op, "p");
            let text = if geti(op, "vec") == 1 {
                let mut v = Vector::new(m);
                for i in 0..m {
                    v[i] = a.get(i, 0);
                }
                if p < 0 { format!("{}", v) } else { format!("{:.*}", p as usize, v) }
            } else if p < 0 {
                format!("{}", a)
            } else {
                format!("{:.*}", p as usize, a)
            };
            let ab: Vec<Vec<Value>> = (0..m).map(|i| (0..n).map(|j| bits3(a.get(i, j))).collect()).collect();
            Ok(frame(&text).merge(json!({"ab":ab})))
        }
        "ns" => {
            let t = ((geti(op, "h") as u128 * 60 + geti(op, "m") as u128) * 60 + geti(op, "s") as u128) * 1_000_000_000 + geti(op, "ns") as u128;
            let d = geti(op, "d");
            let text = if d < 0 { format_nanoseconds(t) } else { format_nanoseconds_with_digits(t, d as usize) };
            Ok(json!({"o":pieces(&text)}))
        }
        "watch" => {
            let mut out = vec![];
            let b = Instant::now();
            let mut w = Stopwatch::new();
            let mut span = (b, Instant::now());
            for a in geta(op, "do") {
                match a.as_str().unwrap() {
                    k @ ("stop" | "sar") => {
                        let before = Instant::now();
                        let r = if k == "stop" { w.stop() } else { w.stop_and_reset() };
                        let after = Instant::now();
                        let clip = |x: u128| x.min(1_500_000_000) as i64;
                        out.push(json!({"k":k,"r":clip(r),"lo":clip(before.duration_since(span.1).as_nanos()),"hi":clip(after.duration_since(span.0).as_nanos()),"t":split_ns(r)}));
                        if k == "sar" {
                            span = (before, Instant::now());
                        }
                    }
                    "reset" => {
                        let b = Instant::now();
                        w.reset();
                        span = (b, Instant::now());
                        out.push(json!({"k":"reset"}));
                    }
                    "wait" => {
                        let s = Instant::now();
                        while s.elapsed().as_micros() < 30 {}
                        out.push(json!({"k":"wait"}));
                    }
                    _ => out.push(json!({"k":"show","o":pieces(&format!("{}", w))})),
                }
            }
            Ok(json!({"out":out}))
        }
        f => panic!("harness: unknown function {f}"),
    }
}

pub fn exec(ops: &[Value], log: &mut Log) {
    log.ev(&ops[0], json!({}));
    for op in &ops[1..] {
        let o = obs(|| run(op), |v| v);
        log.ev(op, o);
    }
    let _ = std::fs::remove_dir_all(dir());
}

fn tok(rng: &mut Rng) -> Value {
    match rng.int(0, 11) {
        0 => json!({"k":"hash","v":0,"s":rng.pick(&["#", "#x", "##", "#1", "# "]).trim_end()}),
        1 => json!({"k":"bad","v":0,"s":rng.pick(&["x", "1.2.3", "--1", "1,5", "0x10", "1#", "e5", "a", "//", "//1", "%", "%2", ";", "!", "-", "+", ".", "1d5", "1_0", "\"1\"", "2*", "1f"])}),
        _ => number_token(rng, 0),
    }
}
/// number in quarters written in one of several ways
fn number_token(rng: &mut Rng, int: i64) -> Value {
    let v = rng.int(-400, 400) * if int == 1 { 4 } else { 1 };
    let x = v as f64 / 4.0;
    let s = match rng.int(0, 5) {
        0 if int == 0 => format!("{:e}", x),
        1 if int == 0 => format!("{:.3}", x),
        2 if int == 0 => format!("{}e-2", v * 25),
        3 if x > 0.0 => format!("+{}", x),
        4 if int == 0 => format!("{:E}", x),
        _ => format!("{}", x),
    };
    json!({"k":"num","v":v,"s":s})
}
fn word(rng: &mut Rng) -> Value {
    json!({"k":"bad","v":0,"s":rng.pick(&["a", "b", "c", "x1", "sr", "a#", "λ", "col0", "col1", "//", "%a", ";", "1", "-2.5"])})
}
fn decimal(rng: &mut Rng) -> Value {
    let m = match rng.int(0, 5) {
        0 => rng.int(-9, 9),
        1 => rng.int(-99, 99),
        2 => *rng.pick(&[999999999, -999999999, 99999, 0, 1, -1, 5, 15, 25, 995, 9995]),
        _ => rng.int(-999999999, 999999999),
    };
    let e = match rng.int(0, 3) {
        0 => rng.int(-290, 290),
        1 => rng.int(-105, 105),
        _ => rng.int(-12, 6),
    };
    json!([m, e])
}

pub fn random(rng: &mut Rng) -> Vec<Value> {
    let mut ops = vec![json!({"e":"reset","prop":"L04"})];
    for _ in 0..rng.int(1, 4) {
        let f = *rng.pick(&["table", "table", "table", "table", "itable", "mat", "mat", "dump", "vis", "sci", "sci", "num", "vfmt", "disp", "ns", "ns", "watch"]);
        let mut op = json!({"e":"op","f":f});
        match f {
            "table" | "itable" | "mat" => {
                let n = rng.us(1, 4);
                let int = (f == "itable") as i64;
                let mut lines: Vec<Vec<Value>> = vec![];
                let nl = rng.int(0, 6);
                for k in 0..nl {
                    let mut l: Vec<Value> = (0..n).map(|_| if k == 0 && f != "mat" { word(rng) } else { number_token(rng, int) }).collect();
                    if rng.chance(1, 5) {
                        l.push(json!({"k":"hash","v":0,"s":"#"}));
                        for _ in 0..rng.int(0, 2) {
                            l.push(tok(rng));
                        }
                    }
                    lines.push(l);
                }
                // corruptions
                if !lines.is_empty() && rng.chance(1, 2) {
                    let k = rng.us(0, lines.len() - 1);
                    let j = rng.us(0, lines[k].len().max(1) - 1);
                    match rng.int(0, 4) {
                        0 => {
                            if !lines[k].is_empty() {
                                lines[k].remove(j);
                            }
                        }
                        1 => lines[k].insert(j, number_token(rng, int)),
                        2 => lines[k][j] = tok(rng),
                        3 => lines[k].insert(j, json!({"k":"hash","v":0,"s":"#c"})),
                        _ => {
                            let t = lines[k][0].clone();
                            lines[k][j] = t
                        }
                    }
                    if f == "itable" {
                        for l in lines.iter_mut() {
                            for t in l.iter_mut() {
                                if gets(t, "k") == "num" && gets(t, "s").parse::<i64>().is_err() {
                                    t["k"] = json!("bad");
                                }
                            }
                        }
                    }
                }
                if f == "itable" {
                    for l in lines.iter_mut() {
                        for t in l.iter_mut() {
                            if gets(t, "k") == "num" && gets(t, "s").parse::<i64>().is_err() {
                                t["k"] = json!("bad");
                            }
                        }
                    }
                }
                // comments and blank lines
                for _ in 0..rng.int(0, 3) {
                    let k = rng.us(0, lines.len());
                    let mut l = vec![];
                    if rng.chance(2, 3) {
                        l.push(json!({"k":"hash","v":0,"s":rng.pick(&["#", "#a", "##"])}));
                        for _ in 0..rng.int(0, 3) {
                            l.push(tok(rng));
                        }
                    }
                    lines.insert(k, l);
                }
                if f == "table" {
                    let lab = rng.int(0, 2);
                    let head: Vec<&str> = lines
                        .iter()
                        .find(|l| !l.is_empty() && gets(&l[0], "k") != "hash")
                        .map_or(vec![], |l| l.iter().take_while(|t| gets(t, "k") != "hash").map(|t| gets(t, "s")).collect());
                    let mut labels: Vec<String> = head.iter().map(|s| s.to_string()).collect();
                    match rng.int(0, 7) {
                        0 => {
                            labels.pop();
                        }
                        1 => labels.push("zz".into()),
                        2 if labels.len() > 1 => labels.swap(0, 1),
                        3 if !labels.is_empty() => {
                            let k = rng.us(0, labels.len() - 1);
                            labels[k] = "b".into()
                        }
                        _ => (),
                    }
                    op["lab"] = json!(lab);
                    op["labels"] = json!(labels);
                }
                op["lines"] = json!(lines);
                op["lay"] = json!(rng.int(0, 63));
                op["layk"] = json!(rng.int(0, 30));
                op["cut"] = json!(rng.int(0, 1));
            }
            "dump" => {
                let lang = *rng.pick(&["mathematica", "numpy", "rust", "rustvec"]);
                let (m, n) = (if lang == "rustvec" { 1 } else { rng.us(1, 4) }, rng.us(1, 4));
                let a: Vec<Vec<Value>> = (0..m).map(|_| (0..n).map(|_| decimal(rng)).collect()).collect();
                op["lang"] = json!(lang);
                op["name"] = json!(rng.pick(&["A", "kk", "NAME_2"]));
                op["a"] = json!(a);
            }
            "vis" => {
                let (m, n) = (rng.us(1, 4), rng.us(1, 4));
                let a: Vec<Vec<Value>> = (0..m)
                    .map(|_| (0..n).map(|_| if rng.chance(1, 3) { json!([0, 0]) } else { json!([rng.int(-30, 30) * 25, -2]) }).collect())
                    .collect();
                let tol = *rng.pick(&[0, 0, 1, 2, 8, 20, -1]) * 25;
                let mut a = a;
                if rng.chance(1, 3) {
                    a[0][0] = json!([tol * *rng.pick(&[1, -1]), -2]);
                }
                op["a"] = json!(a);
                op["tol"] = json!([tol, -2]);
                op["sub"] = json!(rng.int(0, 2));
            }
            "sci" => {
                op["x"] = if rng.chance(1, 12) { json!([0, 0, rng.pick(&["inf", "-inf", "NaN"])]) } else { decimal(rng) };
                op["way"] = json!(rng.int(0, 2));
                op["w"] = json!(rng.int(0, 30));
                op["p"] = json!(rng.int(0, 15));
                if op["way"] == 1 {
                    op["w"] = json!(23);
                    op["p"] = json!(15);
                }
            }
            "num" => {
                op["x"] = json!([rng.int(-99999, 99999), rng.int(-4, 0)]);
                op["w"] = json!(rng.int(0, 20));
                op["p"] = json!(rng.int(-1, 4));
            }
            "vfmt" => {
                let n = rng.us(0, 5);
                let one = rng.chance(1, 6);
                let a: Vec<Value> = (0..n).map(|_| if one && rng.chance(1, 3) { json!([0, 0, "inf"]) } else { decimal(rng) }).collect();
                op["a"] = json!(a);
                op["p"] = json!(rng.int(0, 14));
            }
            "disp" => {
                let vec = rng.int(0, 1);
                let (m, n) = (rng.us(0, 4), if vec == 1 { 1 } else { rng.us(0, 4) });
                let d = rng.int(-4, 0);
                let a: Vec<Vec<Value>> = (0..m).map(|_| (0..n).map(|_| json!([rng.int(-99999, 99999), d])).collect()).collect();
                op["a"] = json!(a);
                op["vec"] = json!(vec);
                op["p"] = json!(rng.int(-1, 4));
            }
            "ns" => {
                op["h"] = json!(if rng.chance(1, 2) { 0 } else { rng.int(0, 2000) });
                op["m"] = json!(if rng.chance(1, 2) { 0 } else { rng.int(0, 59) });
                op["s"] = json!(if rng.chance(1, 2) { 0 } else { rng.int(0, 59) });
                op["ns"] = json!(match rng.int(0, 5) {
                    0 => 0,
                    1 => rng.int(0, 1500),
                    2 => rng.int(900, 1_100_000),
                    3 => *rng.pick(&[999, 1000, 1001, 999_999, 1_000_000, 999_999_999, 999_999_500, 500_000_000, 499_999_999]),
                    _ => rng.int(0, 999_999_999),
                });
                op["d"] = json!(rng.int(-1, 9));
            }
            _ => {
                let n = rng.int(1, 8);
                let seq: Vec<&str> = (0..n).map(|_| *rng.pick(&["stop", "sar", "reset", "wait", "show", "show"])).collect();
                op["do"] = json!(seq);
            }
        }
        ops.push(op);
    }
    ops
}
