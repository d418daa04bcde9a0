mod cfg;
mod fac;
mod ord;
mod app;
mod spf;
mod sta;
mod ten;
mod nwt;
mod sea;
mod txt;
mod la;
mod lin;
mod map;
mod mm;
mod nonlin;
mod ode;
mod pde;
mod spc;
mod sparse;
mod util;
use serde_json::Value;
use std::io::BufRead;
use util::*;

/// usage: vharness AREA exec STIMULI.ndjson TRACE.ndjson   (one scenario, a JSON array of operations, per line)
///        vharness AREA rand SEED COUNT TIER STIMULI.ndjson
fn main() {
    if std::env::var("VHOOK").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().collect();
    let area = a[1].as_str();
    match a[2].as_str() {
        "exec" => {
            watchdog(60);
            let mut log = Log::new(&a[4]);
            let cur = format!("{}.current", a[4]);
            let f = std::io::BufReader::new(std::fs::File::open(&a[3]).unwrap());
            for line in f.lines() {
                let ops: Value = serde_json::from_str(&line.unwrap()).unwrap();
                current(&cur, &ops);
                let ops = ops.as_array().unwrap();
                match area {
                    "sparse" => sparse::exec(ops, &mut log),
                    "lin" => lin::exec(ops, &mut log),
                    "mm" => mm::exec(ops, &mut log),
                    "odea" | "odeb" | "odec" | "oded" | "odee" => ode::exec(ops, &mut log),
                    "nonlin" => nonlin::exec(ops, &mut log),
                    "pde" => pde::exec(ops, &mut log),
                    "spc" => spc::exec(ops, &mut log),
                    "la" => la::exec(ops, &mut log),
                    "fac" => fac::exec(ops, &mut log),
                    "ord" => ord::exec(ops, &mut log),
                    "nwt" => nwt::exec(ops, &mut log),
                    "sta" => sta::exec(ops, &mut log),
                    "ten" => ten::exec(ops, &mut log),
                    "spf" => spf::exec(ops, &mut log),
                    "app" => app::exec(ops, &mut log),
                    "sea" => sea::exec(ops, &mut log),
                    "txt" => txt::exec(ops, &mut log),
                    "map" => map::exec(ops, &mut log),
                    "cfg" => cfg::exec(ops, &mut log),
                    _ => panic!("unknown area"),
                }
            }
            log.flush();
            let _ = std::fs::remove_file(&cur);
        }
        "rand" => {
            let seed: u64 = a[3].parse().unwrap();
            let count: usize = a[4].parse().unwrap();
            let thorough = a[5] == "thorough";
            let mut out = String::new();
            for k in 0..count {
                let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k as u64));
                let ops = match area {
                    "sparse" => sparse::random(&mut rng, thorough),
                    "lin" => lin::random(&mut rng, thorough),
                    "mm" => mm::random(&mut rng, thorough),
                    "odea" => ode::random_a(&mut rng, thorough),
                    "odeb" => ode::random_b(&mut rng, thorough),
                    "odec" => ode::random_c(&mut rng, thorough),
                    "odee" => ode::random_e(&mut rng, thorough),
                    "oded" => ode::random_d(&mut rng, thorough),
                    "N01" | "N02" | "N03" => nonlin::random(&mut rng, area),
                    "D01" | "D02" => pde::random(&mut rng, area),
                    "D03" => spc::random(&mut rng),
                    "L01" => la::random(&mut rng),
                    "L02" => fac::random(&mut rng),
                    "L03" => ord::random(&mut rng),
                    "L06" => nwt::random(&mut rng),
                    "A01" => sta::random_a(&mut rng),
                    "A02" => sta::random_b(&mut rng),
                    "T01" => ten::random_a(&mut rng),
                    "T02" => ten::random_b(&mut rng),
                    "T03" => ten::random_c(&mut rng),
                    "L08" => spf::random(&mut rng),
                    "L07" => app::random(&mut rng),
                    "L05" => sea::random(&mut rng),
                    "L04" => txt::random(&mut rng),
                    "D04" => map::random(&mut rng),
                    "N04" => cfg::random_cont(&mut rng),
                    "O06" => cfg::random_ode(&mut rng),
                    _ => panic!("unknown area"),
                };
                out.push_str(&Value::Array(ops).to_string());
                out.push('\n');
            }
            std::fs::write(&a[6], out).unwrap();
        }
        _ => panic!("unknown mode"),
    }
}
