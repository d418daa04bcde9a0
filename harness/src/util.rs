use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// SplitMix64 generator: all randomness of the drivers comes from here
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// integer in [lo, hi]
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        &a[self.us(0, a.len() - 1)]
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn ints(&mut self, n: usize, lo: i64, hi: i64) -> Vec<i64> {
        (0..n).map(|_| self.int(lo, hi)).collect()
    }
}

pub const NOT_INT: i64 = 1_999_999_999;
pub const NOT_FIN: i64 = 2_000_000_001;
pub const TOO_BIG: i64 = 2_000_000_000;

/// exact integer value of a float (sentinels otherwise)
pub fn xi(x: f64) -> i64 {
    if !x.is_finite() {
        NOT_FIN
    } else if x.fract() != 0.0 {
        NOT_INT
    } else if x.abs() > 1.9e9 {
        TOO_BIG
    } else {
        x as i64
    }
}

/// scaled and rounded value of a float (sentinels otherwise)
pub fn sc(x: f64, scale: f64) -> i64 {
    let y = x * scale;
    if !y.is_finite() {
        NOT_FIN
    } else if y > 1.9e9 {
        TOO_BIG
    } else if y < -1.9e9 {
        -TOO_BIG
    } else {
        y.round() as i64
    }
}

pub fn xis(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| json!(xi(*x))).collect())
}
pub fn scs(v: &[f64], s: f64) -> Value {
    Value::Array(v.iter().map(|x| json!(sc(*x, s))).collect())
}

/// order-preserving exact encoding of a float as three non-negative integers (22+21+21 bits)
pub fn bits3(x: f64) -> Value {
    if x.is_nan() {
        return json!([-1, -1, -1]);
    }
    let x = if x == 0.0 { 0.0 } else { x };
    let b = x.to_bits();
    let k = if b >> 63 == 1 { !b } else { b | (1 << 63) };
    json!([(k >> 42) as i64, ((k >> 21) & 0x1FFFFF) as i64, (k & 0x1FFFFF) as i64])
}

pub fn geti(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("harness: missing integer {k} in {v}"))
}
pub fn getu(v: &Value, k: &str) -> usize {
    geti(v, k) as usize
}
pub fn gets<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("harness: missing string {k} in {v}"))
}
pub fn geta<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v[k].as_array().unwrap_or_else(|| panic!("harness: missing array {k} in {v}"))
}
pub fn getf(v: &Value, k: &str) -> Vec<f64> {
    geta(v, k).iter().map(|x| x.as_i64().unwrap() as f64).collect()
}
pub fn getus(v: &Value, k: &str) -> Vec<usize> {
    geta(v, k).iter().map(|x| x.as_i64().unwrap() as usize).collect()
}
pub fn has(v: &Value, k: &str) -> bool {
    !v[k].is_null()
}

static BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

pub struct Log {
    out: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}

impl Log {
    pub fn new(path: &str) -> Self {
        Log { out: std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(path).unwrap()), n: 0 }
    }
    /// writes an event: the stimulus record with the observation merged in
    pub fn ev(&mut self, stim: &Value, obs: Value) {
        let mut e = stim.clone();
        if let (Value::Object(a), Value::Object(b)) = (&mut e, obs) {
            for (k, v) in b {
                a.insert(k, v);
            }
        }
        clamp(&mut e);
        serde_json::to_writer(&mut self.out, &e).unwrap();
        self.out.write_all(b"\n").unwrap();
        self.n += 1;
        BEAT.fetch_add(1, Ordering::Relaxed);
    }
    pub fn flush(&mut self) {
        self.out.flush().unwrap();
    }
}

/// keeps integers within the range the specifications can read
fn clamp(v: &mut Value) {
    match v {
        Value::Number(n) => {
            let big = n.as_i64().map_or(n.is_u64(), |x| x.abs() > 2_147_483_647);
            if big {
                *v = Value::from(if n.as_i64().map_or(false, |x| x < 0) { -2_147_483_647 } else { 2_147_483_647 });
            }
        }
        Value::Array(a) => a.iter_mut().for_each(clamp),
        Value::Object(m) => m.values_mut().for_each(clamp),
        _ => (),
    }
}

/// marks the scenario now being executed (for reports on hangs and crashes)
pub fn current(path: &str, sc: &Value) {
    let s = sc.to_string();
    let _ = std::fs::write(path, &s);
    *CURRENT.lock().unwrap() = s;
    BEAT.fetch_add(1, Ordering::Relaxed);
}

/// exits with status 97 if no event is produced for the given time
pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut idle = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BEAT.load(Ordering::Relaxed);
            if b == last {
                idle += 1;
                if idle >= secs {
                    eprintln!("HANG {}", CURRENT.lock().unwrap());
                    std::process::exit(97);
                }
            } else {
                idle = 0;
                last = b;
            }
        }
    });
}

/// runs a closure catching panics; Err holds the panic message
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

/// observation of a call returning Result: {"st":"ok"|"err"|"panic", ...}
pub fn obs<R>(f: impl FnOnce() -> Result<R, &'static str>, ok: impl FnOnce(R) -> Value) -> Value {
    match guarded(f) {
        Ok(Ok(r)) => {
            let mut v = ok(r);
            v["st"] = json!("ok");
            v
        }
        Ok(Err(e)) => json!({"st":"err","msg":e}),
        Err(p) => json!({"st":"panic","msg":p}),
    }
}

pub trait Merge {
    fn merge(self, other: Value) -> Value;
}
impl Merge for Value {
    fn merge(mut self, other: Value) -> Value {
        if let (Value::Object(a), Value::Object(b)) = (&mut self, other) {
            for (k, v) in b {
                a.insert(k, v);
            }
        }
        self
    }
}
