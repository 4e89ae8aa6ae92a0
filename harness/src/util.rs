use serde_json::Value;
use std::path::PathBuf;

pub struct Ctx {
    /// private scratch directory of the running thread
    pub dir: PathBuf,
    pub seed: u64,
    pub index: usize,
}

/// A scratch directory this process creates and removes.
pub fn scratch_root() -> PathBuf {
    let base = std::env::var("VP_SCRATCH").map_or_else(|_| std::env::temp_dir(), PathBuf::from);
    let p = base.join(format!("vp-harness-{}", std::process::id()));
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

thread_local! {
    /// where this thread panicked last
    pub static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    let t = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_else(|| "panic".into());
    format!("{t} at {}", PANIC_AT.with(|a| a.borrow().clone()))
}

pub fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("harness: not an int: {v}"))
}
pub fn s(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: not a string: {v}"))
}
pub fn b(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("harness: not a bool: {v}"))
}
/// TLC prints empty functions and empty sequences alike, and single-key functions as objects.
pub fn arr(v: &Value) -> Vec<Value> {
    match v {
        Value::Array(a) => a.clone(),
        Value::Object(o) if o.is_empty() => vec![],
        Value::Null => vec![],
        _ => panic!("harness: not an array: {v}"),
    }
}

/// small deterministic generator for rendering choices
pub fn mix(seed: u64, a: u64, b: u64) -> u64 {
    let mut x = seed ^ a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
    x ^= x >> 33;
    x = x.wrapping_mul(0xFF51_AFD7_ED55_8CCD);
    x ^= x >> 33;
    x = x.wrapping_mul(0xC4CE_B9FE_1A85_EC53);
    x ^ (x >> 33)
}

pub fn q6(x: f64) -> i64 {
    (x * 1e6).round() as i64
}

/// Arrays under a key ending in `_s` are sets: sort them for comparison; numbers are compared as integers.
pub fn canon(v: &Value, is_set: bool) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(|x| canon(x, false)).collect();
            if is_set {
                a.sort_by_key(std::string::ToString::to_string);
            }
            Value::Array(a)
        }
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, x)| (k.clone(), canon(x, k.ends_with("_s"))))
                .collect(),
        ),
        _ => v.clone(),
    }
}

/// First path at which two canonical values differ.
pub fn diff(e: &Value, o: &Value, at: &str) -> Option<(String, Value, Value)> {
    match (e, o) {
        (Value::Object(a), Value::Object(b)) => {
            for k in a.keys().chain(b.keys()) {
                match (a.get(k), b.get(k)) {
                    (Some(x), Some(y)) => {
                        if let Some(d) = diff(x, y, &format!("{at}.{k}")) {
                            return Some(d);
                        }
                    }
                    (x, y) => {
                        return Some((
                            format!("{at}.{k}"),
                            x.cloned().unwrap_or(Value::String("<absent>".into())),
                            y.cloned().unwrap_or(Value::String("<absent>".into())),
                        ))
                    }
                }
            }
            None
        }
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => a
            .iter()
            .zip(b)
            .enumerate()
            .find_map(|(i, (x, y))| diff(x, y, &format!("{at}[{i}]"))),
        // an empty TLA+ function prints as [] whatever its range
        (Value::Array(a), Value::Object(b)) if a.is_empty() && b.is_empty() => None,
        _ if e == o => None,
        _ => Some((at.to_string(), e.clone(), o.clone())),
    }
}

/// Compare an observation with the specification's answer.
pub fn compare(e: &Value, o: &Value) -> Option<(String, Value, Value)> {
    diff(&canon(e, false), &canon(o, false), "")
}

// ---------------------------------------------------------------- positions

/// The places of the specifications, as signed milliseconds of arc (latitude, longitude).
pub const PTS: [(i64, i64); 14] = [
    (dms(49, 0, 0, 0), dms(12, 0, 0, 0)),
    (dms(49, 2, 24, 501), dms(12, 31, 35, 850)),
    (dms(49, 2, 24, 501), dms(12, 0, 0, 0)), // shares its latitude with 2 and its longitude with 1
    (-dms(33, 56, 46, 7), dms(151, 10, 38, 0)),
    (-dms(0, 30, 0, 0), -dms(0, 0, 0, 4)), // south and west of zero by less than a degree
    (dms(0, 0, 0, 0), dms(179, 59, 59, 999)),
    (dms(51, 28, 39, 1), -dms(0, 27, 41, 10)),
    (dms(89, 59, 59, 999), -dms(180, 0, 0, 0)),
    (-dms(54, 50, 35, 60), -dms(68, 17, 44, 100)),
    (dms(48, 59, 59, 990), dms(11, 59, 59, 980)), // 10..20 ms away from 1
    (dms(9, 7, 8, 70), dms(100, 1, 2, 30)),
    (dms(12, 0, 0, 0), dms(49, 0, 0, 0)), // 1 with latitude and longitude exchanged
    (dms(48, 21, 13, 800), dms(11, 47, 10, 300)),
    (dms(47, 59, 0, 5), dms(10, 0, 59, 50)),
];
const fn dms(d: i64, m: i64, s: i64, ms: i64) -> i64 {
    ((d * 60 + m) * 60 + s) * 1000 + ms
}
pub fn deg(ms: i64) -> f64 {
    ms as f64 / 3_600_000.0
}
/// The places after those of the table lie on a circle, counter-clockwise.
pub const CIRCLE: i64 = 150;
pub fn place(p: i64) -> (i64, i64) {
    if let Some(x) = PTS.get((p - 1) as usize) {
        return *x;
    }
    let t = (p - 15) as f64 * std::f64::consts::TAU / CIRCLE as f64;
    (dms(50, 0, 0, 0) + (t.sin() * 3_600_000.0).round() as i64, dms(10, 0, 0, 0) + (t.cos() * 3_600_000.0).round() as i64)
}
fn places() -> &'static [(i64, i64)] {
    static P: std::sync::OnceLock<Vec<(i64, i64)>> = std::sync::OnceLock::new();
    P.get_or_init(|| (1..=PTS.len() as i64 + CIRCLE).map(place).collect())
}
/// (latitude, longitude) of a place in degrees
pub fn pt(p: i64) -> (f64, f64) {
    let (a, b) = places()[(p - 1) as usize];
    (deg(a), deg(b))
}
/// Index of the place at a position, 0 if it is none of them.
pub fn pt_of(x: f64, y: f64) -> i64 {
    pt_near(x, y, 1.2e-7)
}
pub fn pt_near(x: f64, y: f64, tol: f64) -> i64 {
    (1..=places().len() as i64)
        .find(|p| {
            let (lat, lng) = pt(*p);
            (lat - y).abs() <= tol && (lng - x).abs() <= tol
        })
        .unwrap_or(0)
}
/// A coordinate part the way EuroScope files write them; `r` picks between equivalent spellings.
pub fn dms_part(ms: i64, lat: bool, r: u64) -> String {
    let a = ms.abs();
    let (d, m, s, f) = (a / 3_600_000, a / 60_000 % 60, a / 1000 % 60, a % 1000);
    let neg = ms < 0 || (ms == 0 && r % 2 == 1);
    let hemi = match (lat, neg) {
        (true, false) => "N",
        (true, true) => "S",
        (false, false) => "E",
        (false, true) => "W",
    };
    let hemi = if r >> 1 & 7 == 0 { hemi.to_lowercase() } else { hemi.to_string() };
    let frac = format!("{f:03}");
    let frac = if r >> 4 & 3 == 0 { frac.trim_end_matches('0') } else { &frac };
    let sec = if frac.is_empty() { format!("{s:02}") } else { format!("{s:02}.{frac}") };
    let sec = if r >> 6 & 7 == 0 { format!("{}{}", s, &sec[2..]) } else { sec };
    let min = if r >> 9 & 7 == 0 { format!("{m}") } else { format!("{m:02}") };
    let d = match r >> 12 & 7 {
        0 => format!("{d}"),
        1 => format!("{d:02}"),
        _ => format!("{d:03}"),
    };
    format!("{hemi}{d}.{min}.{sec}")
}
pub fn dms_text(p: i64, sep: &str, r: u64) -> String {
    let (a, b) = places()[(p - 1) as usize];
    format!("{}{sep}{}", dms_part(a, true, r), dms_part(b, false, r >> 20))
}

// ---------------------------------------------------------------- text

/// The specifications are ASCII; "~" and "^" stand for other characters.
pub fn tok(t: &str) -> String {
    t.replace('~', "·").replace('^', "ü")
}
pub fn untok(t: &str) -> String {
    t.replace('·', "~").replace('ü', "^")
}
/// A file's bytes, in one of the two encodings that are supported.
pub fn encode(text: &str, r: u64) -> Vec<u8> {
    if r % 2 == 0 && text.chars().any(|c| c > '\u{7f}') && text.chars().all(|c| c <= '\u{ff}') {
        text.chars().map(|c| c as u8).collect()
    } else {
        text.as_bytes().to_vec()
    }
}
/// Successive deterministic choices for one case.
pub struct Rnd {
    seed: u64,
    n: u64,
}
impl Rnd {
    pub fn new(ctx: &Ctx, salt: u64) -> Self {
        Rnd { seed: mix(ctx.seed, ctx.index as u64, salt), n: 0 }
    }
    pub fn next(&mut self) -> u64 {
        self.n += 1;
        mix(self.seed, self.n, 0x51)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        let k = self.below(xs.len() as u64) as usize;
        xs[k]
    }
}
/// Compare only what the specification says something about.
pub fn compare_keys(e: &Value, o: &Value) -> Option<(String, Value, Value)> {
    let Value::Object(eo) = e else { return compare(e, o) };
    let oo: serde_json::Map<String, Value> = o
        .as_object()
        .map(|m| m.iter().filter(|(k, _)| eo.contains_key(*k)).map(|(k, v)| (k.clone(), v.clone())).collect())
        .unwrap_or_default();
    compare(e, &Value::Object(oo))
}
