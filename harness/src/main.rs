//! Conformance harness: replays behaviours generated from the TLA+ specifications
//! into the real `vatsim-parser` API and compares the projected state.
mod airway;
mod display;
mod dms;
mod ese;
mod faults;
mod lists;
mod long;
mod locs;
mod maps;
mod overlay;
mod profile;
mod record;
mod sct;
mod secidx;
mod settings;
mod util;
mod world;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::*;

/// What one replayed case says.
pub struct Report {
    /// how many individual observations were compared
    pub checks: usize,
    /// first disagreement: where, expected, observed
    pub bad: Option<(String, Value, Value)>,
    /// how the case looked to the implementation (input text), for replay files
    pub input: Value,
}

pub type Domain = fn(&Value, &Ctx) -> Report;

fn domain(name: &str) -> Option<Domain> {
    Some(match name {
        "airway" => airway::run,
        "secidx" => secidx::run,
        "ese" => ese::run,
        "ring" => ese::ring,
        "locs" => locs::run,
        "display" => display::run,
        "dms" => dms::run,
        "maps" => maps::run,
        "timing" => settings::timing_run,
        "squawks" => settings::squawks,
        "lists" => lists::lists,
        "asr" => lists::asr,
        "prf" => profile::prf,
        "overlay" => overlay::run,
        "faults" => faults::run,
        "load" => profile::load,
        "sct" => sct::run,
        "sctw" => sct::write,
        "airlong" => sct::long,
        "long" => long::run,
        "items" => sct::items,
        _ => return None,
    })
}

fn decode(line: &str) -> Option<Value> {
    let l = line.trim();
    let inner = if l.starts_with('"') {
        serde_json::from_str::<String>(l).ok()?
    } else {
        l.to_string()
    };
    serde_json::from_str(inner.strip_prefix('@').unwrap_or(&inner)).ok()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let dom = args[1].clone();
    if dom == "--record" {
        std::panic::set_hook(Box::new(|_| {}));
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        record::record(&args[2], &args[3], args[4].parse().expect("number"), seed);
        return;
    }
    let file = args[2].clone();
    let isolate = args.get(3).map(String::as_str) == Some("--isolate");
    let progress = args.get(4).cloned();
    let f = domain(&dom).unwrap_or_else(|| {
        eprintln!("unknown domain {dom}");
        std::process::exit(2)
    });
    std::panic::set_hook(Box::new(|p| PANIC_AT.with(|a| *a.borrow_mut() = p.location().map(ToString::to_string).unwrap_or_default())));
    let lines: Vec<String> = std::io::BufReader::new(std::fs::File::open(&file).expect("cases"))
        .lines()
        .map(|l| l.expect("utf8"))
        .collect();
    let lines = Arc::new(lines);
    let n = if isolate { 1 } else { 8 };
    let next = Arc::new(AtomicUsize::new(0));
    let current: Arc<Vec<Mutex<Option<(usize, Instant)>>>> =
        Arc::new((0..n).map(|_| Mutex::new(None)).collect());
    let bad: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(vec![]));
    let checks = Arc::new(AtomicUsize::new(0));
    let done_cases = Arc::new(AtomicUsize::new(0));
    let nontrivial = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let max_bad: usize = std::env::var("VP_MAXBAD").ok().and_then(|s| s.parse().ok()).unwrap_or(200);
    let root = scratch_root();
    let mut handles = vec![];
    for t in 0..n {
        let (lines, next, current, bad, checks, done_cases, nontrivial, stop, root, progress) = (
            lines.clone(), next.clone(), current.clone(), bad.clone(), checks.clone(),
            done_cases.clone(), nontrivial.clone(), stop.clone(), root.clone(), progress.clone(),
        );
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let dir = root.join(format!("t{t}"));
                    std::fs::create_dir_all(&dir).expect("scratch");
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= lines.len() || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let Some(case) = decode(&lines[i]) else {
                            bad.lock().unwrap().push(json!({"tool_error": format!("undecodable line {i}")}));
                            continue;
                        };
                        if let Some(p) = &progress {
                            std::fs::write(p, i.to_string()).ok();
                        }
                        *current[t].lock().unwrap() = Some((i, Instant::now()));
                        let ctx = Ctx { dir: dir.clone(), seed, index: i };
                        let r = catch_unwind(AssertUnwindSafe(|| f(&case, &ctx)));
                        *current[t].lock().unwrap() = None;
                        let r = r.unwrap_or_else(|p| Report {
                            checks: 1,
                            bad: Some(("panic".into(), json!("no panic"), json!(panic_text(&p)))),
                            input: Value::Null,
                        });
                        checks.fetch_add(r.checks, Ordering::SeqCst);
                        if r.checks > 0 {
                            nontrivial.fetch_add(1, Ordering::SeqCst);
                        }
                        done_cases.fetch_add(1, Ordering::SeqCst);
                        if let Some((at, exp, obs)) = r.bad {
                            let mut b = bad.lock().unwrap();
                            b.push(json!({"index": i, "at": at, "expected": exp, "observed": obs, "input": r.input, "case": case}));
                            if b.len() >= max_bad {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                })
                .expect("thread"),
        );
    }
    loop {
        std::thread::sleep(Duration::from_millis(5));
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        for c in current.iter() {
            if let Some((i, since)) = *c.lock().unwrap() {
                if since.elapsed() > Duration::from_secs(20) {
                    let case = decode(&lines[i]).unwrap_or(Value::Null);
                    bad.lock().unwrap().push(json!({"index": i, "at": "hang", "expected": "an answer", "observed": "no answer within 20 s", "case": case}));
                    finish(&bad, &checks, &done_cases, &nontrivial, &root);
                }
            }
        }
    }
    finish(&bad, &checks, &done_cases, &nontrivial, &root);
}

fn finish(bad: &Mutex<Vec<Value>>, checks: &AtomicUsize, cases: &AtomicUsize, nontrivial: &AtomicUsize, root: &std::path::Path) -> ! {
    std::fs::remove_dir_all(root).ok();
    let out = json!({
        "cases": cases.load(Ordering::SeqCst),
        "checks": checks.load(Ordering::SeqCst),
        "nontrivial": nontrivial.load(Ordering::SeqCst),
        "bad": *bad.lock().unwrap(),
    });
    let mut so = std::io::stdout().lock();
    writeln!(so, "{out}").ok();
    so.flush().ok();
    std::process::exit(0)
}
