//! Spec Airway.tla: the airway file read record by record, and segment expansion.
use crate::util::*;
use crate::Report;
use geo::Point;
use serde_json::{json, Value};
use vatsim_parser::adaptation::locations::{Fix, Locations, NDB, VOR};
use vatsim_parser::airway::parse_airway_txt;

/// position `p` with a disturbance below the resolution of a position (1e-6 degrees)
fn pos(p: i64, jitter: u64) -> (f64, f64) {
    let j = [-3e-7, -1e-7, 0.0, 2e-7, 3e-7][(jitter % 5) as usize];
    // positions 1/3 and 2/6 (the same name twice) are close together, and not "round"
    let near = [1i64, 3].contains(&p);
    let lat = if near { 48.000_001 * 1.0 + p as f64 * 1e-6 } else { 40.0 + p as f64 * 0.731_234 };
    let lng = if near { -0.000_002 } else { p as f64 * 1.170_001 - 5.0 };
    (lat + j, lng - j)
}

fn row_pos(p: i64, jitter: u64) -> String {
    let (lat, lng) = pos(p, jitter);
    format!("{lat:.7}\t{lng:.7}")
}

fn nbr(n: &Value, r: u64) -> String {
    let to = s(&n["to"][0]);
    if to.is_empty() {
        return ["\t\t\t\t\tN", "\t0\t0\t0\t0\t0N", "\t\t0\t0\t\tN"][(r % 3) as usize].to_string();
    }
    let lvl = match i(&n["lvl"]) {
        -1 => ["", "NESTB"][(r % 2) as usize].to_string(),
        l => match r % 3 {
            0 => format!("{l:05}"),
            1 => format!("{l}"),
            _ => format!("{l:06}"),
        },
    };
    format!("\t{to}\t{}\t{lvl}\t{}", row_pos(i(&n["to"][1]), r >> 8), if b(&n["dir"]) { "Y" } else { "N" })
}

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let mut text = String::new();
    let mut loc = Locations::default();
    let nl = if mix(ctx.seed, ctx.index as u64, 77) % 2 == 0 { "\n" } else { "\r\n" };
    let mut recs = 0;
    for (k, op) in arr(&case["h"]).iter().enumerate() {
        let r = mix(ctx.seed, ctx.index as u64, k as u64);
        match s(&op["op"]) {
            "rec" => {
                recs += 1;
                let rec = &op["r"];
                let kind = ["B", "H", "L", ""][(r % 4) as usize];
                text += &format!(
                    "{}\t{}\t14\t{}\t{kind}{}{}{nl}",
                    s(&rec["p"][0]),
                    row_pos(i(&rec["p"][1]), r >> 3),
                    s(&rec["awy"]),
                    nbr(&rec["n1"], r >> 7),
                    nbr(&rec["n2"], r >> 17)
                );
                match r >> 40 & 15 {
                    0 => text += nl,
                    1 => text += &format!("; a comment{nl}"),
                    _ => {}
                }
            }
            "know" => {
                let n = s(&op["p"][0]).to_string();
                let (y, x) = pos(i(&op["p"][1]), r >> 3);
                let coordinate = Point::new(x, y);
                match s(&op["k"]) {
                    "fix" => loc.fixes.insert(n.clone(), Fix { designator: n, coordinate }),
                    "vor" => loc.vors.insert(n.clone(), VOR { designator: n, frequency: "112.300".into(), coordinate }),
                    _ => loc.ndbs.insert(n.clone(), NDB { designator: n, frequency: "400.000".into(), coordinate }),
                }
            }
            o => panic!("harness: op {o}"),
        }
    }
    if recs == 0 {
        return Report { checks: 0, bad: None, input: Value::Null };
    }
    let g = match parse_airway_txt(text.as_bytes()) {
        Ok(g) => g,
        Err(e) => return Report { checks: 1, bad: Some(("parse".into(), json!("a network"), json!(e.to_string()))), input: json!(text) },
    };
    let mut checks = 0;
    for (k, q) in arr(&case["q"]).iter().enumerate() {
        checks += 1;
        let (y, x) = pos(i(&q["s"][1]), mix(ctx.seed, 5, k as u64));
        let start = Fix { designator: s(&q["s"][0]).into(), coordinate: Point::new(x, y) };
        let got = g.expand_airway_segment(&start, s(&q["e"]), s(&q["w"]), &loc);
        let allowed = arr(&q["a"]);
        let ok = match &got {
            None => allowed.is_empty(),
            Some(path) => allowed.iter().any(|a| {
                let a = arr(a);
                a.len() == path.len()
                    && a.iter().zip(path).all(|(e, (f, internal))| {
                        let (y, x) = pos(i(&e["p"]), 2);
                        s(&e["n"]) == f.fix.designator
                            && (y - f.fix.coordinate.y()).abs() < 6e-7
                            && (x - f.fix.coordinate.x()).abs() < 6e-7
                            && b(&e["dir"]) == f.valid_direction
                            && (if i(&e["lvl"]) == -1 { None } else { Some(i(&e["lvl"]) as u32) }) == f.minimum_level
                            && b(&e["int"]) == *internal
                    })
            }),
        };
        if !ok {
            return Report {
                checks,
                bad: Some((format!("expand {}@{} .. {} on {}", q["s"][0], q["s"][1], q["e"], q["w"]), q["a"].clone(), json!(format!("{got:?}")))),
                input: json!(text),
            };
        }
    }
    Report { checks, bad: None, input: Value::Null }
}
