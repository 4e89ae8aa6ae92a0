//! Spec Dms.tla: positions written as text and read again.
use crate::util::*;
use crate::Report;
use geo::{Coord, Point};
use serde_json::{json, Value};
use vatsim_parser::ese::Ese;
use vatsim_parser::sct::Sct;
use vatsim_parser::DegMinSecExt as _;

fn degrees(p: &Value) -> f64 {
    let v = i(&p["d"]) as f64 + (i(&p["m"]) as f64 + i(&p["u"]) as f64 / 1000.0) / 3_600_000.0;
    if i(&p["g"]) == 1 { v } else { -v }
}
/// The position part that the parsers find in a text.
fn read(lat: bool, t: &str, r: &mut Rnd) -> Result<f64, String> {
    let other = if lat { "E011.00.00.000" } else { "N048.00.00.000" };
    let (a, b) = if lat { (t, other) } else { (other, t) };
    let c = match r.below(3) {
        0 => {
            let f = Sct::parse(format!("[FIXES]\nABCDE {a} {b}\n").as_bytes()).map_err(|e| e.to_string())?;
            f.fixes.first().ok_or("no fix")?.coordinate.0
        }
        1 => {
            let f = Sct::parse(format!("[REGIONS]\nREGIONNAME x\nc {a} {b}\n").as_bytes()).map_err(|e| e.to_string())?;
            *f.regions.first().and_then(|q| q.polygon.first()).ok_or("no region")?
        }
        _ => {
            let t = format!("[POSITIONS]\nA:A:118.000:A:A:A:X:-:-:0100:0101:{a}:{b}\n[AIRSPACE]\n");
            let f = Ese::parse(t.as_bytes()).map_err(|e| e.to_string())?;
            f.positions.values().next().and_then(|p| p.visibility_points.first()).copied().ok_or("no position")?
        }
    };
    Ok(if lat { c.y } else { c.x })
}

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 5);
    let lat = s(&case["a"]) == "lat";
    let mut now = 0.0f64;
    let mut text = String::new();
    let mut checks = 0;
    let mut seen = vec![];
    for (k, x) in arr(&case["h"]).iter().enumerate() {
        let near = |v: f64, p: &Value| (v - degrees(p)).abs() < 1e-12 * (1.0 + v.abs()) && (v.is_sign_negative() == (i(&p["g"]) == 0));
        let mut ok = Ok(());
        match s(&x["op"]) {
            "set" => now = degrees(&x["p"]),
            "write" => {
                let (c, other) = if lat { (Coord { x: 11.0, y: now }, "E011.00.00.000") } else { (Coord { x: now, y: 48.0 }, "N048.00.00.000") };
                let e = s(&x["text"]);
                let both = if lat { format!("{e} {other}") } else { format!("{other} {e}") };
                text = if lat { c.lat_deg_min_sec_fmt() } else { c.lng_deg_min_sec_fmt() };
                let point = if lat { Point::from(c).lat_deg_min_sec_fmt() } else { Point::from(c).lng_deg_min_sec_fmt() };
                if text != e || point != e || c.deg_min_sec_fmt() != both || Point::from(c).deg_min_sec_fmt() != both {
                    ok = Err((e.to_string(), format!("{text} / {point} / {}", c.deg_min_sec_fmt())));
                }
                checks += 1;
            }
            "read" => match read(lat, &text, &mut r) {
                Ok(v) if near(v, &x["p"]) => {
                    now = v;
                    checks += 1;
                }
                o => ok = Err((degrees(&x["p"]).to_string(), format!("{o:?}"))),
            },
            "given" => {
                let f = &x["f"];
                let h = match (lat, i(&f["g"])) {
                    (true, 1) => "N",
                    (true, _) => "S",
                    (false, 1) => "E",
                    (false, _) => "W",
                };
                let h = if r.below(3) == 0 { h.to_lowercase() } else { h.to_string() };
                let ms = format!("{:03}", i(&f["ms"]));
                let ms = match r.below(4) {
                    0 => ms.trim_end_matches('0').to_string(),
                    1 => format!("{ms}000"),
                    _ => ms,
                };
                let d = i(&f["d"]);
                let d = match r.below(3) {
                    0 => format!("{d}"),
                    1 => format!("{d:04}"),
                    _ => format!("{d:03}"),
                };
                text = format!("{h}{d}.{:02}.{:02}{}{ms}", i(&f["min"]), i(&f["sec"]), if ms.is_empty() { "" } else { "." });
                match read(lat, &text, &mut r) {
                    Ok(v) if near(v, &x["p"]) => {
                        now = v;
                        checks += 1;
                    }
                    o => ok = Err((degrees(&x["p"]).to_string(), format!("{o:?}"))),
                }
            }
            o => panic!("harness: op {o}"),
        }
        seen.push(json!({"value": now, "text": text}));
        if let Err((e, o)) = ok {
            return Report { checks: checks + 1, bad: Some((format!("step {k} {}", s(&x["op"])), json!(e), json!(o))), input: json!(seen) };
        }
    }
    Report { checks, bad: None, input: json!(seen) }
}
