//! Spec Locations.tla: what is known about places, and how names resolve.
use crate::util::*;
use crate::world::{World, SCT};
use crate::Report;
use geo::{Destination, Geodesic, Point};
use serde_json::{json, Map, Value};
use vatsim_parser::adaptation::locations::{GraphPosition, Locations};
use vatsim_parser::Location;

fn blank(r: &mut Rnd) -> &'static str {
    ["\n", "\n", "\n", "\n", "\n", "\n", "\n\n", " \n", "\n; remark\n", "\r\n"][r.below(10) as usize]
}

/// Decimal degrees of a place.
fn dec(p: i64, r: &mut Rnd) -> String {
    let (y, x) = pt(p);
    let sep = *["  ", "\t", " "].get(r.below(3) as usize).unwrap();
    format!("{y:.9}{sep}{x:.9}")
}

pub fn world(h: &[Value], r: &mut Rnd) -> World {
    let mut sec: Vec<(&str, String)> = ["[VOR]", "[NDB]", "[FIXES]", "[AIRPORT]", "[RUNWAY]"].iter().map(|s| (*s, String::new())).collect();
    let (mut nav, mut icao) = (String::new(), String::new());
    for x in h {
        let n = x.get("n").map(|n| tok(s(n))).unwrap_or_default();
        let c = |r: &mut Rnd| dms_text(i(&x["p"]), if r.below(2) == 0 { " " } else { "  " }, r.next());
        match s(&x["op"]) {
            "vor" => sec[0].1 += &format!("{n} 112.300 {}{}", c(r), blank(r)),
            "ndb" => sec[1].1 += &format!("{n}\t400.000 {}{}", c(r), blank(r)),
            "fix" => sec[2].1 += &format!("{n} {}{}", c(r), blank(r)),
            "apt" => {
                let f = *["118.700 ", "", ". ", "0 "].get(r.below(4) as usize).unwrap();
                sec[3].1 += &format!("{n} {f}{} {}{}", c(r), ["A", "D", "G"][r.below(3) as usize], blank(r))
            }
            "rwy" => {
                let q = &x["r"];
                sec[4].1 += &format!(
                    "{} {} {:03} {:03} {} {} {}{}{}",
                    s(&q["d1"]), s(&q["d2"]), i(&q["h1"]), i(&q["h2"]), dms_text(i(&q["p1"]), " ", r.next()), dms_text(i(&q["p2"]), " ", r.next()),
                    s(&q["apt"]), ["", " Munich Airport", " X"][r.below(3) as usize], blank(r)
                );
            }
            "nav" => nav += &format!("{n}  {}  {}\n", dec(i(&x["p"]), r), tok(s(&x["name"]))),
            "icao" => icao += &format!("{n}\t{}\t{}\n", tok(s(&x["name"])), tok(s(&x["country"]))),
            o => panic!("harness: op {o}"),
        }
        if r.below(12) == 0 {
            icao += "; remark\n";
            nav += "; remark\n";
        }
    }
    // sections in any order, with or without a section that has nothing to say
    let k = r.below(5) as usize;
    sec.rotate_left(k);
    let mut sct = String::from(SCT);
    for (name, t) in &sec {
        if !t.is_empty() || r.below(2) == 0 {
            sct += &format!("{name}\n{t}");
        }
    }
    let mut w = World { sct: encode(&sct, r.next()), navdata: encode(&nav, r.next()), ..World::default() };
    w.airports = encode(&format!("QQQQ\tNAME\tCountry\n{icao}"), r.next());
    w
}

fn places(it: Vec<(String, Vec<Point>)>) -> Value {
    Value::Object(it.into_iter().map(|(k, v)| (untok(&k), v.iter().map(|c| pt_of(c.x(), c.y())).collect())).collect())
}

fn ask(l: &Locations, want: &Value) -> Option<(String, Value, Value)> {
    for q in arr(want) {
        let w = tok(s(&q["w"]));
        let got = l.convert_designator(&w);
        let exp = arr(&q["r"]);
        let ok = match (&got, exp.first()) {
            (None, None) => true,
            (Some(f), Some(e)) => {
                let c = f.coordinate;
                let at = if let Some(p) = e.get("p") {
                    pt_of(c.x(), c.y()) == i(p)
                } else if let Some(from) = e.get("from") {
                    let (y, x) = pt(i(from));
                    let d = Geodesic.destination(Point::new(x, y), i(&e["brg"]) as f64, i(&e["rng"]) as f64 * 1852.0);
                    (d.x() - c.x()).abs() < 1e-7 && (d.y() - c.y()).abs() < 1e-7
                } else {
                    (c.y() - i(&e["lat"]) as f64 / 3600.0).abs() < 1e-9 && (c.x() - i(&e["lng"]) as f64 / 3600.0).abs() < 1e-9
                };
                at && untok(&f.designator) == s(&e["d"])
            }
            _ => false,
        };
        let loc = l.convert_location(&Location::Fix(w.clone()));
        if !ok || loc != got.as_ref().map(|f| f.coordinate) {
            return Some((format!("resolve {w:?}"), q["r"].clone(), json!(format!("{got:?} / {loc:?}"))));
        }
    }
    None
}

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 2);
    let h = arr(&case["h"]);
    let w = world(&h, &mut r);
    let input = json!({"sct": String::from_utf8_lossy(&w.sct), "icao.txt": String::from_utf8_lossy(&w.navdata), "airports": String::from_utf8_lossy(&w.airports)});
    let a = match w.load(ctx) {
        Ok(a) => a,
        Err(e) => return Report { checks: 1, bad: Some(("load".into(), json!("loads"), json!(e))), input },
    };
    let l = &a.locations;
    let x = &case["x"];
    let mut checks = 0;
    let mut bad = None;
    if let Some(q) = x.get("ask") {
        checks += arr(q).len();
        bad = bad.or_else(|| ask(l, q));
    }
    if let Some(q) = x.get("known") {
        checks += arr(q).len();
        bad = bad.or_else(|| {
            arr(q).iter().find_map(|e| {
                let k = l.contains_designator(&tok(s(&e["w"])));
                (k != b(&e["k"])).then(|| (format!("contains {}", e["w"]), e["k"].clone(), json!(k)))
            })
        });
    }
    if let Some(q) = x.get("at") {
        checks += arr(q).len();
        bad = bad.or_else(|| {
            arr(q).iter().find_map(|e| {
                let (y, x) = pt(i(&e["p"]));
                let j = [0.0, 2e-8, -2e-8][r.below(3) as usize];
                let k = l.contains_nav_element(&tok(s(&e["n"])), GraphPosition(Point::new(x + j, y - j)));
                (k != b(&e["k"])).then(|| (format!("contains {} at {}", e["n"], e["p"]), e["k"].clone(), json!(k)))
            })
        });
    }
    let mut o = Map::new();
    if x.get("vors").is_some() {
        checks += 1;
        o.insert("vors".into(), places(l.vors.iter_all().map(|(k, v)| (k.clone(), v.iter().map(|e| e.coordinate).collect())).collect()));
        o.insert("ndbs".into(), places(l.ndbs.iter_all().map(|(k, v)| (k.clone(), v.iter().map(|e| e.coordinate).collect())).collect()));
        o.insert("fixes".into(), places(l.fixes.iter_all().map(|(k, v)| (k.clone(), v.iter().map(|e| e.coordinate).collect())).collect()));
    }
    if x.get("airports").is_some() {
        checks += 1;
        let opt = |o: &Option<String>| o.iter().map(|s| untok(s)).collect::<Vec<_>>();
        o.insert("airports".into(), Value::Object(l.airports.iter().map(|(k, a)| {
            let c = a.coordinate;
            (if *k == a.designator { k.clone() } else { format!("{k}!") }, json!({"p": pt_of(c.x(), c.y()), "name": opt(&a.name), "country": opt(&a.country),
                "rwys": a.runways.iter().map(|q| json!({"d1": q.designators.0, "d2": q.designators.1, "h1": q.headings.0, "h2": q.headings.1,
                    "p1": pt_of(q.location.0.x(), q.location.0.y()), "p2": pt_of(q.location.1.x(), q.location.1.y()), "apt": q.aerodrome})).collect::<Vec<_>>()}))
        }).collect()));
    }
    if !o.is_empty() {
        let e: Map<String, Value> = o.keys().map(|k| (k.clone(), x[k].clone())).collect();
        bad = bad.or_else(|| compare(&Value::Object(e), &Value::Object(o)));
    }
    Report { checks, bad, input }
}
