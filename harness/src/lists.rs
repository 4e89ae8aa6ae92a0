//! Specs Lists.tla and Asr.tla: reference lists, display files.
use crate::util::*;
use crate::world::World;
use crate::Report;
use serde_json::{json, Value};
use vatsim_parser::adaptation::icao::{AircraftMap, Wtc};
use vatsim_parser::asr::*;
use vatsim_parser::icao_aircraft::parse_aircraft;
use vatsim_parser::icao_airlines::parse_airlines;
use vatsim_parser::icao_airports::parse_airports;
use vatsim_parser::isec::parse_isec_txt;
use vatsim_parser::navdata_airports::parse_navdata_airports;

fn fail(at: &str, e: impl ToString, input: &str) -> Report {
    Report { checks: 1, bad: Some((at.into(), json!("ok"), json!(e.to_string()))), input: json!(input) }
}
fn decimals(p: i64) -> (String, String) {
    let (lat, lng) = pt(p);
    (format!("{lat:.7}"), format!("{lng:.7}"))
}
/// the same number written in another way
fn other(t: &str, r: &mut Rnd, short: bool) -> String {
    match r.below(6) {
        0 => format!("{t}00"),
        1 if short && t.trim_end_matches('0').ends_with('.') => t.trim_end_matches('0').trim_end_matches('.').to_string(),
        1 | 2 => {
            let u = t.trim_end_matches('0');
            if u.ends_with('.') { format!("{u}0") } else { u.to_string() }
        }
        3 => match t.strip_prefix('-') {
            Some(u) => format!("-0{u}"),
            None if short => format!("+{t}"),
            None => format!("00{t}"),
        },
        _ => t.to_string(),
    }
}

pub fn lists(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 81);
    let f = s(&case["f"]);
    let nl = r.pick(&["\n", "\n", "\r\n"]).to_string();
    let mut t = String::new();
    if f != "isec" && r.below(3) == 0 {
        t += &nl;
    }
    for op in arr(&case["h"]) {
        let q = &op["r"];
        let w = |k: &str| tok(s(&q[k]));
        let line = match (s(&op["op"]), f) {
            ("junk", _) => match s(&op["t"]) {
                "comment" => r.pick(&[";", "; a comment \t 1", ";AAA\tB\tC\tD"]).to_string(),
                "slashes" => r.pick(&["//", "// a comment"]).to_string(),
                "more" => r.pick(&["continued name, which is ignored", "(C98, U27)"]).to_string(),
                _ => String::new(),
            },
            (_, "aircraft") => format!("{}\t{}{}{}{}\t{}\t{}", w("d"), w("w"), w("k"), w("n"), w("e"), w("m"), w("x")),
            (_, "airlines") => format!("{}\t{}\t{}\t{}", w("d"), w("n"), w("c"), w("l")),
            (_, "airports") => format!("{}\t{}\t{}", w("d"), w("n"), w("c")),
            (_, "navdata") => {
                let (a, b) = decimals(i(&q["p"]));
                let (a, b) = (other(&a, &mut r, true), other(&b, &mut r, true));
                format!("{}{s1}{a}{s2}{b}{s2}{}", w("d"), w("n"), s1 = r.pick(&["    ", "\t", " "]), s2 = r.pick(&["    ", " ", "\t "]))
            }
            (_, "isec") => {
                let (a, b) = decimals(i(&q["p"]));
                let (a, b) = (other(&a, &mut r, false), other(&b, &mut r, false));
                let (s1, s2) = (r.pick(&["\t ", " ", "\t", "   "]), r.pick(&["\t", " ", "\t\t"]));
                format!("{}{s1}{a}{s2}{b}{s2}15", w("d"))
            }
            x => panic!("harness: {x:?}"),
        };
        t += &line;
        t += &nl;
    }
    if f != "isec" && r.below(3) == 0 {
        t.truncate(t.len() - nl.len());
    }
    let bytes = encode(&t, r.next());
    let o: Value = match f {
        "aircraft" => {
            let seen = |m: &AircraftMap| -> Value {
                m.0.iter()
                    .map(|(k, a)| {
                        let mut o = json!({"d": untok(&a.designator), "w": format!("{:?}", a.wtc), "k": format!("{:?}", a.aircrafttype), "n": a.num_engines,
                            "e": format!("{:?}", a.enginetype), "m": untok(&a.manufacturer), "x": untok(&a.name)});
                        if *k != a.designator || m.wtc(Some(k)) != a.wtc {
                            o["key"] = json!([k, format!("{:?}", m.wtc(Some(k)))]);
                        }
                        o
                    })
                    .collect()
            };
            let m = match parse_aircraft(&bytes) {
                Ok(m) => m,
                Err(e) => return fail("parse", e, &t),
            };
            if m.wtc(None) != Wtc::UNKNOWN || m.wtc(Some("NONE")) != Wtc::UNKNOWN {
                return fail("category of unknown types", "not UNKNOWN", &t);
            }
            let o = seen(&m);
            if r.below(6) == 0 {
                let w = World { aircraft: bytes.clone(), ..Default::default() };
                match w.load(ctx) {
                    Ok(a) => seen(&a.aircraft),
                    Err(e) => return fail("load", e, &t),
                }
            } else {
                o
            }
        }
        "airlines" => {
            let m = if r.below(6) == 0 {
                match (World { airlines: bytes.clone(), ..Default::default() }).load(ctx) {
                    Ok(a) => a.airlines,
                    Err(e) => return fail("load", e, &t),
                }
            } else {
                match parse_airlines(&bytes) {
                    Ok(m) => m,
                    Err(e) => return fail("parse", e, &t),
                }
            };
            m.iter()
                .map(|(k, a)| {
                    let mut o = json!({"d": untok(&a.designator), "n": untok(&a.name), "c": untok(&a.callsign), "l": untok(&a.country)});
                    if *k != a.designator {
                        o["key"] = json!(k);
                    }
                    o
                })
                .collect()
        }
        "airports" => match parse_airports(&bytes) {
            Ok(m) => m
                .iter()
                .map(|(k, a)| {
                    let mut o = json!({"d": untok(&a.designator), "n": untok(&a.name), "c": untok(&a.country)});
                    if *k != a.designator {
                        o["key"] = json!(k);
                    }
                    o
                })
                .collect(),
            Err(e) => return fail("parse", e, &t),
        },
        "navdata" => match parse_navdata_airports(&bytes) {
            Ok(m) => m
                .iter()
                .map(|(k, a)| {
                    let mut o = json!({"d": untok(&a.designator), "n": untok(&a.name), "p": pt_of(a.location.x(), a.location.y())});
                    if *k != a.designator {
                        o["key"] = json!(k);
                    }
                    o
                })
                .collect(),
            Err(e) => return fail("parse", e, &t),
        },
        _ => {
            let read = |b: &[u8]| parse_isec_txt(b).map_err(|e| e.to_string());
            let seen = |m: &vatsim_parser::isec::IsecMap| -> Value {
                m.iter_all()
                    .map(|(k, v)| {
                        let mut o = json!({"d": untok(k), "ps": v.iter().map(|x| pt_near(x.coordinate.x(), x.coordinate.y(), 1.1e-6)).collect::<Vec<_>>()});
                        if v.iter().any(|x| x.designator != *k) {
                            o["key"] = json!(v.iter().map(|x| x.designator.clone()).collect::<Vec<_>>());
                        }
                        o
                    })
                    .collect()
            };
            let m = match read(&bytes) {
                Ok(m) => m,
                Err(e) => return fail("parse", e, &t),
            };
            let again = match read(m.to_string().as_bytes()) {
                Ok(m) => m,
                Err(e) => return fail("parse what was written", e, &m.to_string()),
            };
            if m.to_string() != again.to_string() {
                return fail("write again", again.to_string(), &m.to_string());
            }
            if let Some((at, e, o)) = compare_keys(&json!({"x_s": case["x_s"]}), &json!({"x_s": seen(&again)})) {
                return Report { checks: 1, bad: Some((format!("written and read{at}"), e, o)), input: json!(t) };
            }
            seen(&m)
        }
    };
    let checks = o.as_array().map_or(1, |a| a.len() + 1);
    Report { checks, bad: compare_keys(&json!({"x_s": case["x_s"]}), &json!({"x_s": o})), input: json!(t) }
}

// ------------------------------------------------------------------ display files

fn part(ms: i64, lat: bool, r: &mut Rnd) -> String {
    match r.below(3) {
        0 => dms_part(ms, lat, r.next()).to_uppercase(),
        1 => format!("{:.6}", deg(ms)),
        _ => format!("{:.8}", deg(ms)),
    }
}
fn area(p: i64, r: &mut Rnd) -> String {
    let (a, b) = PTS[(p - 1) as usize];
    format!("{}:{}", part(a, true, r), part(b, false, r))
}

pub fn asr(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 82);
    let nl = r.pick(&["\n", "\n", "\r\n"]).to_string();
    let mut t = String::new();
    if r.below(3) == 0 {
        t += &nl;
    }
    for op in arr(&case["h"]) {
        let line = match s(&op["op"]) {
            "set" => {
                let k = match s(&op["k"]) {
                    "above" => "ABOVE",
                    "below" => "BELOW",
                    "pan" => "DISABLEPANNING",
                    "zoom" => "DISABLEZOOMING",
                    "rot" => "DisplayRotation",
                    "type" => "DisplayTypeName",
                    "geo" => "DisplayTypeGeoReferenced",
                    "radar" => "DisplayTypeNeedRadarContent",
                    "dots" => "HISTORY_DOTS",
                    "leader" => "LEADER",
                    "file" => "SECTORFILE",
                    "title" => "SECTORTITLE",
                    "shleader" => "SHOWLEADER",
                    "shc" => "SHOWC",
                    "shsb" => "SHOWSB",
                    "sim" => "SIMULATION_MODE",
                    "tag" => "TAGFAMILY",
                    "turn" => "TURNLEADER",
                    k => panic!("harness: {k}"),
                };
                format!("{k}:{}", tok(s(&op["t"])))
            }
            "area" => format!("WINDOWAREA:{}:{}", area(i(&op["v"][0]), &mut r), area(i(&op["v"][1]), &mut r)),
            "plugin" => format!("PLUGIN:{}:{}:{}", tok(s(&op["p"])), tok(s(&op["k"])), tok(s(&op["v"]))),
            "ext" => format!("Runways:{}:{}", tok(s(&op["n"])), s(&op["h"])),
            "show" => {
                let (k, n, h) = (s(&op["k"]), tok(s(&op["n"])), s(&op["h"]));
                match k {
                    "runways" => format!("Runways:{n}:{}", if h == "centreline" { "centerline" } else { h }),
                    "airports" => format!("Airports:{n}:{h}"),
                    "fixes" => format!("Fixes:{n}:{h}"),
                    "ndbs" => format!("NDBs:{n}:{h}"),
                    "vors" => format!("VORs:{n}:{h}"),
                    "low" => format!("Low airways:{n}:{h}"),
                    "high" => format!("High airways:{n}:{h}"),
                    "ground" => format!("Ground Network:{n}:{h}"),
                    "sids" => format!("Sids:{n}:"),
                    "stars" => format!("Stars:{n}:"),
                    "geos" => format!("Geo:{n}:"),
                    "regions" => format!("Regions:{n}:polygon"),
                    "artcc" => format!("ARTCC boundary:{n}:"),
                    "artccl" => format!("ARTCC low boundary:{n}:"),
                    "artcch" => format!("ARTCC high boundary:{n}:"),
                    "text" => format!("Free Text:{n}:freetext"),
                    k => panic!("harness: {k}"),
                }
            }
            o => panic!("harness: op {o}"),
        };
        t += &line;
        t += &nl;
        if r.below(6) == 0 {
            t += r.pick(&["; a comment", ";SHOWC:0", ";"]);
            t += &nl;
        }
        if r.below(8) == 0 {
            t += &nl;
        }
    }
    if r.below(3) == 0 && t.ends_with(&nl) && !t.ends_with(&nl.repeat(2)) && !t.lines().last().is_some_and(|l| l.starts_with(';')) {
        t.truncate(t.len() - nl.len());
    }
    let a = match Asr::parse(&encode(&t, r.next())) {
        Ok(a) => a,
        Err(e) => return fail("parse", e, &t),
    };
    let feet = |x: Option<u32>| x.map_or("none".to_string(), |n| n.to_string());
    let (c1, c2) = a.window_area;
    let built = (c1.x, c1.y, c2.x, c2.y) == (6.678_287, 46.529_122, 16.599_9, 50.105_536);
    let at = |c: geo::Coord| if built { json!(0) } else { json!(pt_near(c.x, c.y, 6e-7)) };
    let m = &a.map;
    let fix = |v: &[(String, AsrMapFixType)]| -> Value { v.iter().map(|(n, h)| json!([untok(n), match h { AsrMapFixType::Name => "name", AsrMapFixType::Symbol => "symbol" }])).collect() };
    let nav = |v: &[(String, AsrMapNavaidType)]| -> Value {
        v.iter()
            .map(|(n, h)| json!([untok(n), match h { AsrMapNavaidType::Name => "name", AsrMapNavaidType::Symbol => "symbol", AsrMapNavaidType::Frequency => "frequency" }]))
            .collect()
    };
    let awy = |v: &[(String, AsrMapAirwayType)]| -> Value { v.iter().map(|(n, h)| json!([untok(n), match h { AsrMapAirwayType::Name => "name", AsrMapAirwayType::Line => "line" }])).collect() };
    let plain = |v: &[String]| -> Value { v.iter().map(|n| json!([untok(n), ""])).collect() };
    let o = json!({
        "v": {
            "above": feet(a.above), "below": feet(a.below), "pan": a.disable_panning.to_string(), "zoom": a.disable_zooming.to_string(),
            "geo": a.display_type_geo_referenced.to_string(), "radar": a.display_type_need_radar_content.to_string(),
            "shleader": a.show_leader.to_string(), "shc": a.show_c.to_string(), "shsb": a.show_standby.to_string(), "turn": a.turn_leader.to_string(),
            "rot": a.display_rotation.to_string(), "type": match a.display_type { DisplayType::Radar => "Radar", DisplayType::GroundRadar => "GroundRadar" },
            "dots": a.history_dots.to_string(), "leader": match a.leader { Leader::Miles(n) => format!("nm {n}"), Leader::Minutes(n) => format!("min {n}") },
            "file": untok(&a.sector_file), "title": untok(&a.sector_title), "tag": untok(&a.tag_family),
            "sim": match a.simulation_mode { SimulationMode::Radar => "Radar", SimulationMode::Ground => "Ground" },
        },
        "area": [at(c1), at(c2)],
        "plug_s": a.plugin_settings.iter().map(|((p, k), v)| json!([[untok(p), untok(k)], untok(v)])).collect::<Value>(),
        "shown": {
            "runways": m.runways.iter().map(|(n, x, y, h)| json!([format!("{} {x}-{y}", untok(n)), match h { AsrMapRunwayType::Name => "name", AsrMapRunwayType::Centreline => "centreline" }])).collect::<Value>(),
            "airports": fix(&m.airports), "fixes": fix(&m.fixes), "ndbs": nav(&m.ndbs), "vors": nav(&m.vors), "low": awy(&m.low_airways), "high": awy(&m.high_airways),
            "ground": m.ground_network.iter().map(|(n, h)| json!([untok(n), match h { AsrMapGroundNetworkType::Exit => "exit", AsrMapGroundNetworkType::Taxiway => "taxiway", AsrMapGroundNetworkType::TerminalTaxiway => "terminal taxiway" }])).collect::<Value>(),
            "sids": plain(&m.sids), "stars": plain(&m.stars), "geos": plain(&m.geo), "regions": plain(&m.regions),
            "artcc": plain(&m.artcc_boundary), "artccl": plain(&m.artcc_low_boundary), "artcch": plain(&m.artcc_high_boundary),
            "text": m.free_text.iter().map(|(g, x)| json!([format!("{}\\{}", untok(g), untok(x)), ""])).collect::<Value>(),
        },
    });
    Report { checks: 36, bad: compare_keys(&case["x"], &o), input: json!(t) }
}
