//! Spec Sct.tla: sector files read, written again and drawn.
use crate::util::*;
use crate::world::World;
use crate::Report;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use vatsim_parser::adaptation::sct_items::ColouredLines as Drawn;
use vatsim_parser::sct::{Airway, ColouredLines, Sct};
use vatsim_parser::Location;

fn gap(r: &mut Rnd) -> &'static str {
    [" ", " ", "  ", "\t", " \t ", "               "][r.below(6) as usize]
}
/// end of a line that may have a comment behind it
fn eol(r: &mut Rnd) -> String {
    let c = ["", "", "", "", " ", "\t", " ; remark", ";N049.00.00.000 E011.00.00.000", " // remark", "  "][r.below(10) as usize];
    format!("{c}{}", nl(r))
}
fn nl(r: &mut Rnd) -> &'static str {
    ["\n", "\n", "\n", "\n", "\r\n", "\n\n", "\n \t\n", "\n; remark\n", "\n   // x\n\n"][r.below(9) as usize]
}
fn coord(p: i64, r: &mut Rnd) -> String {
    dms_text(p, gap(r), r.next())
}
fn place(v: &Value, r: &mut Rnd) -> String {
    let t = s(v);
    match t.strip_prefix('p').and_then(|n| n.parse::<i64>().ok()) {
        Some(n) => coord(n, r),
        None => format!("{t}{}{t}", gap(r)),
    }
}
fn lead(r: &mut Rnd) -> &'static str {
    ["", "", "", " ", "\t"][r.below(5) as usize]
}
fn line(l: &Value, r: &mut Rnd) -> String {
    let c = s(&l["c"]);
    let c = if c.is_empty() { String::new() } else { format!("{}{c}", gap(r)) };
    format!("{}{}{}{c}", place(&l["s"], r), gap(r), place(&l["e"], r))
}
fn record(k: &str, q: &Value, r: &mut Rnd) -> String {
    let n = q.get("n").map(|n| tok(s(n))).unwrap_or_default();
    let p = |r: &mut Rnd| coord(i(&q["p"]), r);
    let t = match k {
        "VOR" | "NDB" => format!("{n}{}{}{}{}", gap(r), s(&q["f"]), gap(r), p(r)),
        "FIXES" => format!("{n}{}{}", gap(r), p(r)),
        "AIRPORT" => format!("{n}{}{}{}{}{}", gap(r), ["118.700 ", "", ". ", "000.000\t", "0 "][r.below(5) as usize], p(r), gap(r), s(&q["a"])),
        "RUNWAY" => {
            let pad = |x: &Value, r: &mut Rnd| if r.below(3) == 0 { format!("{}", i(x)) } else { format!("{:03}", i(x)) };
            let t = format!(
                "{}{}{}{}{}{}{}{}{}{}{}{}{}",
                s(&q["d1"]), gap(r), s(&q["d2"]), gap(r), pad(&q["h1"], r), gap(r), pad(&q["h2"], r), gap(r),
                coord(i(&q["p1"]), r), gap(r), coord(i(&q["p2"]), r), gap(r), s(&q["apt"])
            );
            let tail = [String::new(), String::new(), " Munich".to_string(), format!(" {}/x", tok("M^nchen"))];
            format!("{t}{}", tail[r.below(4) as usize])
        }
        "HIGH AIRWAY" | "LOW AIRWAY" => format!("{n}{}{}{}{}", gap(r), place(&q["s"], r), gap(r), place(&q["e"], r)),
        "REGIONS" => {
            let ps = arr(&q["ps"]);
            let head = if n.is_empty() || r.below(3) > 0 {
                let sep = ["\n", "\n", "\r\n", "\n\n", "\t"][r.below(if n.is_empty() { 4 } else { 5 }) as usize];
                format!("REGIONNAME{}{n}{sep}", [" ", "\t", "  "][r.below(3) as usize])
            } else {
                format!("{n}\t")
            };
            let mut t = format!("{head}{}{}{}{}", lead(r), s(&q["c"]), gap(r), coord(i(&ps[0]), r));
            for p in &ps[1..] {
                t += &format!("{}{}{}", eol(r), ["                           ", " ", ""][r.below(3) as usize], coord(i(p), r));
            }
            t
        }
        "LABELS" => format!("\"{n}\"{}{}{}{}", gap(r), p(r), gap(r), s(&q["c"])),
        _ => panic!("harness: record of {k}"),
    };
    format!("{}{t}{}", lead(r), eol(r))
}

/// The file a history describes.
pub fn text(h: &[Value], r: &mut Rnd) -> String {
    let mut t = String::new();
    if r.below(12) == 0 {
        t += "\u{feff}";
    }
    t += ["", "", "\n", "; remark\n", "\n\n"][r.below(5) as usize];
    let mut at = 0;
    while at < h.len() {
        let x = &h[at];
        at += 1;
        match s(&x["op"]) {
            "open" => {
                let k = s(&x["k"]);
                t += &format!("[{}]{}", if k == "REGIONS" && r.below(2) == 0 { "Regions" } else { k }, eol(r));
            }
            "info" => {
                let v = &x["v"];
                let c = i(&v["lat"]);
                t += &format!("[INFO]{}", eol(r));
                // definitions that follow may as well come first
                while at < h.len() && s(&h[at]["op"]) == "col" && r.below(2) == 0 {
                    t += &format!("#define {} {}{}", s(&h[at]["n"]), i(&h[at]["v"]), eol(r));
                    at += 1;
                }
                t += &format!("{}\n{}{}{}{}", tok(s(&v["name"])), s(&v["call"]), eol(r), s(&v["apt"]), eol(r));
                let (a, b) = PTS[(c - 1) as usize];
                t += &format!("{}{}{}{}", dms_part(a, true, r.next()), eol(r), dms_part(b, false, r.next()), eol(r));
                for k in ["ml", "mg", "mv", "sf"] {
                    if !s(&v[k]).is_empty() {
                        t += &format!("{}{}", s(&v[k]), eol(r));
                    }
                }
            }
            "col" => t += &format!("{}#define{}{}{}{}{}", lead(r), gap(r), s(&x["n"]), gap(r), i(&x["v"]), eol(r)),
            "broken" => t += &format!("{}{}", tok(s(&x["t"])), ["\n", "\r\n", "\n\n"][r.below(3) as usize]),
            "remark" => t += ["; [VOR] N049.00.00.000\n", "\n", " // #define c1 5\n", ";\n\n"][r.below(4) as usize],
            "rec" => t += &record(s(&x["k"]), &x["r"], r),
            "group" => {
                let w = r.below(3);
                let n = tok(s(&x["n"]));
                let g = match w {
                    0 => format!("{:<40} ", n),
                    1 => format!("{n}\t"),
                    _ => format!("{n}{}", gap(r)),
                };
                t += &format!("{}{g}{}{}", lead(r), line(&x["l"], r), eol(r));
            }
            "more" => t += &format!("{}{}{}", ["                                         ", " ", "\t", ""][r.below(4) as usize], line(&x["l"], r), eol(r)),
            "ts" | "sym" | "coop" => {}
            o => panic!("harness: op {o}"),
        }
    }
    if r.below(4) == 0 {
        while t.ends_with(['\n', '\r']) {
            t.pop();
        }
    }
    t
}

fn loc(l: &Location) -> String {
    match l {
        Location::Fix(f) => untok(f),
        Location::Coordinate(c) => at(c.x(), c.y()),
    }
}
fn at(x: f64, y: f64) -> String {
    match pt_of(x, y) {
        0 => format!("? {y:.9} {x:.9}"),
        n => format!("p{n}"),
    }
}
fn groups<'a>(it: impl Iterator<Item = (&'a String, &'a Vec<ColouredLines>)>) -> Value {
    it.map(|(n, g)| {
        json!({"n": untok(n), "g": g.iter().map(|f| json!({"c": f.colour_name.clone().unwrap_or_default(),
            "lines": f.lines.iter().map(|l| l.points.iter().map(loc).collect::<Vec<_>>()).collect::<Vec<_>>()})).collect::<Vec<_>>()})
    })
    .collect()
}
fn airways(a: &[Airway]) -> Value {
    a.iter().map(|a| json!({"n": untok(&a.designator), "s": loc(&a.start), "e": loc(&a.end)})).collect()
}
/// Everything a sector file says.
pub fn show(q: &Sct) -> Value {
    let p = |x: f64, y: f64| pt_of(x, y);
    let info = &q.info;
    let header = if *info == Default::default() {
        json!([])
    } else {
        json!([{"name": untok(&info.name), "call": info.default_callsign, "apt": info.default_airport,
            "lat": p(info.centre_point.x(), info.centre_point.y()), "ml": info.miles_per_deg_lat, "mg": info.miles_per_deg_lng,
            "mv": info.magnetic_variation, "sf": info.scale_factor}])
    };
    json!({
        "info": header,
        "cols": q.colours.iter().map(|(k, c)| (k.clone(), json!(c.to_euroscope()))).collect::<Map<_, _>>(),
        "secs": {
            "VOR": q.vors.iter().map(|v| json!({"n": untok(&v.designator), "f": v.frequency, "p": p(v.coordinate.x(), v.coordinate.y())})).collect::<Vec<_>>(),
            "NDB": q.ndbs.iter().map(|v| json!({"n": untok(&v.designator), "f": v.frequency, "p": p(v.coordinate.x(), v.coordinate.y())})).collect::<Vec<_>>(),
            "FIXES": q.fixes.iter().map(|v| json!({"n": untok(&v.designator), "p": p(v.coordinate.x(), v.coordinate.y())})).collect::<Vec<_>>(),
            "AIRPORT": q.airports.iter().map(|v| json!({"n": v.designator, "p": p(v.coordinate.x(), v.coordinate.y()), "a": v.ctr_airspace})).collect::<Vec<_>>(),
            "RUNWAY": q.runways.iter().map(|v| json!({"d1": v.designators.0, "d2": v.designators.1, "h1": v.headings.0, "h2": v.headings.1,
                "p1": p(v.location.0.x(), v.location.0.y()), "p2": p(v.location.1.x(), v.location.1.y()), "apt": v.aerodrome})).collect::<Vec<_>>(),
            "HIGH AIRWAY": airways(&q.high_airways),
            "LOW AIRWAY": airways(&q.low_airways),
            "SID": groups(q.sids.iter().map(|g| (&g.name, &g.line_groups))),
            "STAR": groups(q.stars.iter().map(|g| (&g.name, &g.line_groups))),
            "ARTCC HIGH": groups(q.artccs_high.iter().map(|g| (&g.name, &g.line_groups))),
            "ARTCC": groups(q.artccs.iter().map(|g| (&g.name, &g.line_groups))),
            "ARTCC LOW": groups(q.artccs_low.iter().map(|g| (&g.name, &g.line_groups))),
            "GEO": groups(q.geo.iter().map(|g| (&g.name, &g.line_groups))),
            "REGIONS": q.regions.iter().map(|g| json!({"n": untok(&g.name), "c": g.colour_name, "ps": g.polygon.iter().map(|c| p(c.x, c.y)).collect::<Vec<_>>()})).collect::<Vec<_>>(),
            "LABELS": q.labels.iter().map(|l| json!({"n": untok(&l.name), "c": l.colour_name, "p": match &l.coordinate {
                Location::Coordinate(c) => p(c.x(), c.y()), Location::Fix(_) => -1 }})).collect::<Vec<_>>(),
        }
    })
}
/// The specification keeps the header's numbers as written.
fn expected(x: &Value) -> Value {
    let mut e = json!({"secs": x["secs"], "cols": x["cols"], "info": x["info"]});
    for v in e["info"].as_array_mut().into_iter().flatten() {
        for k in ["ml", "mg", "mv", "sf"] {
            let t = s(&v[k]);
            v[k] = json!(if t.is_empty() { 0.0 } else { t.parse::<f64>().expect("harness: header") });
        }
    }
    if e["secs"].as_object().is_none() {
        e["secs"] = json!({});
    }
    e
}

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 3);
    let h = arr(&case["h"]);
    let t = text(&h, &mut r);
    let bytes = encode(&t, r.next());
    let input = json!(t);
    let bad = match Sct::parse(&bytes) {
        Ok(q) => compare(&expected(&case["x"]), &show(&q)),
        Err(e) => Some(("parse".into(), json!("a sector file"), json!(e.to_string().lines().take(8).collect::<Vec<_>>()))),
    };
    Report { checks: 17, bad, input }
}

/// The order of records of different names is the writer's; records of one name keep theirs.
fn regroup(v: &Value) -> Value {
    let mut v = v.clone();
    for (k, list) in v["secs"].as_object_mut().into_iter().flatten() {
        let mut a = arr(list);
        let key = |x: &Value| match k.as_str() {
            "VOR" | "NDB" | "FIXES" | "AIRPORT" => x.to_string(),
            "RUNWAY" => s(&x["apt"]).to_string(),
            _ => s(&x["n"]).to_string(),
        };
        a.sort_by_cached_key(key);
        *list = Value::Array(a);
    }
    v
}

pub fn write(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 3);
    let h = arr(&case["h"]);
    let t = text(&h, &mut r);
    let bytes = encode(&t, r.next());
    let Ok(q) = Sct::parse(&bytes) else {
        // what cannot be read cannot be written: the business of the reading property
        return Report { checks: 0, bad: None, input: json!(t) };
    };
    let first = show(&q);
    // what was read wrongly is the business of the reading property, too: writing starts from what was read
    let out = q.to_string();
    let input = json!({"read": t, "written": out});
    let bad = match Sct::parse(out.as_bytes()) {
        Ok(b) => compare(&regroup(&first), &regroup(&show(&b))).or_else(|| {
            let again = b.to_string();
            (again != out).then(|| ("written again".to_string(), json!(out), json!(again)))
        }),
        Err(e) => Some(("read what was written".into(), json!("a sector file"), json!(e.to_string().lines().take(8).collect::<Vec<_>>()))),
    };
    let bad = bad.or_else(|| {
        let e = regroup(&expected(&case["x"]));
        let o = regroup(&first);
        if e["secs"].as_object().is_some_and(|m| m.is_empty()) { None } else { compare(&e, &o).map(|d| (format!("read{}", d.0), d.1, d.2)) }
    });
    Report { checks: 18, bad, input }
}

fn drawn(it: &multimap_like::M) -> Value {
    Value::Object(it.iter().map(|(k, v)| (k.clone(), Value::Array(v.clone()))).collect())
}
mod multimap_like {
    pub type M = std::collections::BTreeMap<String, Vec<serde_json::Value>>;
}
fn lines(d: &Drawn) -> Value {
    json!({"c": d.colour.to_euroscope(), "lines": d.lines.0.iter().map(|l| l.0.iter().map(|c| pt_of(c.x, c.y)).collect::<Vec<_>>()).collect::<Vec<_>>()})
}

pub fn world(h: &[Value], r: &mut Rnd) -> (World, String) {
    let t = text(h, r);
    let mut w = World { sct: encode(&t, r.next()), ..World::default() };
    let mut items = String::new();
    let mut maps = String::new();
    let mut coop = None;
    for x in h {
        match s(&x["op"]) {
            "ts" => {
                let v = i(&x["v"]);
                maps += &format!("COLORDEF:{}:{}:{}:{}{}", s(&x["n"]), v & 255, v >> 8 & 255, v >> 16, ["\n", "\n\n", "\n// x\n"][r.below(3) as usize]);
            }
            "sym" => items += &format!("{}:{}:{}:{}:{}:{}\n", s(&x["n"]), i(&x["v"]), ["1.0", "3.5", "10"][r.below(3) as usize], r.below(5), r.below(4), [0, 7, 14, 2][r.below(4) as usize]),
            "coop" => coop = Some(s(&x["v"]).to_string()),
            _ => {}
        }
    }
    w.symbology = format!("SYMBOLOGY\nSYMBOLSIZE\nOther:nothing:1:3.5:0:0:7\n{items}SYMBOL:0\nSYMBOLITEM:MOVETO -3 -3\nm_ClipArea:5\nEND\n").into_bytes();
    if !maps.is_empty() {
        w.ts_maps = Some(maps.into_bytes());
    }
    if let Some(c) = coop {
        w.ts_settings = Some(format!("Airspace_Time=10\nSetup_COOPANS={c}\n").into_bytes());
    }
    (w, t)
}

pub fn items(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 4);
    let h = arr(&case["h"]);
    let (w, t) = world(&h, &mut r);
    let input = json!({"sct": t, "symbology": String::from_utf8_lossy(&w.symbology), "maps": w.ts_maps.as_ref().map(|m| String::from_utf8_lossy(m).to_string()),
        "settings": w.ts_settings.as_ref().map(|m| String::from_utf8_lossy(m).to_string())});
    let a = match w.load(ctx) {
        Ok(a) => a,
        Err(e) => return Report { checks: 1, bad: Some(("load".into(), json!("loads"), json!(e.lines().take(8).collect::<Vec<_>>()))), input },
    };
    let x = &case["x"];
    let q = &a.sct_items;
    let mut checks = 0;
    let mut o = Map::new();
    if x.get("drawn").is_some() {
        let mut all = Map::new();
        for (k, m) in [("SID", &q.sids), ("STAR", &q.stars), ("ARTCC HIGH", &q.artccs_high), ("ARTCC", &q.artccs), ("ARTCC LOW", &q.artccs_low), ("GEO", &q.geo)] {
            let by: multimap_like::M = m.iter_all().map(|(n, v)| (untok(n), v.iter().map(lines).collect())).collect();
            checks += 1;
            all.insert(k.into(), drawn(&by));
        }
        o.insert("drawn".into(), Value::Object(all));
    }
    if let Some(p) = x.get("palette") {
        checks += 1;
        let num = |v: &Value| {
            let t = s(v).trim_start_matches('#').to_string();
            let n = i64::from_str_radix(&t, 16).expect("harness: colour");
            (n >> 16 & 255) + (n & 0xff00) + ((n & 255) << 16)
        };
        let c = serde_json::to_value(&a.colours).expect("colours");
        let mut seen = Map::new();
        for g in ["map", "sector", "track", "ui"] {
            seen.insert(g.into(), Value::Object(c[g].as_object().expect("group").iter().map(|(k, v)| (k.clone(), json!(num(v)))).collect()));
        }
        let named: Map<String, Value> = p["named"].as_object().expect("named").keys()
            .map(|n| (n.clone(), json!(a.colours.get(n, &a.settings).iter().map(|c| i64::from(c.to_euroscope())).collect::<Vec<_>>()))).collect();
        seen.insert("named".into(), Value::Object(named));
        o.insert("palette".into(), Value::Object(seen));
        let by: multimap_like::M = q.regions.iter_all().map(|(n, v)| (untok(n), v.iter().map(|g| json!({"n": untok(&g.name), "c": g.colour_name,
            "ps": g.polygon.iter().map(|c| pt_of(c.x, c.y)).collect::<Vec<_>>()})).collect())).collect();
        o.insert("regions".into(), drawn(&by));
        let by: multimap_like::M = q.labels.iter_all().map(|(n, v)| (untok(n), v.iter().map(|l| json!({"n": untok(&l.name), "c": l.colour_name, "p": match &l.coordinate {
            Location::Coordinate(c) => pt_of(c.x(), c.y()), Location::Fix(_) => -1 }})).collect())).collect();
        o.insert("labels".into(), drawn(&by));
    }
    let e: Map<String, Value> = o.keys().map(|k| (k.clone(), x[k].clone())).collect();
    let mut bad = compare(&Value::Object(e), &Value::Object(o));
    if let Some(air) = x.get("air") {
        for (k, m) in [("HIGH AIRWAY", &q.high_airways), ("LOW AIRWAY", &q.low_airways)] {
            checks += 1;
            bad = bad.or_else(|| lines_of(k, &air[k], m.iter_all().map(|(n, v)| (untok(n), v.iter().map(|l| l.0.iter().map(|s| s.0.iter().map(|c| pt_of(c.x, c.y)).collect()).collect()).collect())).collect()));
        }
    }
    Report { checks, bad, input }
}

/// Any set of lines is right that shows every segment, nothing else, and none more often than it is recorded.
fn lines_of(k: &str, e: &Value, o: BTreeMap<String, Vec<Vec<Vec<i64>>>>) -> Option<(String, Value, Value)> {
    let empty = Map::new();
    let e = e.as_object().unwrap_or(&empty);
    if e.keys().collect::<BTreeSet<_>>() != o.keys().collect::<BTreeSet<_>>() {
        return Some((format!("{k}: names"), json!(e.keys().collect::<Vec<_>>()), json!(o.keys().collect::<Vec<_>>())));
    }
    for (n, want) in e {
        let norm = |a: i64, b: i64| if a <= b { (a, b) } else { (b, a) };
        let mut rec: BTreeMap<(i64, i64), usize> = BTreeMap::new();
        for q in arr(&want["segs"]) {
            *rec.entry(norm(i(&q[0]), i(&q[1]))).or_default() += 1;
        }
        let got = &o[n];
        let mut seen: BTreeMap<(i64, i64), usize> = BTreeMap::new();
        for l in got.iter().flatten() {
            if l.len() < 2 {
                return Some((format!("{k} {n}: a line of one point"), want.clone(), json!(got)));
            }
            for w in l.windows(2) {
                *seen.entry(norm(w[0], w[1])).or_default() += 1;
            }
        }
        let ok = rec.keys().eq(seen.keys()) && seen.iter().all(|(s, c)| c <= &rec[s]);
        let chain = arr(&want["chain"]);
        let one = chain.first().is_none_or(|c| got.len() == 1 && json!(got[0]) == json!([c]));
        if !ok || !one {
            return Some((format!("{k} {n}"), want.clone(), json!(got)));
        }
    }
    None
}

/// Spec AirLong.tla: airways of thousands of segments.
pub fn long(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 41);
    // places are numbered a second of arc apart
    let place = |p: i64| format!("N{:03}.{:02}.{:02}.000 E011.{:02}.00.000", 10 + p / 3600, p / 60 % 60, p % 60, p % 7);
    let mut secs: BTreeMap<String, String> = BTreeMap::new();
    let end = eol(&mut r);
    for x in arr(&case["h"]) {
        let (a, b) = (i(&x["r"][0]), i(&x["r"][1]));
        let mut ps: Vec<i64> = arr(&x["from"]).iter().map(i).collect();
        ps.extend(if a <= b { (a..=b).collect::<Vec<_>>() } else { (b..=a).rev().collect() });
        let t = secs.entry(s(&x["k"]).into()).or_default();
        for w in ps.windows(2) {
            *t += &format!("{} {} {}{end}", s(&x["n"]), place(w[0]), place(w[1]));
        }
    }
    let mut order: Vec<_> = secs.iter().collect();
    if r.below(2) == 0 {
        order.reverse();
    }
    let text: String = order.iter().map(|(k, t)| format!("[{k}]\n{t}\n")).collect();
    let w = World { sct: text.into_bytes(), ..World::default() };
    let input = case["h"].clone();
    // on the stack any thread has
    let a = std::thread::scope(|sc| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || w.load(ctx)).expect("thread").join());
    let a = match a.unwrap_or_else(|_| Err("panic".into())) {
        Ok(a) => a,
        Err(e) => return Report { checks: 1, bad: Some(("load".into(), json!("loads"), json!(e.lines().take(8).collect::<Vec<_>>()))), input },
    };
    let q = &a.sct_items;
    let mut seen: BTreeMap<(String, String), Vec<Vec<i64>>> = BTreeMap::new();
    for (k, m) in [("HIGH AIRWAY", &q.high_airways), ("LOW AIRWAY", &q.low_airways)] {
        for (n, v) in m.iter_all() {
            let ls = v.iter().flat_map(|l| &l.0).map(|l| l.0.iter().map(|c| ((c.y - 10.0) * 3600.0).round() as i64).collect());
            seen.entry((k.into(), n.clone())).or_default().extend(ls);
        }
    }
    let mut checks = 0;
    for x in arr(&case["x"]) {
        checks += 1;
        let mut want: Vec<Vec<i64>> = arr(&x["ls"]).iter().map(|l| arr(l).iter().flat_map(|q| {
            let (a, b) = (i(&q[0]), i(&q[1]));
            if a <= b { (a..=b).collect::<Vec<_>>() } else { (b..=a).rev().collect() }
        }).collect()).collect();
        let mut got = seen.remove(&(s(&x["k"]).into(), s(&x["n"]).into())).unwrap_or_default();
        want.sort();
        got.sort();
        if want != got {
            let short = |ls: &[Vec<i64>]| json!(ls.iter().map(|l| json!({"points": l.len(), "first": l.first(), "last": l.last()})).collect::<Vec<_>>());
            return Report { checks, bad: Some((format!("{} {}", s(&x["k"]), s(&x["n"])), short(&want), short(&got))), input };
        }
    }
    let bad = (!seen.is_empty()).then(|| ("names".to_string(), json!([]), json!(seen.keys().collect::<Vec<_>>())));
    Report { checks, bad, input }
}
