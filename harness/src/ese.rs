//! Specs Ese.tla and Ring.tla: the ESE file and the airspace made from it.
use crate::util::*;
use crate::world::{World, SCT};
use crate::Report;
use geo::{Coord, LineString};
use serde_json::{json, Map, Value};
use vatsim_parser::adaptation::sectors::Sectors;
use vatsim_parser::ese::{Constraint, Ese, SidStar};

fn join(v: &Value, sep: &str) -> String {
    arr(v).iter().map(|x| tok(s(x))).collect::<Vec<_>>().join(sep)
}

pub struct Text {
    pub t: String,
    nl: &'static str,
    r: Rnd,
}
impl Text {
    fn nl(&mut self, comments: bool) {
        let k = self.r.below(24);
        if k == 0 {
            self.t += " ";
        }
        self.t += self.nl;
        if k == 1 {
            self.t += self.nl;
        }
        if comments && k == 2 {
            self.t += "; a remark: SECTOR:X:1:2";
            self.t += self.nl;
        }
    }
}

fn lvl(v: &Value) -> String {
    if i(v) < 0 { "*".into() } else { i(v).to_string() }
}

fn op(x: &Value, o: &mut Text) {
    match s(&x["op"]) {
        "section" => {
            o.t += &format!("[{}]", s(&x["name"]));
            o.nl(false);
        }
        "junk" => {
            let j = ["N049.00.00.000:E012.00.00.000:Group:Text", "SECTOR:ALB:1:2", "OWNER:ALB", "12345", "SID:EDDM:08L:X:Y", "(( ] \u{fc} ,"];
            o.t += j[(i(&x["k"]) - 1) as usize];
            o.nl(false);
        }
        "pos" => {
            let p = &x["r"];
            let sq = arr(&p["sq"]);
            let r = o.r.next();
            let (u1, u2) = (["-", "", "x"][(r % 3) as usize], ["-", "", "1"][(r / 3 % 3) as usize]);
            o.t += &format!(
                "{}:{}:{}:{}:{}:{}:{}:{u1}:{u2}:",
                s(&p["name"]), tok(s(&p["call"])), s(&p["freq"]), tok(s(&p["id"])), s(&p["mid"]), s(&p["pre"]), s(&p["suf"])
            );
            let vis: Vec<String> = arr(&p["vis"]).iter().map(|v| dms_text(i(v), ":", o.r.next())).collect();
            if sq.is_empty() {
                if !vis.is_empty() {
                    // without the two fields, or with them left empty
                    o.t += ["", ":", "::"][(r >> 10) as usize % 3];
                }
            } else {
                o.t += &format!("{:04}:{:04}", i(&sq[0]), i(&sq[1]));
                if !vis.is_empty() {
                    o.t += ":";
                }
            }
            o.t += &vis.join(":");
            o.nl(false);
        }
        "line" => {
            o.t += &format!("SECTORLINE:{}", tok(s(&x["n"])));
            o.nl(false);
            for p in arr(&x["pts"]) {
                if o.r.below(6) == 0 {
                    o.t += "DISPLAY:EDMM\u{b7}ALB\u{b7}105\u{b7}135:ALB:X";
                    o.nl(false);
                }
                o.t += &format!("COORD:{}", dms_text(i(&p), ":", o.r.next()));
                o.nl(true);
            }
            if o.r.below(6) == 0 {
                o.t += "DISPLAY:A:B:C";
                o.nl(false);
            }
        }
        "sector" => {
            let q = &x["r"];
            o.t += &format!("SECTOR:{}:{:05}:{}", tok(s(&q["n"])), i(&q["lo"]), i(&q["hi"]));
            o.nl(true);
            for u in arr(&q["subs"]) {
                o.t += &format!("{}:{}", s(&u["k"]), join(&u["v"], ":"));
                o.nl(false);
            }
        }
        "cop" => {
            let c = &x["r"];
            o.t += &format!(
                "{}:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}",
                if b(&c["fir"]) { "FIR_COPX" } else { "COPX" },
                s(&c["prev"]), s(&c["deprwy"]), s(&c["fix"]), s(&c["next"]), s(&c["arrrwy"]), tok(s(&c["exit"])),
                tok(s(&c["entry"])), lvl(&c["clb"]), lvl(&c["des"]), tok(s(&c["desc"]))
            );
            o.nl(false);
        }
        "other" => {
            let lines: &[&str] = match s(&x["k"]) {
                "circle" => &["CIRCLE_SECTORLINE:L1:MIQ:5.0", "DISPLAY:ALB:ALB:X"],
                "display" => &["DISPLAY_SECTORLINE:L1:ALB:ALB:EGG"],
                _ => &["MSAW:ALB:3000", "COORD:N049.00.00.000:E012.00.00.000", "COORD:N049.00.00.000:E013.00.00.000"],
            };
            for l in lines {
                o.t += l;
                o.nl(false);
            }
        }
        "proc" => {
            let p = &x["r"];
            o.t += &format!(
                "{}:{}:{}:{}:{}",
                if b(&p["sid"]) { "SID" } else { "STAR" },
                s(&p["apt"]), s(&p["rwy"]), s(&p["name"]), join(&p["wpts"], if o.r.below(3) == 0 { "  " } else { " " })
            );
            o.nl(true);
        }
        k => panic!("harness: op {k}"),
    }
}

fn star(o: &Option<String>) -> String {
    o.clone().unwrap_or_else(|| "*".into())
}
fn con(c: &Constraint) -> Value {
    json!({"prev": star(&c.previous_fix), "deprwy": star(&c.departure_runway), "fix": star(&c.fix), "next": star(&c.subsequent_fix),
        "arrrwy": star(&c.arrival_runway), "exit": untok(&c.exit_sector), "entry": untok(&c.entry_sector),
        "clb": c.climb_level.map_or(-1, i64::from), "des": c.descent_level.map_or(-1, i64::from), "desc": untok(&c.description),
        "shown": untok(&c.to_string().replace('→', ">")).split_whitespace().collect::<Vec<_>>().join(" ")})
}
fn un(v: &[String]) -> Vec<String> {
    v.iter().map(|x| untok(x)).collect()
}
/// the nearest place: borders are kept to a millionth of a degree
fn near(c: Coord) -> i64 {
    pt_near(c.x, c.y, 6e-7)
}
fn cross(o: Coord, a: Coord, b: Coord) -> f64 {
    (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x)
}
fn simple(ring: &[Coord]) -> bool {
    // no repeated points, no crossing edges, something inside
    let n = ring.len() - 1;
    for k in 0..n {
        for m in k + 1..n {
            if ring[k] == ring[m] {
                return false;
            }
            if m == k + 1 || (k == 0 && m == n - 1) {
                continue;
            }
            let (a, b, c, d) = (ring[k], ring[k + 1], ring[m], ring[m + 1]);
            if cross(a, b, c) * cross(a, b, d) <= 0.0 && cross(c, d, a) * cross(c, d, b) <= 0.0 {
                return false;
            }
        }
    }
    area(ring).abs() > 1e-9
}
fn area(ring: &[Coord]) -> f64 {
    ring.windows(2).map(|w| (w[0].x - ring[0].x) * (w[1].y - ring[0].y) - (w[1].x - ring[0].x) * (w[0].y - ring[0].y)).sum()
}
fn edges(l: &LineString) -> Value {
    l.0.windows(2)
        .map(|w| {
            let (a, b) = (near(w[0]), near(w[1]));
            json!([a.min(b), a.max(b)])
        })
        .collect()
}

const NAV: &str = "[VOR]\nVOR 112.300 N049.00.00.000 E012.00.00.000\nABCDE 113.300 N049.02.24.501 E012.31.35.850\n[NDB]\nNDB 400.000 N009.07.08.070 E100.01.02.030\n\
[AIRPORT]\nEDDM 118.700 N048.21.13.800 E011.47.10.300 D\n[RUNWAY]\n08L 26R 080 260 N047.59.00.005 E010.00.59.050 N049.00.00.000 E012.00.00.000 EDDM\n\
[FIXES]\nABCDE N000.00.00.000 E000.00.00.000\nFGHIJ S033.56.46.007 E151.10.38.000\n";

pub fn observe(text: &str, bytes: &[u8], ctx: &Ctx, want: &Value) -> Result<Value, (String, Value, Value)> {
    let ese = Ese::parse(bytes).map_err(|e| ("parse".to_string(), json!("parses"), json!(e.to_string())))?;
    let mut o = Map::new();
    let pos: Map<String, Value> = ese
        .positions
        .iter()
        .map(|(k, p)| {
            (untok(k), json!({"id": untok(&p.identifier), "name": p.name, "call": untok(&p.callsign), "freq": p.frequency, "mid": p.middle, "pre": p.prefix,
                "suf": p.suffix, "sq": p.squawk_range.map_or(json!([]), |(a, b)| json!([a, b])),
                "vis": p.visibility_points.iter().map(|c| pt_of(c.x, c.y)).collect::<Vec<_>>()}))
        })
        .collect();
    o.insert("pos".into(), pos.into());
    o.insert("sects_s".into(), ese.sectors.iter().map(|(k, q)| {
        json!({"n": if *k == q.id { untok(k) } else { format!("{k}/{}", q.id) }, "lo": q.bottom, "hi": q.top, "owners": un(&q.owner_priority),
            "dep": un(&q.departure_airports), "arr": un(&q.arrival_airports),
            "act": q.runway_filter.iter().map(|f| json!([f.icao, f.designator])).collect::<Vec<_>>(),
            "border": q.border.iter().map(|l| l.points.0.iter().map(|c| pt_of(c.x, c.y)).collect::<Vec<_>>()).collect::<Vec<_>>()})
    }).collect());
    o.insert("cops".into(), ese.constraints.iter().map(con).collect());
    o.insert("procs".into(), ese.sids_stars.iter().map(|p| {
        let (k, n, a, r, w) = match p {
            SidStar::Sid(q) => (true, &q.name, &q.airport, &q.runway, &q.waypoints),
            SidStar::Star(q) => (false, &q.name, &q.airport, &q.runway, &q.waypoints),
        };
        json!({"sid": k, "name": n, "apt": a, "rwy": r.clone().unwrap_or_default(), "wpts": w})
    }).collect());
    if want.get("vols_s").is_some() || want.get("groups_s").is_some() {
        let (vols, secs) = Sectors::from_ese(&ese);
        let mut vs = vec![];
        for (k, v) in &vols {
            let ring = &v.lateral_border.exterior().0;
            let mut bad = String::new();
            if ring.first() != ring.last() || ring.len() < 2 {
                bad += " not closed";
            } else if simple(ring) && area(ring) < 0.0 {
                bad += " clockwise";
            }
            if !v.lateral_border.interiors().is_empty() {
                bad += " has holes";
            }
            if *k != v.id {
                bad += " wrong id";
            }
            vs.push(json!({"n": format!("{}{bad}", untok(k)), "lo": v.lower_level, "hi": v.upper_level, "edges_s": edges(v.lateral_border.exterior())}));
        }
        o.insert("vols_s".into(), vs.into());
        let group = |k: &String, g: &vatsim_parser::adaptation::sectors::Sector| {
            let mut m = json!({"vols_s": un(&g.volumes.iter().cloned().collect::<Vec<_>>()), "owners": un(&g.position_priority),
                "dep_s": g.departure_aerodromes.iter().collect::<Vec<_>>(), "arr_s": g.arrival_aerodromes.iter().collect::<Vec<_>>()});
            m["act"] = match g.runway_filter.as_slice() {
                [one] => one.iter().map(|f| json!([f.icao, f.designator])).collect(),
                many => json!({"filters": many.len()}),
            };
            if *k != g.id || !g.volumes.contains(k) {
                m["badid"] = json!(format!("{k} {}", g.id));
            }
            m
        };
        // the sector of each volume
        for n in vols.keys().chain([&"no such volume".to_string(), &String::new()]) {
            let holder = secs.0.iter().find(|(_, g)| g.volumes.contains(n)).map(|(k, _)| k);
            let answer = secs.find_id_by_volume(n);
            if answer != holder {
                return Err(("sector of a volume".into(), json!({"volume": untok(n), "sector": holder}), json!(answer)));
            }
        }
        o.insert("groups_s".into(), secs.0.iter().map(|(k, g)| group(k, g)).collect());
        // reading the same file again: the same sectors under the same ids, the same borders
        for _ in 0..2 {
            let again = Sectors::from_ese(&Ese::parse(bytes).expect("parsed before"));
            for (id, g) in &secs.0 {
                match again.1 .0.get(id) {
                    Some(h) if h.volumes == g.volumes => {}
                    other => return Err(("repeated".into(), json!({"id": id, "volumes": un(&g.volumes.iter().cloned().collect::<Vec<_>>())}), json!(format!("{other:?}")))),
                }
            }
            for (id, v) in &vols {
                match again.0.get(id) {
                    Some(w) if w.lateral_border == v.lateral_border => {}
                    other => return Err(("repeated".into(), json!(format!("{v:?}")), json!(format!("{other:?}")))),
                }
            }
        }
    }
    if ["depc_s", "desc_s", "apos", "aproc_s"].iter().any(|k| want.get(k).is_some()) {
        let w = World { ese: bytes.to_vec(), sct: format!("{SCT}{NAV}").into(), ..World::default() };
        let a = w.load(ctx).map_err(|e| ("load".to_string(), json!("loads"), json!(format!("{e}\n{text}"))))?;
        o.insert("depc_s".into(), a.departure_constraints.values().map(con).collect());
        o.insert("desc_s".into(), a.destination_constraints.values().map(con).collect());
        o.insert("apos".into(), Value::Object(a.positions.iter().map(|(k, p)| {
            (untok(k), json!({"id": untok(&p.id), "name": p.name, "freq": p.frequency, "pre": p.prefix, "suf": p.suffix,
                "vis": p.visibility_points.iter().map(|c| pt_of(c.x(), c.y())).collect::<Vec<_>>()}))
        }).collect()));
        let mut ps: Vec<Value> = vec![];
        let fix = |f: &vatsim_parser::adaptation::locations::Fix| json!([f.designator, pt_of(f.coordinate.x(), f.coordinate.y())]);
        for (apt, m) in &a.locations.sids {
            for (n, qs) in m {
                ps.push(json!({"sid": true, "apt": apt, "name": n, "all": qs.iter().map(|q| json!({"rwy": q.runway.clone().unwrap_or_default(), "wpts": q.waypoints.iter().map(fix).collect::<Vec<_>>(),
                    "ok": q.airport == *apt && q.name == *n})).collect::<Vec<_>>()}));
            }
        }
        for (apt, m) in &a.locations.stars {
            for (n, qs) in m {
                ps.push(json!({"sid": false, "apt": apt, "name": n, "all": qs.iter().map(|q| json!({"rwy": q.runway.clone().unwrap_or_default(), "wpts": q.waypoints.iter().map(fix).collect::<Vec<_>>(),
                    "ok": q.airport == *apt && q.name == *n})).collect::<Vec<_>>()}));
            }
        }
        o.insert("aproc_s".into(), ps.into());
    }
    Ok(Value::Object(o))
}

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 1);
    let nl = if r.below(2) == 0 { "\n" } else { "\r\n" };
    let mut o = Text { t: String::new(), nl, r };
    let h = arr(&case["h"]);
    if h.is_empty() {
        return Report { checks: 0, bad: None, input: Value::Null };
    }
    for x in &h {
        op(x, &mut o);
    }
    let bytes = encode(&o.t, o.r.next());
    let want = &case["x"];
    let n = want.as_object().map_or(1, |m| m.values().map(|v| v.as_array().map_or(1, Vec::len).max(1)).sum());
    let bad = match observe(&o.t, &bytes, ctx, want) {
        Ok(got) => compare_keys(want, &got),
        Err(b) => Some(b),
    };
    Report { checks: n, bad, input: json!(o.t) }
}

/// Ring.tla: a bag of border edges, each its own line, in one order and direction of many.
pub fn ring(case: &Value, ctx: &Ctx) -> Report {
    let mut lines = arr(&case["lines"]);
    if lines.is_empty() {
        return Report { checks: 0, bad: None, input: Value::Null };
    }
    let mut checks = 0;
    let want: Value = if b(&case["ok"]) {
        json!([{"n": "V", "lo": 0, "hi": 66000, "edges_s": lines.iter().flat_map(|l| {
            let v: Vec<i64> = arr(l).iter().map(i).collect();
            v.windows(2).map(|e| json!([e[0].min(e[1]), e[0].max(e[1])])).collect::<Vec<_>>()
        }).collect::<Vec<_>>()}])
    } else {
        json!([])
    };
    for k in 0..6 {
        let mut r = Rnd::new(ctx, 100 + k);
        for a in (1..lines.len()).rev() {
            lines.swap(a, r.below(a as u64 + 1) as usize);
        }
        if s(&case["op"]) == "big" && k > 2 {
            break;
        }
        let mut t = String::from("[AIRSPACE]\n");
        let mut names = vec![];
        let mut prev: Option<i64> = None;
        for (n, e) in lines.iter().enumerate() {
            let mut ps: Vec<i64> = arr(e).iter().map(i).collect();
            if ps.len() > 2 {
                if r.below(2) == 0 {
                    ps.reverse();
                }
                t += &format!("SECTORLINE:{n}\n");
                for p in ps {
                    t += &format!("COORD:{}\n", dms_text(p, ":", r.next()));
                }
                names.push(n.to_string());
                prev = None;
                continue;
            }
            let (mut x, mut y) = (ps[0], ps[1]);
            if r.below(2) == 0 {
                std::mem::swap(&mut x, &mut y);
            }
            if prev == Some(x) && r.below(2) == 0 {
                // continue the line before
                t += &format!("COORD:{}\n", dms_text(y, ":", r.next()));
            } else {
                t += &format!("SECTORLINE:{n}\nCOORD:{}\nCOORD:{}\n", dms_text(x, ":", r.next()), dms_text(y, ":", r.next()));
                names.push(n.to_string());
            }
            prev = Some(y);
        }
        t += &format!("SECTOR:V:0:66000\nOWNER:A\nBORDER:{}\n", names.join(":"));
        // another volume that is none of this one's business
        t += "SECTORLINE:z\nCOORD:N001.00.00.000:E001.00.00.000\nCOORD:N002.00.00.000:E001.00.00.000\nCOORD:N002.00.00.000:E002.00.00.000\nCOORD:N001.00.00.000:E001.00.00.000\nSECTOR:Z:0:1\nBORDER:z\n";
        checks += 1;
        let ese = match Ese::parse(t.as_bytes()) {
            Ok(e) => e,
            Err(e) => return Report { checks, bad: Some(("parse".into(), json!("parses"), json!(e.to_string()))), input: json!(t) },
        };
        let (vols, _) = Sectors::from_ese(&ese);
        let mut got = vec![];
        for (k, v) in &vols {
            let l = v.lateral_border.exterior();
            let mut bad = "";
            if l.0.first() != l.0.last() || l.0.len() < 2 {
                bad = " not closed";
            } else if simple(&l.0) && area(&l.0) < 0.0 {
                bad = " clockwise";
            }
            if k == "Z" {
                if l.0.len() != 4 {
                    bad = " other volume disturbed";
                } else if bad.is_empty() {
                    continue;
                }
            }
            got.push(json!({"n": format!("{k}{bad}"), "lo": v.lower_level, "hi": v.upper_level, "edges_s": edges(l)}));
        }
        if vols.len() != 1 + usize::from(b(&case["ok"])) {
            got.push(json!("wrong number of volumes"));
        }
        if let Some(d) = compare(&json!({"v_s": want}), &json!({"v_s": got})) {
            return Report { checks, bad: Some(d), input: json!(t) };
        }
    }
    Report { checks, bad: None, input: Value::Null }
}
