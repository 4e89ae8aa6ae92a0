//! Recorded executions: a driver that knows nothing of the specifications uses the real
//! code, on inputs of its own making, and writes down what was done and what came out, one JSON
//! record per line. TLC then decides (spec/*Trace.tla) whether the specification allows it.
use crate::secidx::{ring, SECS, VOLS};
use crate::util::*;
use geo::{Coord, Destination, Geodesic, Line, Point};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, RwLock};
use vatsim_parser::adaptation::locations::{Fix, GraphPosition, Locations, NDB, VOR};
use vatsim_parser::adaptation::sectors::{Sector, Sectors, Volume};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::airway::parse_airway_txt;
use vatsim_parser::ese::Ese;

pub fn record(kind: &str, out: &str, n: usize, seed: u64) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("trace file"));
    let scratch = scratch_root();
    std::fs::create_dir_all(&scratch).expect("scratch");
    for k in 0..n {
        let ctx = Ctx { dir: scratch.clone(), seed, index: k };
        let log = Mutex::new(vec![json!({"op": "new", "n": k})]);
        let r = catch_unwind(AssertUnwindSafe(|| match kind {
            "secidx" => airspace(&ctx, &log),
            "ring" => borders(&ctx, &log),
            "airway" => airways(&ctx, &log),
            "places" => places(&ctx, &log),
            o => panic!("harness: recording {o}"),
        }));
        let mut log = log.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
        if let Err(p) = r {
            log.push(json!({"op": "panic", "text": panic_text(&p)}));
        }
        for r in log.iter() {
            writeln!(f, "{r}").expect("write");
        }
        f.flush().expect("write");
    }
    std::fs::remove_dir_all(&scratch).ok();
}

// --- the airspace, shared by several threads -------------------------------------------------

fn c(p: (i64, i64)) -> Coord {
    // as in secidx: exact in binary
    Coord { x: 10.25 + p.0 as f64 * 0.25, y: -1.5 + p.1 as f64 * 0.25 }
}

/// corners seen from a point inside, in order of direction: a border that does not cross itself
fn star(r: &mut Rnd) -> Vec<(i64, i64)> {
    let size = [4u64, 9, 30][r.below(3) as usize];
    let (x, y) = (r.below(40) as i64 - 20, r.below(40) as i64 - 20);
    let mut v: Vec<(i64, i64)> = vec![];
    for _ in 0..3 + r.below(7) {
        let p = (r.below(2 * size + 1) as i64 - size as i64, r.below(2 * size + 1) as i64 - size as i64);
        if p != (0, 0) && v.iter().all(|q| q.0 * p.1 != q.1 * p.0 || q.0 * p.0 + q.1 * p.1 < 0) {
            v.push(p);
        }
    }
    v.sort_by(|a, b| (a.1 as f64).atan2(a.0 as f64).total_cmp(&(b.1 as f64).atan2(b.0 as f64)));
    // no wedge of half a turn or more, or the point would be outside and edges might cross
    let n = v.len();
    if n < 3 || (0..n).any(|k| v[k].0 * v[(k + 1) % n].1 - v[k].1 * v[(k + 1) % n].0 <= 0) {
        return vec![(x, y), (x + size as i64, y), (x + size as i64, y + 3), (x, y + 3)];
    }
    let k = r.below(n as u64) as usize;
    v.rotate_left(k);
    if r.below(2) == 0 {
        v.reverse();
    }
    v.into_iter().map(|p| (x + p.0, y + p.1)).collect()
}

fn entries<'a>(it: impl Iterator<Item = &'a (String, Volume)>) -> Vec<(usize, usize)> {
    let at = |xs: &[&str], x: &str| xs.iter().position(|y| *y == x).unwrap_or(99);
    let mut v: Vec<_> = it.map(|(s, vol)| (at(&SECS, s), at(&VOLS, &vol.id))).collect();
    v.sort_unstable();
    v
}

fn airspace(ctx: &Ctx, log: &Mutex<Vec<Value>>) {
    let shared = RwLock::new((Adaptation::default(), Adaptation::default(), false));
    let (ns, nv) = [(4, 6), (12, 12), (30, 40)][ctx.index % 3];
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4u64)
            .map(|t| {
                let shared = &shared;
                sc.spawn(move || {
                    let mut r = Rnd::new(ctx, 900 + t);
                    for step in 0..30 {
                        let k = if step < 8 { r.below(8) } else { r.below(26) };
                        if k < 13 {
                            let mut g = shared.write().unwrap();
                            let (a, other, has) = &mut *g;
                            let rec = change(k, a, other, has, &mut r, ns, nv);
                            log.lock().unwrap().push(rec);
                        } else {
                            // readers run side by side; what they saw is logged before the next writer gets in
                            let g = shared.read().unwrap();
                            let rec = ask(k, &g.0, &mut r);
                            log.lock().unwrap().push(rec);
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            if let Err(p) = h.join() {
                std::panic::resume_unwind(p);
            }
        }
    });
}

fn change(k: u64, a: &mut Adaptation, other: &mut Adaptation, has: &mut bool, r: &mut Rnd, ns: u64, nv: u64) -> Value {
    match k {
        0..=3 => {
            let id = 1 + r.below(nv) as usize;
            let mut v = star(r);
            if r.below(12) == 0 {
                v.truncate(r.below(3) as usize);
            }
            let (lo, hi) = (r.below(200) as u32, r.below(400) as u32);
            let vs = json!(v);
            a.volumes.insert(VOLS[id].into(), Volume::new(VOLS[id].into(), lo, hi, ring(&vs)));
            json!({"op": "setvol", "id": id, "ring": v, "lo": lo, "hi": hi})
        }
        4..=7 => {
            let id = 1 + r.below(ns) as usize;
            let vs: HashSet<usize> = (0..r.below(6)).map(|_| 1 + r.below(nv) as usize).collect();
            let prio = r.below(5) > 0;
            let sec = Sector {
                id: SECS[id].into(),
                position_priority: if prio { vec!["P".into()] } else { vec![] },
                runway_filter: vec![],
                volumes: vs.iter().map(|v| VOLS[*v].to_string()).collect(),
                departure_aerodromes: HashSet::default(),
                arrival_aerodromes: HashSet::default(),
            };
            a.sectors.0.insert(SECS[id].into(), sec);
            json!({"op": "setsec", "id": id, "prio": prio, "vs": vs})
        }
        8 => {
            let id = 1 + r.below(ns) as usize;
            if a.sectors.0.remove(SECS[id]).is_some() {
                json!({"op": "delsec", "id": id})
            } else {
                json!({"op": "idle"})
            }
        }
        9 => {
            let id = 1 + r.below(nv) as usize;
            if a.volumes.remove(VOLS[id]).is_some() {
                json!({"op": "delvol", "id": id})
            } else {
                json!({"op": "idle"})
            }
        }
        10 | 11 => {
            a.rebuild_sector_index();
            json!({"op": "rebuild"})
        }
        _ if *has => {
            std::mem::swap(a, other);
            json!({"op": "swap"})
        }
        _ => {
            let copy = a.clone();
            *other = std::mem::replace(a, copy);
            *has = true;
            json!({"op": "clone"})
        }
    }
}

fn ask(k: u64, a: &Adaptation, r: &mut Rnd) -> Value {
    let mut p = || (r.below(60) as i64 - 30, r.below(60) as i64 - 30);
    let (p, q) = (p(), p());
    match k {
        13..=18 => {
            let l2 = r.below(801) as i64;
            let f = a.find_sector(Point(c(p)), l2 as f32 / 2.0);
            json!({"op": "find", "p": p, "l2": l2, "r": f.map_or(0, |f| SECS.iter().position(|s| *s == f).unwrap_or(99))})
        }
        19..=22 => json!({"op": "at", "p": p, "r": entries(a.volumes_at(Point(c(p))))}),
        _ => json!({"op": "near", "l": [p, q], "r": entries(a.volumes_near_line(Line::new(c(p), c(q))))}),
    }
}

// --- borders ---------------------------------------------------------------------------------

/// a place of a 16 x 16 grid, one minute apart, as 100 x + y
fn dms(p: i64) -> String {
    format!("N045.{:02}.00.000:E010.{:02}.00.000", p % 100, p / 100)
}
fn grid(q: Coord) -> i64 {
    let (x, y) = ((q.x - 10.0) * 60.0, (q.y - 45.0) * 60.0);
    if (x - x.round()).abs() > 1e-3 || (y - y.round()).abs() > 1e-3 { -1 } else { x.round() as i64 * 100 + y.round() as i64 }
}

fn borders(ctx: &Ctx, log: &Mutex<Vec<Value>>) {
    let mut r = Rnd::new(ctx, 77);
    // one to three closed walks, cut into lines
    let mut lines: Vec<Vec<i64>> = vec![];
    let size = [3u64, 6, 15][r.below(3) as usize];
    for _ in 0..1 + r.below(3) {
        let mut w: Vec<i64> = vec![];
        let most = if r.below(4) == 0 { 30 } else { 8 };
        for _ in 0..3 + r.below(most) {
            let p = r.below(size + 1) as i64 * 100 + r.below(size + 1) as i64;
            if w.last() != Some(&p) {
                w.push(p);
            }
        }
        if w.first() != w.last() && r.below(12) > 0 {
            w.push(w[0]);
        }
        let mut from = 0;
        for k in 1..w.len() {
            if k + 1 == w.len() || r.below(3) == 0 {
                let mut l = w[from..=k].to_vec();
                if r.below(2) == 0 {
                    l.reverse();
                }
                from = k;
                if l.len() > 1 {
                    lines.push(l);
                }
            }
        }
    }
    if lines.is_empty() {
        return;
    }
    if r.below(6) == 0 {
        let k = r.below(lines.len() as u64) as usize;
        lines.remove(k);
    }
    // sectors over these lines: all of them, and some of them, in any order, now and then one twice
    let mut t = String::from("[AIRSPACE]\n");
    for (n, l) in lines.iter().enumerate() {
        t += &format!("SECTORLINE:L{n}\n");
        for p in l {
            t += &format!("COORD:{}\n", dms(*p));
        }
    }
    let mut uses = vec![];
    for n in 0..3 {
        let mut u: Vec<usize> = (0..lines.len()).filter(|_| n == 0 || r.below(4) > 0).collect();
        for a in (1..u.len()).rev() {
            u.swap(a, r.below(a as u64 + 1) as usize);
        }
        if n > 0 && !u.is_empty() && r.below(3) == 0 {
            u.push(u[0]);
        }
        t += &format!("SECTOR:S{n}:{}:66000\nOWNER:A\n", n * 100);
        if !u.is_empty() {
            t += &format!("BORDER:{}\n", u.iter().map(|k| format!("L{k}")).collect::<Vec<_>>().join(":"));
        }
        uses.push(u);
    }
    let ese = Ese::parse(t.as_bytes()).expect("an ese file");
    let (vols, _) = Sectors::from_ese(&ese);
    for (n, u) in uses.iter().enumerate() {
        let ls: Vec<&Vec<i64>> = u.iter().map(|k| &lines[*k]).collect();
        let ring: Vec<i64> = vols
            .get(&format!("S{n}"))
            .map(|v| v.lateral_border.exterior().0.iter().map(|q| grid(*q)).collect())
            .unwrap_or_default();
        log.lock().unwrap().push(json!({"op": "border", "lines": ls, "ring": ring}));
    }
}

// --- airways ---------------------------------------------------------------------------------

fn where_is(p: usize) -> (f64, f64) {
    ((p % 11) as f64 * 7.25 - 36.5, p as f64 * 2.125 - 60.0)
}

fn airways(ctx: &Ctx, log: &Mutex<Vec<Value>>) {
    let mut r = Rnd::new(ctx, 55);
    let n = [6usize, 20, 60][r.below(3) as usize];
    let few = r.below(3) == 0;
    let names: Vec<String> = (0..n).map(|k| if r.below(if few { 2 } else { 9 }) == 0 { ["AB", "CDE", "X1"][r.below(3) as usize].into() } else { format!("P{k}") }).collect();
    let awys = ["L1", "L10", "UL1", "T2"];
    let mut recs = vec![];
    for w in awys.iter().take(1 + r.below(4) as usize) {
        let mut course: Vec<usize> = (0..n).collect();
        for a in (1..n).rev() {
            course.swap(a, r.below(a as u64 + 1) as usize);
        }
        course.truncate(2 + r.below(n as u64 - 1) as usize);
        if course.len() > 3 && r.below(5) == 0 {
            course.push(course[0]);
        }
        if course.len() > 4 && r.below(6) == 0 {
            let k = course[1];
            course.push(k);
        }
        for k in 0..course.len() {
            let lvl = |r: &mut Rnd| [-1i64, 0, 50, 245, 6000][r.below(5) as usize];
            let side = |k: Option<usize>, r: &mut Rnd| match k.and_then(|k| course.get(k)) {
                Some(q) if r.below(9) > 0 => json!({"to": [names[*q], q], "dir": r.below(3) > 0, "lvl": lvl(r)}),
                _ => json!({"to": ["", 0], "dir": false, "lvl": -1}),
            };
            let (mut n1, mut n2) = (side(k.checked_sub(1), &mut r), side(Some(k + 1), &mut r));
            if r.below(4) == 0 {
                std::mem::swap(&mut n1, &mut n2);
            }
            recs.push(json!({"p": [names[course[k]], course[k]], "awy": w, "n1": n1, "n2": n2}));
            if r.below(10) == 0 {
                recs.push(recs[r.below(recs.len() as u64) as usize].clone());
            }
        }
    }
    if r.below(3) > 0 {
        for a in (1..recs.len()).rev() {
            recs.swap(a, r.below(a as u64 + 1) as usize);
        }
    }
    let mut loc = Locations::default();
    let mut text = String::new();
    for part in 0..2 {
        let half = recs.len() / 2;
        for rec in if part == 0 { &recs[..half] } else { &recs[half..] } {
            let pos = |p: &Value| {
                let (y, x) = where_is(i(&p[1]) as usize);
                format!("{y:.6}\t{x:.6}")
            };
            let nb = |v: &Value| {
                if s(&v["to"][0]).is_empty() {
                    return "\t\t\t\t\tN".to_string();
                }
                let l = i(&v["lvl"]);
                format!("\t{}\t{}\t{}\t{}", s(&v["to"][0]), pos(&v["to"]), if l < 0 { String::new() } else { format!("{l:05}") }, if b(&v["dir"]) { "Y" } else { "N" })
            };
            text += &format!("{}\t{}\t14\t{}\tB{}{}\n", s(&rec["p"][0]), pos(&rec["p"]), s(&rec["awy"]), nb(&rec["n1"]), nb(&rec["n2"]));
            log.lock().unwrap().push(json!({"op": "rec", "r": rec}));
        }
        if text.is_empty() {
            continue;
        }
        for _ in 0..r.below(6) {
            let p = r.below(n as u64) as usize;
            let (y, x) = where_is(p);
            let (coordinate, k, d) = (Point::new(x, y), r.below(3), names[p].clone());
            match k {
                0 => loc.fixes.insert(d.clone(), Fix { designator: d, coordinate }),
                1 => loc.vors.insert(d.clone(), VOR { designator: d, frequency: "112.300".into(), coordinate }),
                _ => loc.ndbs.insert(d.clone(), NDB { designator: d, frequency: "400.000".into(), coordinate }),
            }
            log.lock().unwrap().push(json!({"op": "know", "k": (["fix", "vor", "ndb"][k as usize]), "p": [names[p], p]}));
        }
        let g = parse_airway_txt(text.as_bytes()).expect("an airway file");
        for _ in 0..25 {
            let p = r.below(n as u64) as usize;
            // some starts are not where the airway has the place, or nowhere at all
            let at = if r.below(6) == 0 { (p + 1) % 97 } else { p };
            let end = if r.below(15) == 0 { "NONE".to_string() } else { names[r.below(n as u64) as usize].clone() };
            let w = awys[r.below(4) as usize];
            let (y, x) = where_is(at);
            let got = g.expand_airway_segment(&Fix { designator: names[p].clone(), coordinate: Point::new(x, y) }, &end, w, &loc);
            let path: Vec<Value> = got
                .iter()
                .flatten()
                .map(|(f, internal)| {
                    let o = f.fix.coordinate;
                    let p = (0..97).find(|k| (where_is(*k).0 - o.y()).abs() < 1e-6 && (where_is(*k).1 - o.x()).abs() < 1e-6).map_or(-1, |k| k as i64);
                    json!({"n": f.fix.designator, "p": p, "dir": f.valid_direction, "lvl": f.minimum_level.map_or(-1, i64::from), "int": internal})
                })
                .collect();
            log.lock().unwrap().push(json!({"op": "ask", "s": [names[p], at], "e": end, "w": w, "some": got.is_some(), "path": path}));
        }
    }
}

// --- places and names ------------------------------------------------------------------------

fn name(r: &mut Rnd, from: u64, to: u64) -> String {
    let alphabet: &[u8] = [&b"AB"[..], b"ABCDEFGHIJKLMNOPQRSTUVWXYZ", b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", b"0123456789", b"NSEW01", b"AZ09LRC"][r.below(6) as usize];
    (0..from + r.below(to - from + 1)).map(|_| alphabet[r.below(alphabet.len() as u64) as usize] as char).collect()
}

fn digits(r: &mut Rnd, n: u64) -> String {
    (0..n)
        .map(|_| {
            let most = if r.below(3) == 0 { 10 } else { 6 };
            char::from(b'0' + r.below(most) as u8)
        })
        .collect()
}

fn places(ctx: &Ctx, log: &Mutex<Vec<Value>>) {
    let mut r = Rnd::new(ctx, 33);
    let mut known: Vec<String> = vec![];
    let mut h = vec![];
    for _ in 0..5 + r.below(40) {
        let again = |r: &mut Rnd, known: &[String], from: u64, to: u64| {
            let old: Vec<_> = known.iter().filter(|k| (from..=to).contains(&(k.len() as u64)) && k.bytes().all(|c| c.is_ascii_alphanumeric())).collect();
            if !old.is_empty() && r.below(3) == 0 { old[r.below(old.len() as u64) as usize].clone() } else { name(r, from, to) }
        };
        let p = 1 + r.below(164);
        let op = match r.below(10) {
            k @ 0..=4 => {
                let n = match (k, r.below(8)) {
                    // as a coordinate, or a bearing and distance, or a runway might be written
                    (2.., 0) => format!("{}{}{}{}", digits(&mut r, 2), ["N", "S"][r.below(2) as usize], digits(&mut r, 3), ["E", "W"][r.below(2) as usize]),
                    (2.., 1) => again(&mut r, &known, 2, 5) + &digits(&mut r, 6),
                    (2.., 2) => again(&mut r, &known, 4, 4) + &digits(&mut r, 2) + ["", "L", "R", "C"][r.below(4) as usize],
                    _ => again(&mut r, &known, 1, 6),
                };
                known.push(n.clone());
                json!({"op": (["vor", "ndb", "fix", "fix", "fix"][k as usize]), "n": n, "p": p})
            }
            5 | 6 => {
                let n = again(&mut r, &known, 4, 4);
                known.push(n.clone());
                json!({"op": "apt", "n": n, "p": p})
            }
            7 => {
                let n = again(&mut r, &known, 4, 4);
                known.push(n.clone());
                json!({"op": "nav", "n": n, "p": p, "name": name(&mut r, 1, 9)})
            }
            8 => json!({"op": "icao", "n": again(&mut r, &known, 4, 4), "name": name(&mut r, 1, 5), "country": name(&mut r, 1, 3)}),
            _ => {
                let apt = again(&mut r, &known, 4, 4);
                let d = |r: &mut Rnd| format!("{:02}{}", 1 + r.below(36), ["", "L", "R", "C", "G"][r.below(5) as usize]);
                let (d1, d2) = (d(&mut r), d(&mut r));
                known.push(format!("{apt}{d1}"));
                known.push(format!("{apt}{d2}"));
                json!({"op": "rwy", "r": {"d1": d1, "d2": d2, "p1": p, "p2": 1 + r.below(164), "apt": apt, "h1": 80, "h2": 260}})
            }
        };
        log.lock().unwrap().push(op.clone());
        h.push(op);
    }
    let w = crate::locs::world(&h, &mut r);
    let a = w.load(ctx).unwrap_or_else(|e| panic!("does not load: {e}"));
    let l = &a.locations;
    let all: Vec<Value> = l.airports.iter().map(|(k, a)| {
        let at = |p: Point| pt_of(p.x(), p.y());
        let rwys: Vec<Value> = a.runways.iter().map(|q| json!({"d1": q.designators.0, "d2": q.designators.1, "h1": q.headings.0, "h2": q.headings.1,
            "p1": at(q.location.0), "p2": at(q.location.1), "apt": q.aerodrome})).collect();
        json!({"d": a.designator, "k": k, "r": {"p": at(a.coordinate), "name": a.name.iter().collect::<Vec<_>>(), "country": a.country.iter().collect::<Vec<_>>(), "rwys": rwys}})
    }).collect();
    log.lock().unwrap().push(json!({"op": "airports", "all": all}));
    for _ in 0..40 {
        let some = known[r.below(known.len() as u64) as usize].clone();
        let t = match r.below(12) {
            0 | 1 => some,
            2 => name(&mut r, 0, 6),
            3 => some.to_lowercase(),
            4 | 5 => {
                let (k, m) = (1 + r.below(6), 2 + r.below(6));
                format!("{}{}{}{}", digits(&mut r, k), ["N", "S", "E"][r.below(3) as usize], digits(&mut r, m), ["E", "W", "N"][r.below(3) as usize])
            }
            6 => {
                let k = 1 + r.below(3) * 2;
                format!("{}{}{}{}", digits(&mut r, k + 1), ["N", "S"][r.below(2) as usize], digits(&mut r, k + 2), ["E", "W"][r.below(2) as usize])
            }
            7..=9 => some + &digits(&mut r, 6),
            10 => some.chars().take(4).collect::<String>() + &digits(&mut r, 2) + ["", "L", "R"][r.below(3) as usize],
            _ => some.clone() + ["A", " ", "0", "ü"][r.below(4) as usize],
        };
        let got = l.convert_designator(&t);
        let res: Vec<Value> = got
            .iter()
            .map(|f| {
                let (x, y) = (f.coordinate.x(), f.coordinate.y());
                let arc = |v: f64| if (v * 3600.0 - (v * 3600.0).round()).abs() < 1e-5 { (v * 3600.0).round() as i64 } else { -1_000_000_000 };
                // the places it is away from as the last digits of the name say
                let last: String = t.chars().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect();
                let from: Vec<i64> = match (last.len(), last.get(..3).and_then(|b| b.parse::<f64>().ok()), last.get(3..).and_then(|b| b.parse::<f64>().ok())) {
                    (6, Some(b), Some(d)) => (1..=164)
                        .filter(|p| {
                            let (lat, lng) = pt(*p);
                            let d = Geodesic.destination(Point::new(lng, lat), b, d * 1852.0);
                            (d.x() - x).abs() < 1e-7 && (d.y() - y).abs() < 1e-7
                        })
                        .collect(),
                    _ => vec![],
                };
                json!({"d": f.designator, "p": pt_of(x, y), "lat": arc(y), "lng": arc(x), "from": from})
            })
            .collect();
        let p = 1 + r.below(164) as i64;
        let (y, x) = pt(p);
        log.lock().unwrap().push(json!({"op": "query", "t": t, "r": res, "known": l.contains_designator(&t), "p": p,
            "at": l.contains_nav_element(&t, GraphPosition(Point::new(x, y)))}));
        let places: Vec<(&str, i64)> = h.iter().filter(|o| ["vor", "ndb", "fix", "apt"].contains(&s(&o["op"]))).map(|o| (s(&o["n"]), i(&o["p"]))).collect();
        if let Some((n, p)) = places.get(r.below(places.len().max(1) as u64) as usize) {
            let (y, x) = pt(*p);
            log.lock().unwrap().push(json!({"op": "member", "n": n, "p": p, "at": l.contains_nav_element(n, GraphPosition(Point::new(x, y)))}));
        }
    }
}
