//! Spec SectorIndex.tla: histories over an adaptation's airspace and its lookup cache.
use crate::util::*;
use crate::Report;
use geo::{Coord, Line, LineString, Point};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet};
use vatsim_parser::adaptation::sectors::{Sector, Volume};
use vatsim_parser::adaptation::Adaptation;

// number order = byte order of the names
#[rustfmt::skip]
pub const SECS: [&str; 41] = ["", "A", "A1", "A10", "A2", "A20", "AB", "Aa", "B", "B 1", "B-", "B1", "B10", "B2", "BA", "B·1", "B·10", "B·2", "EDMM", "EDMM2", "EDMM·A", "EDMM·A1", "EDMM·B", "EDMM·a", "EDN", "M", "MM", "Z", "Z9", "[", "a", "a1", "a10", "a2", "aB", "ab", "b", "z", "·", "ü", "ü1"];
#[rustfmt::skip]
pub const VOLS: [&str; 41] = ["", "V·9", "V·8", "V", "W", "a", "EDMM·V·6·42", "v7", "v8", "EDMM·V·9·63", "v10", "v11", "EDMM·V·12·84", "v13", "v14", "EDMM·V·15·105", "v16", "v17", "EDMM·V·18·126", "v19", "v20", "EDMM·V·21·147", "v22", "v23", "EDMM·V·24·168", "v25", "v26", "EDMM·V·27·189", "v28", "v29", "EDMM·V·30·210", "v31", "v32", "EDMM·V·33·231", "v34", "v35", "EDMM·V·36·252", "v37", "v38", "EDMM·V·39·273", "v40"];

fn pt(v: &Value) -> Coord {
    // an offset keeps the query coordinates off "nice" numbers; quarter steps are exact in binary
    Coord { x: 10.25 + i(&v[0]) as f64 * 0.25, y: -1.5 + i(&v[1]) as f64 * 0.25 }
}

pub fn ring(v: &Value) -> LineString {
    let mut c: Vec<Coord> = arr(v).iter().map(pt).collect();
    if let Some(f) = c.first().copied() {
        c.push(f);
    }
    LineString::new(c)
}

fn names<'a>(it: impl Iterator<Item = &'a (String, Volume)>) -> Value {
    // as a multiset: no volume may be reported twice for one sector
    let mut v: Vec<(usize, usize)> = it
        .map(|(s, vol)| {
            (
                SECS.iter().position(|x| x == s).unwrap_or(99),
                VOLS.iter().position(|x| *x == vol.id).unwrap_or(99),
            )
        })
        .collect();
    v.sort_unstable();
    json!(v)
}

pub fn answers(a: &Adaptation, q: &Value, checks: &mut usize) -> Option<(String, Value, Value)> {
    for f in arr(&q["find"]) {
        *checks += 1;
        let lvl = i(&f[1]) as f32 / 2.0;
        let r = a.find_sector(Point(pt(&f[0])), lvl);
        let e = SECS[i(&f[2]) as usize];
        if r.unwrap_or("") != e {
            return Some((format!("find {} level {lvl}", f[0]), json!(e), json!(r)));
        }
    }
    for f in arr(&q["at"]) {
        *checks += 1;
        let o = names(a.volumes_at(Point(pt(&f[0]))));
        let mut e = arr(&f[1]);
        e.sort_by_key(|x| (i(&x[0]), i(&x[1])));
        if o != json!(e) {
            return Some((format!("volumes_at {}", f[0]), json!(e), o));
        }
    }
    for f in arr(&q["near"]) {
        *checks += 1;
        let o = names(a.volumes_near_line(Line::new(pt(&f[0][0]), pt(&f[0][1]))));
        let mut e = arr(&f[1]);
        e.sort_by_key(|x| (i(&x[0]), i(&x[1])));
        if o != json!(e) {
            return Some((format!("volumes_near_line {}", f[0]), json!(e), o));
        }
    }
    None
}

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let mut a = Adaptation::default();
    let mut other = Adaptation::default();
    let mut checks = 0;
    let mut bad = None;
    for (n, op) in arr(&case["h"]).iter().enumerate() {
        let id = op["id"].as_i64().unwrap_or(0) as usize;
        match s(&op["op"]) {
            "setsec" => {
                a.sectors.0.insert(
                    SECS[id].into(),
                    Sector {
                        id: SECS[id].into(),
                        position_priority: if b(&op["prio"]) { vec!["P1".into(), "P2".into()] } else { vec![] },
                        runway_filter: vec![],
                        volumes: arr(&op["vs"]).iter().map(|v| VOLS[i(v) as usize].to_string()).collect(),
                        departure_aerodromes: HashSet::default(),
                        arrival_aerodromes: HashSet::default(),
                    },
                );
            }
            "delsec" => {
                a.sectors.0.remove(SECS[id]);
            }
            "setvol" => {
                let v = Volume::new(VOLS[id].into(), i(&op["lo"]) as u32, i(&op["hi"]) as u32, ring(&op["ring"]));
                a.volumes.insert(VOLS[id].into(), v);
            }
            "delvol" => {
                a.volumes.remove(VOLS[id]);
            }
            "rebuild" => a.rebuild_sector_index(),
            "clone" => {
                // the history goes on with the copy; the original stays around
                let c = a.clone();
                other = std::mem::replace(&mut a, c);
            }
            "swap" => std::mem::swap(&mut a, &mut other),
            "saveload" => {
                let t = serde_json::to_string(&a).expect("serialise");
                a = serde_json::from_str(&t).expect("deserialise");
            }
            "overlay" => {
                let p = ctx.dir.join("empty.jsonnet");
                std::fs::write(&p, "{}").expect("write");
                a = a.apply_jsonnet_overlays([p].into_iter()).expect("overlay");
            }
            "nooverlay" => {
                a = a.apply_jsonnet_overlays(Vec::<std::path::PathBuf>::new().into_iter()).expect("overlay");
            }
            "lookup" => bad = answers(&a, &op["q"], &mut checks),
            "par" => {
                let q = &op["q"];
                let start = std::sync::Barrier::new(4);
                let rs: Vec<_> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..4)
                        .map(|_| {
                            let (a, start) = (&a, &start);
                            sc.spawn(move || {
                                let mut c = 0;
                                start.wait();
                                let r = answers(a, q, &mut c);
                                (c, r)
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("panic in a lookup thread")).collect()
                });
                for (c, r) in rs {
                    checks += c;
                    bad = bad.or(r);
                }
            }
            o => panic!("harness: unknown op {o}"),
        }
        if let Some((at, e, o)) = bad {
            return Report { checks, bad: Some((format!("step {n}: {at}"), e, o)), input: Value::Null };
        }
    }
    let _ = BTreeSet::<u8>::new();
    Report { checks, bad, input: Value::Null }
}
