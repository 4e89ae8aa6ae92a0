//! Spec Maps.tla: the plugin's maps.
use crate::util::*;
use crate::world::{World, SCT};
use crate::Report;
use serde_json::{json, Value};
use vatsim_parser::adaptation::maps::active::{Active, ActiveIds, ActiveMapOperator, RunwayIdentifier};
use vatsim_parser::adaptation::maps::MapGroup;

fn place(t: &str, seed: u64) -> String {
    match t.strip_prefix('p').and_then(|n| n.parse::<i64>().ok()) {
        // one position is always written alike within a file
        Some(n) => {
            let r = mix(seed, n as u64, 77);
            if r % 4 == 0 {
                let (a, b) = pt(n);
                let d = dms_text(n, ":", r >> 3);
                let (x, y) = d.split_once(':').unwrap();
                let plus = |v: f64| format!("{}{v:.9}", if v > 0.0 && r >> 20 & 1 == 0 { "+" } else { "" });
                match (r >> 8) % 4 {
                    0 => format!("{}:{y}", plus(a)),
                    1 => format!("{x}:{}", plus(b)),
                    _ => format!("{}:{}", plus(a), plus(b)),
                }
            } else {
                dms_text(n, ":", r >> 3)
            }
        }
        None => tok(t),
    }
}
fn list(v: &Value) -> String {
    arr(v).iter().map(|x| tok(s(x))).collect::<Vec<_>>().join(",")
}
fn opt(v: &Value) -> String {
    arr(v).first().map_or("*".into(), list)
}
fn rwys(v: &Value) -> String {
    arr(v).first().map_or("*".into(), |l| arr(l).iter().map(|x| format!("{}{}", s(&x["a"]), s(&x["d"]))).collect::<Vec<_>>().join(","))
}
fn condition(a: &Value) -> String {
    match s(&a["k"]) {
        "always" => "1".into(),
        "sched" => s(&a["v"]).into(),
        "id" => format!("ID:{}:{}:{}:{}", opt(&a["a"]), opt(&a["b"]), opt(&a["c"]), opt(&a["d"])),
        "callsign" => format!("CALLSIGN:{}:{}:{}:{}", opt(&a["a"]), opt(&a["b"]), opt(&a["c"]), opt(&a["d"])),
        "aup" => format!("AUP:{}", list(&a["a"])),
        "notam" => format!("NOTAM:{}:{}", s(&a["i"]), list(&a["a"])),
        "area" => format!("AREA:{}", list(&a["a"])),
        "areax" => format!("AREA:{}:{}", list(&a["a"]), list(&a["b"])),
        "rwy" => format!("RWY:ARR:{}:DEP:{}", rwys(&a["ra"]), rwys(&a["rb"])),
        "rwyx" => format!("RWY:ARR:{}:{}:DEP:{}:{}", rwys(&a["ra"]), rwys(&a["rb"]), rwys(&a["rc"]), rwys(&a["rd"])),
        "map" => format!("MAP:{}:{}\\{}", s(&a["o"]), tok(s(&a["f"])), tok(s(&a["n"]))),
        o => panic!("harness: {o}"),
    }
}
fn names(v: &[String]) -> Value {
    v.iter().map(|x| json!(untok(x))).collect()
}
fn onames(v: &Option<Vec<String>>) -> Value {
    v.iter().map(|v| names(v)).collect()
}
fn orwys(v: &Option<Vec<RunwayIdentifier>>) -> Value {
    v.iter().map(|v| v.iter().map(|q| json!({"a": q.icao, "d": q.designator})).collect::<Value>()).collect()
}
fn ids(k: &str, q: &ActiveIds) -> Value {
    json!({"k": k, "a": onames(&q.own), "b": onames(&q.own_excludes), "c": onames(&q.online), "d": onames(&q.online_excludes)})
}
fn seen(a: &Active) -> Value {
    match a {
        Active::True => json!({"k": "always"}),
        Active::Schedule => json!({"k": "sched"}),
        Active::Aup(n) => json!({"k": "aup", "a": names(n)}),
        Active::Notam(i, n) => json!({"k": "notam", "i": i, "a": names(n)}),
        Active::Area(q) => match &q.area_excludes {
            None => json!({"k": "area", "a": names(&q.areas)}),
            Some(x) => json!({"k": "areax", "a": names(&q.areas), "b": names(x)}),
        },
        Active::Id(q) => ids("id", q),
        Active::Callsign(q) => ids("callsign", q),
        Active::Runway(q) => json!({"k": "rwy", "a": orwys(&q.arrival), "ax": orwys(&q.arrival_excludes), "d": orwys(&q.departure), "dx": orwys(&q.departure_excludes)}),
        Active::Map(o, f, n) => json!({"k": "map", "o": if *o == ActiveMapOperator::Same { "=" } else { "!" }, "f": untok(f), "n": untok(n)}),
    }
}
/// The same form for what the specification says.
fn wanted(a: &Value) -> Value {
    match s(&a["k"]) {
        "sched" => json!({"k": "sched"}), // times are not represented
        "rwy" => json!({"k": "rwy", "a": a["ra"], "ax": [], "d": a["rb"], "dx": []}),
        "rwyx" => json!({"k": "rwy", "a": a["ra"], "ax": a["rb"], "d": a["rc"], "dx": a["rd"]}),
        _ => a.clone(),
    }
}
fn quarters(v: f32, by: f32) -> Value {
    let q = v * by;
    if (q.round() - q).abs() < 1e-3 { json!(q.round() as i64) } else { json!(v) }
}
fn style(g: &MapGroup) -> Value {
    json!({"c": [g.colour.to_euroscope()], "fs": quarters(g.font_size, 4.0), "ly": quarters(g.layer, 1.0), "ls": g.line_style.style, "lw": g.line_style.width,
        "asr": onames(&g.asr_data), "zm": g.zoom.iter().map(|z| quarters(*z, 10.0)).collect::<Vec<_>>()})
}

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 8);
    let seed = r.next();
    let mut t = String::new();
    let mut over = String::new();
    let mut defs = "COLORDEF:Red:255:0:0\nCOLORDEF:Blue 1:0:0:255\n".to_string();
    if r.below(2) == 0 {
        // the last definition counts
        defs = format!("COLORDEF:Red:1:2:3\n// x\n{defs}");
    }
    let num = |v: i64, by: i64| -> String {
        let t = format!("{}", v as f64 / by as f64);
        match mix(seed, v as u64, 78) % 6 {
            0 if v >= 0 => format!("+{t}"),
            1 if t.starts_with("0.") => t[1..].to_string(),
            2 => format!("{t}{}", if t.contains('.') { "0" } else { ".0" }),
            _ => t,
        }
    };
    for x in arr(&case["h"]) {
        let op = s(&x["op"]);
        if op == "over" {
            over += &format!("OVERRIDE_SCT_MAP:{}{}\n", tok(s(&x["f"])), if r.below(5) == 0 { "\n" } else { "" });
            continue;
        }
        if op == "overone" {
            over += &format!("OVERRIDE_SCT_MAP:{}\\{}\n", tok(s(&x["f"])), tok(s(&x["n"])));
            continue;
        }
        let l = match op {
            "map" => format!("MAP:{}", tok(s(&x["n"]))),
            "col" => format!("COLOR:{}{}", s(&x["n"]), r.pick(&["", "", "", ":Red", ":Nope:Blue 1"])),
            "size" => match s(&x["o"]) {
                "0" => "FONTSIZE:0".into(),
                o => format!("FONTSIZE:{o}:{}", num(i(&x["v"]), 4)),
            },
            "layer" => format!("LAYER:{}", i(&x["v"])),
            "zoom" => format!("ZOOM:{}", num(i(&x["v"]), 10)),
            "asr" => format!("ASRDATA:{}", opt(&x["v"])),
            "style" => format!("STYLE:{}{}", s(&x["n"]), arr(&x["w"]).first().map_or(String::new(), |w| format!(":{}", i(w)))),
            "nothing" => s(&x["t"]).to_string(),
            "line" => format!("LINE:{}:{}", place(s(&x["s"]), seed), place(s(&x["e"]), seed)),
            "sym" => format!("SYMBOL{}:{}:{}{}", r.pick(&["", "", "", "/LT", "/C", "/T", "/B", "/RB", "/CC"]), s(&x["n"]), place(s(&x["l"]), seed),
                arr(&x["lab"]).first().map_or(String::new(), |q| format!(":{}:{}:{}", tok(s(&q["t"])), num(i(&q["x"]), 10), num(i(&q["y"]), 10)))),
            "text" => format!("TEXT{}:{}:{}", r.pick(&["", "", "", "/LT", "/C", "/T", "/B", "/RB", "/CC"]), place(s(&x["l"]), seed), tok(s(&x["t"]))),
            "coord" => format!("COORD:{}", place(s(&x["l"]), seed)),
            "poly" => format!("COORDPOLY:{}", r.below(100)),
            "cline" => "COORDLINE".into(),
            "folder" => format!("FOLDER:{}", tok(s(&x["f"]))),
            "hidden" => "HIDDEN".into(),
            "active" => format!("ACTIVE:{}", condition(&x["a"])),
            "and" => format!("AND_ACTIVE:{}", condition(&x["a"])),
            o => panic!("harness: op {o}"),
        };
        if op == "map" && r.below(4) == 0 {
            // other definitions may come between maps
            t += r.pick(&["LINESTYLEDEF:q:DASH:0:1,2\n", "COLORDEF:Unused:1:2:3\n", "SCTFILEPATH:x.sct\n\n", "SYMBOLDEF:q\nMOVETO:0:0\n"]);
        }
        if op != "map" && op != "line" && r.below(9) == 0 {
            t += r.pick(&[" ", "\t", "   "]);
        }
        t += &l;
        t += r.pick(&["\n", "\n", "\n", "\n", "\r\n", "\n\n", " \n", "\n// COLOR:Red\n", "\n; LINE:x\n\n", "\n  // x\n"]);
    }
    // a map takes the overrides that follow it for its own
    let text = if r.below(3) == 0 { format!("{over}{t}{defs}") } else { format!("{defs}{over}{t}") };
    let text = if r.below(5) == 0 { text.trim_end().to_string() } else { text };
    let base = i(&case["b"]);
    let mut w = World {
        sct: encode(&format!("{SCT}#define colour_S 4660\n[FIXES]\nRTT {}\nARMUT {}\nN125 {}\n", dms_text(4, " ", 0), dms_text(7, " ", 0), dms_text(2, " ", 0)), 1),
        ts_maps: Some(encode(&text, r.next())),
        ..World::default()
    };
    if base != 48 {
        w.ts_settings = Some(format!("Maps_FontSize={}\n", num(base, 4)).into_bytes());
    }
    let input = json!({"maps": text});
    let a = match w.load(ctx) {
        Ok(a) => a,
        Err(e) => return Report { checks: 1, bad: Some(("load".into(), json!("loads"), json!(e.lines().take(8).collect::<Vec<_>>()))), input },
    };
    let x = &case["x"];
    let mut got = vec![];
    let mut folders = vec![];
    let mut checks = 1;
    for (fk, f) in &a.maps {
        folders.push(json!({"n": untok(&f.name), "hidden": f.hidden}));
        if *fk != f.name {
            folders.push(json!({"n": fk}));
        }
        for (k, m) in &f.maps {
            let mut o = json!({"folder": untok(&m.folder), "name": untok(&m.name), "hidden": m.hidden, "lines": [], "polys": [], "syms": [], "texts": [],
                "active": m.active.iter().map(|g| g.iter().map(seen).collect::<Value>()).collect::<Value>()});
            if *k != m.name || m.folder != f.name {
                o["key"] = json!([f.name, k]);
            }
            for g in &m.map_groups {
                let st = style(g);
                let mut put = |k: &str, v: Value| {
                    if v != json!([]) {
                        o[k].as_array_mut().unwrap().push(json!({"v": v, "st": st}));
                        checks += 1;
                    }
                };
                for l in &g.lines.0 {
                    put("lines", l.0.iter().map(|c| pt_of(c.x, c.y)).collect());
                }
                for p in &g.polygons {
                    let mut ring: Vec<_> = p.exterior().0.iter().map(|c| pt_of(c.x, c.y)).collect();
                    while ring.len() > 2 && ring[ring.len() - 1] == ring[0] && ring[ring.len() - 2] == ring[0] {
                        ring.pop();
                    }
                    put("polys", ring.into());
                }
                for q in &g.symbols {
                    let lab: Vec<Value> = q.label.iter().map(|t| json!({"t": untok(t), "x": (q.label_offset.0 * 10.0).round() as i64, "y": (q.label_offset.1 * 10.0).round() as i64})).collect();
                    put("syms", json!({"n": q.name, "p": pt_of(q.coordinate.x(), q.coordinate.y()), "lab": lab}));
                }
                for q in &g.labels {
                    put("texts", json!({"t": untok(&q.text), "p": pt_of(q.coordinate.x(), q.coordinate.y())}));
                }
            }
            got.push(o);
        }
    }
    let mut e = x.clone();
    for m in e["maps_s"].as_array_mut().into_iter().flatten() {
        m["active"] = arr(&m["active"]).iter().map(|g| arr(g).iter().map(wanted).collect::<Value>()).collect();
    }
    let o = json!({"n": got.len(), "maps_s": got, "folders_s": folders});
    checks += got_len(&o) * 3;
    Report { checks, bad: compare(&e, &o), input }
}
fn got_len(o: &Value) -> usize {
    arr(&o["maps_s"]).len()
}
