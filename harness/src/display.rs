//! Spec Display.tla: symbols, line styles, and settings taken from symbology and plugin.
use crate::util::*;
use crate::world::World;
use crate::Report;
use serde_json::{json, Map, Value};
use vatsim_parser::adaptation::symbols::SymbolRule;
use vatsim_parser::adaptation::settings::MapsSettings;

/// A number given in tenths.
fn num(v: i64, r: &mut Rnd) -> String {
    let sign = if v < 0 { "-" } else if r.below(6) == 0 { "+" } else { "" };
    let (a, b) = (v.abs() / 10, v.abs() % 10);
    match (b, r.below(4)) {
        (0, 0) => format!("{sign}{a}.0"),
        (0, _) => format!("{sign}{a}"),
        (_, 0) if a == 0 => format!("{sign}.{b}"),
        (_, 1) => format!("{sign}{a}.{b}0"),
        _ => format!("{sign}{a}.{b}"),
    }
}
fn rule(x: &Value, r: &mut Rnd, colons: bool) -> String {
    let k = s(&x["k"]);
    let angles = if k.contains("ARC") { 2 } else { 0 };
    let a = arr(&x["a"]);
    let sep = |r: &mut Rnd| if colons ^ (r.below(5) == 0) { ":" } else { " " };
    let mut t = k.trim_end_matches('2').to_string();
    for (n, v) in a.iter().enumerate() {
        t += sep(r);
        t += &if n + angles >= a.len() { i(v).to_string() } else { num(i(v), r) };
    }
    t
}
fn rules(x: &Value, r: &mut Rnd, pre: &str, colons: bool) -> String {
    arr(x).iter().map(|q| format!("{pre}{}{}", rule(q, r, colons), if r.below(9) == 0 { " \n" } else { "\n" })).collect()
}
fn tenths(v: f64) -> Value {
    let n = (v * 10.0).round();
    if (n - v * 10.0).abs() < 1e-4 { json!(n as i64) } else { json!(v) }
}
fn seen(rs: &[SymbolRule]) -> Value {
    let p = |a: &(f64, f64)| vec![tenths(a.0), tenths(a.1)];
    rs.iter().map(|q| {
        let (k, a) = match q {
            SymbolRule::Move(a) => ("Move", p(a)),
            SymbolRule::Line(a) => ("Line", p(a)),
            SymbolRule::Pixel(a) => ("Pixel", p(a)),
            SymbolRule::Arc(a, x, s, e) => ("Arc", [p(a), vec![tenths(*x), json!(s), json!(e)]].concat()),
            SymbolRule::EllipticArc(a, x, y, s, e) => ("EllipticArc", [p(a), vec![tenths(*x), tenths(*y), json!(s), json!(e)]].concat()),
            SymbolRule::FilledArc(a, x, s, e) => ("FilledArc", [p(a), vec![tenths(*x), json!(s), json!(e)]].concat()),
            SymbolRule::FilledEllipticArc(a, x, y, s, e) => ("FilledEllipticArc", [p(a), vec![tenths(*x), tenths(*y), json!(s), json!(e)]].concat()),
            SymbolRule::Polygon(v) => ("Polygon", v.iter().flat_map(p).collect()),
        };
        json!({"k": k, "a": a})
    }).collect()
}

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 6);
    let (mut ts, mut ms, mut items, mut es, mut se) = (String::new(), String::new(), String::new(), String::new(), String::new());
    for x in arr(&case["h"]) {
        match s(&x["op"]) {
            "tsym" => ts += &format!("{}SYMBOL:{}\n{}", if r.below(4) == 0 { "\n// SYMBOL:VOR\n" } else { "" }, tok(s(&x["n"])), rules(&x["rs"], &mut r, "", true)),
            "msym" => ms += &format!("SYMBOLDEF:{}\n{}{}", tok(s(&x["n"])), rules(&x["rs"], &mut r, "", true), if r.below(4) == 0 { "\n; x\n" } else { "" }),
            "esym" => es += &format!("SYMBOL:{}\n{}", i(&x["n"]), rules(&x["rs"], &mut r, "SYMBOLITEM:", false)),
            "style" => {
                let d = arr(&x["d"]).iter().map(|v| format!("{}{}", if r.below(9) == 0 { "+" } else { "" }, i(v))).collect::<Vec<_>>().join(",");
                ms += &format!("LINESTYLEDEF:{}:{}:{}{}{d}{}", s(&x["n"]), r.pick(&["DASH", "CUSTOM", "x y"]), r.pick(&["HATCH", "0", ""]), if d.is_empty() { "" } else { ":" }, r.pick(&["\n", "\n\n", "\n// y\n", " // z\n"]));
            }
            "item" => {
                let q = &x["i"];
                let n = arr(&q["n"]);
                items += &format!("{}:{}:{}:{}:{}:{}:{}\n", s(&n[0]), s(&n[1]), i(&q["c"]), num(i(&q["z"]), &mut r), i(&q["s"]), i(&q["w"]), i(&q["a"]));
            }
            "set" => se += &format!("{}{}{}={}{}\n", if r.below(4) == 0 { "\n// Maps_FontSize=99\n" } else { "" }, s(&x["k"]), r.pick(&["", "", " "]), r.pick(&["", "", " "]), s(&x["v"]["t"])),
            o => panic!("harness: op {o}"),
        }
    }
    if es.is_empty() {
        es = "SYMBOL:99\nSYMBOLITEM:MOVETO 1 1\n".into();
    }
    let mut w = World { symbology: format!("SYMBOLOGY\nSYMBOLSIZE\nOther:nothing:1:3.5:0:0:7\n{items}{es}m_ClipArea:5\nEND\n").into_bytes(), ..World::default() };
    let some = |t: &String| (!t.is_empty()).then(|| t.clone().into_bytes());
    (w.ts_symbols, w.ts_maps) = (some(&ts), some(&ms));
    if !se.is_empty() {
        w.ts_settings = Some(format!("{se}[Local]\nMaps_FontSize=98\nTrack_HistoryDots=97\n").into_bytes());
    }
    let input = json!({"symbols": ts, "maps": ms, "symbology": format!("{items}{es}"), "settings": se});
    let a = match w.load(ctx) {
        Ok(a) => a,
        Err(e) => return Report { checks: 1, bad: Some(("load".into(), json!("loads"), json!(e.lines().take(8).collect::<Vec<_>>()))), input },
    };
    let x = &case["x"];
    let mut o = Map::new();
    let mut checks = 0;
    if x.get("symbols").is_some() {
        let q = &a.symbols;
        checks += 9;
        o.insert("symbols".into(), json!({"history_dot": seen(&q.history_dot), "fix": seen(&q.fix), "ndb": seen(&q.ndb), "vor": seen(&q.vor), "airport": seen(&q.airport),
            "primary": seen(&q.primary), "coasted": seen(&q.coasted), "uncontrolled": seen(&q.uncontrolled), "controlled": seen(&q.controlled)}));
        let mut m = Map::new();
        for n in ["HISTORY", "FIX", "NDB", "VOR", "AIRPORT", "PRIMARY", "COASTED", "UNCONTROLLED", "DAPS", "APPFix", "my symbol^", "daps", "NODAPS_DIV", "MOVETO", ""] {
            if let Some(v) = q.get(&tok(n)) {
                m.insert(n.into(), seen(v));
            }
            checks += 1;
        }
        o.insert("named".into(), Value::Object(m));
    }
    if x.get("styles").is_some() {
        checks += a.line_styles.len();
        o.insert("styles".into(), Value::Object(a.line_styles.iter().map(|(n, d)| {
            let dashes = d.iter().flatten().map(|d| json!([whole(d.length), whole(d.gap)])).collect::<Vec<_>>();
            // a style without dashes has none, not an empty pattern
            (n.clone(), if d.is_some() && dashes.is_empty() { "empty pattern".into() } else { dashes.into() })
        }).collect()));
    }
    if x.get("lines").is_some() {
        let m: &MapsSettings = &a.settings.maps;
        let l = &m.line_styles;
        let b = &m.labels;
        checks += 17;
        let line = |q: &vatsim_parser::adaptation::line_styles::LineStyle| json!({"w": q.width, "s": q.style});
        let label = |z: f32, al: &vatsim_parser::adaptation::Alignment| json!({"z": whole(z * 20.0), "a": [format!("{:?}", al.horizontal), format!("{:?}", al.vertical)]});
        o.insert("lines".into(), json!({"runway_centreline": line(&l.runway_centreline), "geo": line(&l.geo), "sid": line(&l.sid), "star": line(&l.star), "high_airways": line(&l.high_airways),
            "low_airways": line(&l.low_airways), "artcc_low": line(&l.artcc_low), "artcc": line(&l.artcc), "artcc_high": line(&l.artcc_high)}));
        o.insert("labels".into(), json!({"vor": label(b.vor_font_size, &b.vor_alignment), "ndb": label(b.ndb_font_size, &b.ndb_alignment), "fix": label(b.fix_font_size, &b.fix_alignment),
            "airport": label(b.airport_font_size, &b.airport_alignment), "runway": label(b.runway_font_size, &b.runway_alignment)}));
        let t = &a.settings.track;
        o.insert("track".into(), json!({"vector": {"on": t.vector.enabled, "len": tenths(t.vector.length.into())}, "dots": {"on": t.history_dots.enabled, "n": t.history_dots.count},
            "choices": {"vector": t.vector.options.iter().map(|x| tenths((*x).into())).collect::<Vec<_>>(), "dots": t.history_dots.options}}));
        o.insert("font".into(), tenths(m.font_size.into()));
    }
    let e: Map<String, Value> = o.keys().map(|k| (k.clone(), x[k].clone())).collect();
    Report { checks, bad: compare(&Value::Object(e), &Value::Object(o)), input }
}
fn whole(v: f32) -> Value {
    if (v.round() - v).abs() < 1e-3 { json!(v.round() as i64) } else { json!(v) }
}
