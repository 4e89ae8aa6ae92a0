//! Specs Timing.tla and Squawks.tla: coordination times, special-use codes.
use crate::util::*;
use crate::world::World;
use crate::Report;
use serde_json::{json, Map, Value};
use uom::si::f32::Time;
use uom::si::time::second;
use vatsim_parser::adaptation::settings::{CoordinationSettings, CoordinationTiming, SsrSettings};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::squawks::parse_squawks_json;

fn t(v: &Value) -> Option<Time> {
    v.as_i64().map(|n| Time::new::<second>(n as f32))
}
fn timing(v: &Value) -> CoordinationTiming {
    CoordinationTiming { act_time: t(&v["act"]), abi_time: t(&v["abi"]), rev_time: t(&v["rev"]) }
}
/// the kinds that are given, as overlay fields
fn fields(v: &Value) -> Map<String, Value> {
    v.as_object().map(|m| m.iter().map(|(k, x)| (format!("{k}_time"), x.clone())).collect()).unwrap_or_default()
}

pub fn timing_run(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 71);
    let mut a = match r.below(3) {
        0 => World::default().load(ctx).expect("harness: default world"),
        _ => Adaptation { settings: Default::default(), ..Default::default() },
    };
    let mut n = 0;
    let mut overlay = |a: Adaptation, text: String| {
        n += 1;
        let p = ctx.dir.join(format!("o{n}.jsonnet"));
        std::fs::write(&p, &text).expect("scratch");
        let x = a.apply_jsonnet_overlays([p].into_iter());
        (x, text)
    };
    for op in arr(&case["h"]) {
        let via = r.below(4) == 0;
        let f = op["f"].as_str().unwrap_or("").to_string();
        let body = match s(&op["op"]) {
            "glob" if via => json!({if s(&op["k"]) == "lam" { "lam_timeout".into() } else { format!("{}_time", s(&op["k"])) }: op["v"]}).to_string(),
            "fir" if via => format!("{{\"fir_overrides\"+: {{{}: {}}}}}", json!(f), Value::Object(fields(&op["t"]))),
            "merge" if via => format!("{{\"fir_overrides\"+: {{{}+: {}}}}}", json!(f), Value::Object(fields(&op["t"]))),
            "reload" if op["how"] == "overlay" => "{}".into(),
            _ => String::new(),
        };
        if body.is_empty() {
            let c: &mut CoordinationSettings = &mut a.settings.coordination;
            match s(&op["op"]) {
                "glob" => {
                    let v = t(&op["v"]).unwrap();
                    match s(&op["k"]) {
                        "act" => c.act_time = v,
                        "abi" => c.abi_time = v,
                        "lam" => c.lam_timeout = v,
                        _ => c.rev_time = v,
                    }
                }
                "fir" => drop(c.fir_overrides.insert(f, timing(&op["t"]))),
                "merge" => {
                    let e = c.fir_overrides.entry(f).or_default();
                    let x = timing(&op["t"]);
                    e.act_time = x.act_time.or(e.act_time);
                    e.abi_time = x.abi_time.or(e.abi_time);
                    e.rev_time = x.rev_time.or(e.rev_time);
                }
                "del" => drop(c.fir_overrides.remove(&f)),
                "reload" => {
                    let x = serde_json::to_string(&c).expect("json");
                    *c = match serde_json::from_str(&x) {
                        Ok(x) => x,
                        Err(e) => return Report { checks: 1, bad: Some(("reload".into(), json!("ok"), json!(e.to_string()))), input: json!(x) },
                    };
                }
                o => panic!("harness: op {o}"),
            }
        } else {
            let (x, text) = overlay(a, format!("{{settings+: {{coordination+: {body}}}}}"));
            a = match x {
                Ok(x) => x,
                Err(e) => return Report { checks: 1, bad: Some(("overlay".into(), json!("ok"), json!(e.to_string()))), input: json!(text) },
            };
        }
    }
    let c = &a.settings.coordination;
    let mut checks = 4;
    let sec = |x: Time| x.get::<second>().round() as i64;
    let g = json!({"act": sec(c.act_time), "abi": sec(c.abi_time), "rev": sec(c.rev_time), "lam": sec(c.lam_timeout)});
    if let Some((at, e, o)) = compare(&case["g"], &g) {
        return Report { checks, bad: Some((format!("general {at}"), e, o)), input: Value::Null };
    }
    for q in arr(&case["q"]) {
        checks += 3;
        let fir = arr(&q["f"]);
        let fir = fir.first().map(s);
        let own = timing(&q["c"]);
        // an agreement that sets nothing is no different from none
        let none = own == CoordinationTiming::default() && r.below(2) == 0;
        let x = c.resolve(fir, if none { None } else { Some(&own) });
        let o = json!({"act": x.act_time.get::<second>().round() as i64, "abi": x.abi_time.get::<second>().round() as i64, "rev": x.rev_time.get::<second>().round() as i64});
        if let Some((at, e, o)) = compare(&q["r"], &o) {
            return Report { checks, bad: Some((format!("{:?} {} {at}", fir, q["c"]), e, o)), input: Value::Null };
        }
    }
    Report { checks, bad: None, input: Value::Null }
}

pub fn squawks(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 72);
    let mut list = vec![];
    for op in arr(&case["h"]) {
        let mut o = Map::new();
        let m = tok(s(&op["m"]));
        if !op["t"].is_null() {
            o.insert("code".into(), op["t"].clone());
        } else if r.below(2) == 0 {
            o.insert("code".into(), Value::Null);
        }
        if !op["a"].is_null() {
            o.insert("range".into(), json!({"start": op["a"], "end": op["z"]}));
        } else if r.below(2) == 0 {
            o.insert("range".into(), Value::Null);
        }
        o.insert("message".into(), json!(m));
        o.insert("color".into(), json!(r.pick(&["#ff0000", "#00FF7f", "#000000"])));
        list.push(Value::Object(o));
    }
    let file = json!({"NonDiscreteColor": "#123456", "NonDiscreteMessage": "ND", "NonDiscrete": ["1000", "7777"], "Squawks": list});
    let text = if r.below(2) == 0 { serde_json::to_string_pretty(&file) } else { serde_json::to_string(&file) }.unwrap();
    let input = json!(text);
    let got = if r.below(2) == 0 {
        match parse_squawks_json(text.as_bytes()) {
            Ok(x) => SsrSettings::from_squawks_json(&x).special_use_codes,
            Err(e) => return Report { checks: 1, bad: Some(("parse".into(), json!("ok"), json!(e.to_string()))), input },
        }
    } else {
        let w = World { squawks: Some(text.into_bytes()), ..Default::default() };
        match w.load(ctx) {
            Ok(a) => a.settings.ssr.special_use_codes,
            Err(e) => return Report { checks: 1, bad: Some(("load".into(), json!("ok"), json!(e))), input },
        }
    };
    let o = json!({"x_s": got.iter().map(|(k, v)| json!([k, untok(v)])).collect::<Value>()});
    let bad = compare_keys(&json!({"x_s": case["x_s"]}), &o);
    Report { checks: got.len() + 1, bad, input }
}
