//! Specs Prf.tla and Load.tla: profiles and the files they lead to.
use crate::util::*;
use crate::Report;
use serde_json::{json, Value};
use std::path::{Component, Path, PathBuf};
use vatsim_parser::adaptation::{Adaptation, AdaptationResult};
use vatsim_parser::prf::Prf;

/// Which of the two starting points a path begins at, and what follows.
fn place(p: &Path, own: &Path) -> Value {
    let cwd = std::env::current_dir().expect("cwd");
    let (o, rest) = match p.strip_prefix(own) {
        Ok(r) => (true, r),
        Err(_) => match p.strip_prefix(&cwd) {
            Ok(r) => (false, r),
            Err(_) => return json!(p.display().to_string()),
        },
    };
    let c: Vec<String> = rest
        .components()
        .filter(|c| !matches!(c, Component::CurDir))
        .map(|c| untok(&c.as_os_str().to_string_lossy()))
        .collect();
    json!({"own": o, "c": c})
}

pub fn path_text(v: &Value, r: &mut Rnd) -> String {
    let mut t = String::new();
    let sep = *r.pick(&["\\", "\\", "/"]).to_string().as_bytes().first().unwrap() as char;
    if b(&v["own"]) {
        t.push(sep);
    }
    for d in arr(&v["dir"]) {
        t += &tok(s(&d));
        t.push(sep);
    }
    t += &tok(s(&v["stem"]));
    if let Some(e) = arr(&v["ext"]).first() {
        t.push('.');
        t += s(e);
    }
    t
}

/// the same file under another name
fn alias(p: &Path, r: &mut Rnd) -> PathBuf {
    let cwd = std::env::current_dir().expect("cwd");
    match r.below(4) {
        0 => match p.strip_prefix(&cwd) {
            Ok(x) => x.to_path_buf(),
            Err(_) => p.to_path_buf(),
        },
        1 => match p.strip_prefix(&cwd) {
            Ok(x) => Path::new(".").join(x),
            Err(_) => p.to_path_buf(),
        },
        2 => p.parent().unwrap().join("..").join(p.parent().unwrap().file_name().unwrap()).join(p.file_name().unwrap()),
        _ => p.to_path_buf(),
    }
}

pub fn prf(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 91);
    let dir = ctx.dir.join("prf");
    std::fs::create_dir_all(&dir).expect("scratch");
    let dir = dir.canonicalize().expect("scratch");
    let file = dir.join("x.prf");
    let nl = r.pick(&["\n", "\n", "\r\n"]).to_string();
    let sp = r.pick(&["\t", "\t", " ", "  \t"]).to_string();
    let mut t = String::new();
    if r.below(4) == 0 {
        t += &nl;
    }
    for k in ["sector", "airways", "airportcoords", "airlines", "aircraft", "airports", "SettingsfileSYMBOLOGY"] {
        t += &format!("Settings{sp}{k}{sp}\\D\\f.txt{nl}");
    }
    for op in arr(&case["h"]) {
        let v = path_text(&op["v"], &mut r);
        t += &format!("{}{sp}{}{sp}{v}{}{nl}", s(&op["n"][0]), s(&op["n"][1]), r.pick(&["", "", " ", "\t "]));
        if r.below(9) == 0 {
            t += &nl;
        }
    }
    if r.below(4) == 0 {
        t.truncate(t.trim_end().len());
    }
    let bytes = encode(&t, r.next());
    std::fs::write(&file, &bytes).expect("scratch");
    let mut first: Option<(Value, Value)> = None;
    for _ in 0..4 {
        let p = match Prf::parse(&alias(&file, &mut r), &bytes) {
            Ok(p) => p,
            Err(e) => return Report { checks: 1, bad: Some(("parse".into(), json!("ok"), json!(e.to_string()))), input: json!(t) },
        };
        let at = |x: PathBuf| place(&x, &dir);
        let opt = |x: Option<PathBuf>| x.map_or(json!([]), |x| json!([place(&x, &dir)]));
        let o = json!({
            "sct": at(p.sct_path()), "ese": at(p.ese_path()), "airways": at(p.airways_path()), "isec": at(p.isec_path()), "navdata": at(p.navdata_airports_path()),
            "airlines": at(p.airlines_path()), "aircraft": at(p.aircraft_path()), "airports": at(p.airports_path()), "symbology": at(p.symbology_path()),
            "recent": (1..=10).map(|i| opt(p.recent_path(i))).collect::<Value>(),
        });
        let plug = json!([opt(p.squawks_path()), opt(p.topsky_path())]);
        match &first {
            None => first = Some((o, plug)),
            Some((fo, fp)) => {
                if *fo != o || *fp != plug {
                    return Report { checks: 1, bad: Some(("read again".into(), json!([fo, fp]), json!([o, plug]))), input: json!(t) };
                }
            }
        }
    }
    let (o, plug) = first.unwrap();
    let mut e = case["x"].clone();
    for (n, k) in ["squawks", "topsky"].iter().enumerate() {
        let allowed = arr(&e[*k]);
        let got = arr(&plug[n]);
        if got.len() != usize::from(!allowed.is_empty()) || got.iter().any(|g| compare(&Value::Null, g).is_some() && !allowed.iter().any(|a| compare(a, g).is_none())) {
            return Report { checks: 1, bad: Some(((*k).into(), json!(allowed), json!(got))), input: json!(t) };
        }
        e.as_object_mut().unwrap().remove(*k);
    }
    Report { checks: 21, bad: compare(&e, &o), input: json!(t) }
}

// ---------------------------------------------------------------- loading

const LETTER: [&str; 4] = ["X", "A", "B", "C"];
/// What a version of a file says.
fn content(f: &str, v: i64) -> String {
    let l = LETTER[v as usize];
    match f {
        "sct" => format!("{}[FIXES]\nFX{v} N048.00.00.000 E011.00.00.000\n{}[GEO]\nG{v} N048.00.00.000 E011.00.00.000 N048.10.00.000 E011.00.00.000\n", crate::world::SCT, ["A", "B", "C"].map(|l| format!("F{l} N010.00.00.000 E010.00.00.000\nT{l} N010.30.00.000 E010.00.00.000\n")).concat()),
        "ese" => format!("[POSITIONS]\nPOS:Name:121.500:P{v}:Y:S:F:-:-:0000:0000\n[AIRSPACE]\n[SIDSSTARS]\n"),
        "airway" => format!("F{l}\t10.000000\t10.000000\t14\tQ1\tB\tT{l}\t10.500000\t10.000000\t\tY\t\t\t\t\tN\n"),
        "symbology" => format!("SYMBOLOGY\nSYMBOLSIZE\nGeo:line:1:3.5:0:1{v}:7\nSYMBOL:0\nSYMBOLITEM:MOVETO -3 -3\nm_ClipArea:5\nEND\n"),
        "airports" => format!("QQQQ\tNAME\tC{v}\n"),
        "navdata" => format!("QQQQ 1{v}.5 10.5 IGNORED\nQQQ{v} 10.0 10.0 N\n"),
        "aircraft" => format!("T{v}\tML2J\tMAKER\tNAME\n"),
        "airlines" => format!("AA{l}\tNAME\tCALL\tCOUNTRY\n"),
        "tsset" => format!("Airspace_Time=10\nTrack_HistoryDots=1{v}\n"),
        "tssym" => format!("SYMBOL:S{v}\nMOVETO:0:0\nLINETO:3:3\n"),
        "tsmap" => format!("COLORDEF:C{v}:1:2:{v}\nMAP:M{v}\nCOLOR:C{v}\nLINE:N048.00.00.000:E011.00.00.000:N048.30.00.000:E011.00.00.000\n"),
        "o1" | "o2" => format!("{{ name: '{f}-{v}', settings+: {{ ssr+: {{ special_use_codes+: {{ {f}: '{v}' }} }} }} }}"),
        _ => panic!("harness: {f}"),
    }
}
/// What a reader of that file cannot make sense of.
fn nonsense(f: &str, r: &mut Rnd) -> String {
    let good = if f == "squawks" { String::new() } else { content(f, 1) };
    match f {
        "sct" => r.pick(&["[NOSUCH]\nx\n", "[INFO]\nonly a name\n"]).to_string(),
        "ese" => format!("{good}{}", r.pick(&["no such line:1\n", "SID:only two\n"])),
        "airway" => r.pick(&["", "F\t1\n", "FA\t10.000000\t10.000000\t14\tQ1\tX\tTA\t10.500000\t10.000000\t\tY\t\t\t\t\tN\n"]).to_string(),
        "symbology" => r.pick(&["", "SYMBOLOGY\nSYMBOLSIZE\n", "SYMBOLOGY\nSYMBOLSIZE\nGeo:line:1:3.5:9:0:7\nSYMBOL:0\nSYMBOLITEM:MOVETO -3 -3\nm_ClipArea:5\nEND\n"]).to_string(),
        "airports" => r.pick(&["", "QQQQ NAME\n", "QQQQ\tNAME\n"]).to_string(),
        "navdata" => r.pick(&["QQQQ x y z\n", "QQQQ\n"]).to_string(),
        "aircraft" => r.pick(&["", "\t\t\n"]).to_string(),
        "airlines" => r.pick(&["", "AAA\tNAME\n", "aaa\tNAME\tCALL\tCOUNTRY\n"]).to_string(),
        "tsset" => r.pick(&["Airspace_Time\n", "=\n"]).to_string(),
        "tssym" => r.pick(&["SYMBOL:S1\nNOSUCH:0:0\n", "x\n", "SYMBOL:S1\nMOVETO:a:b\n"]).to_string(),
        "tsmap" => r.pick(&["x\n", "COLORDEF:C:1:2\n", "MAP:M1\nNOSUCH:1\n"]).to_string(),
        "squawks" => r.pick(&["", "{", "[]", "{\"Squawks\": 3}"]).to_string(),
        "o1" | "o2" => r.pick(&["{ name: }", "", "[1]", "3", "{ assert false }", "{ settings+: { maps: 3 } }"]).to_string(),
        _ => panic!("harness: {f}"),
    }
}

struct Files {
    root: PathBuf,
    /// settings in force, in the order they are written
    point: Vec<(String, Option<String>)>,
    prf: i64,
    toml: i64,
    ovs: Vec<String>,
    recent: Vec<(i64, String)>,
}
impl Files {
    fn spot(&self, p: &str, f: &str) -> PathBuf {
        let n = match f {
            "sct" => "w.sct",
            "ese" => "w.ese",
            "airway" => "airway.txt",
            "symbology" => "symbology.txt",
            "airports" => "airports.txt",
            "navdata" => "icao.txt",
            "aircraft" => "aircraft.txt",
            "airlines" => "airlines.txt",
            "tsset" => "Plug/TopSkySettings.txt",
            "tssym" => "Plug/TopSkySymbols.txt",
            "tsmap" => "Plug/TopSkyMaps.txt",
            "squawks" => "Sq/squawks.json",
            "o1" => "o1.jsonnet",
            "o2" => "o2.jsonnet",
            _ => panic!("harness: {f}"),
        };
        self.root.join(p).join(n)
    }
    fn put(&self, p: &str, f: &str, v: i64, r: &mut Rnd) {
        let at = self.spot(p, f);
        let _ = std::fs::remove_file(&at);
        let _ = std::fs::remove_dir(&at);
        match v {
            0 => {}
            -1 => std::fs::write(&at, nonsense(f, r)).expect("scratch"),
            -2 => std::fs::create_dir(&at).expect("scratch"),
            _ if f == "squawks" => std::fs::write(&at, format!("{{\"NonDiscreteColor\":\"#000000\",\"NonDiscreteMessage\":\"\",\"NonDiscrete\":[],\"Squawks\":[{{\"code\":\"100{v}\",\"message\":\"SQ\",\"color\":\"#102030\"}}]}}")).expect("scratch"),
            _ => std::fs::write(&at, content(f, v)).expect("scratch"),
        }
    }
    fn profile(&self) -> PathBuf {
        self.root.join("p").join("w.prf")
    }
    fn setup(&self) -> PathBuf {
        self.root.join("t").join("adaptation.toml")
    }
    /// the profile and the list as they are now
    fn settle(&self, r: &mut Rnd) {
        let _ = std::fs::remove_file(self.profile());
        let _ = std::fs::remove_file(self.setup());
        let mut t = String::new();
        for (k, p) in &self.point {
            if let Some(p) = p {
                let (c, key, v) = match k.as_str() {
                    "sector" => ("Settings", "sector", "w.sct"),
                    "airways" => ("Settings", "airways", "airway.txt"),
                    "SettingsfileSYMBOLOGY" => ("Settings", "SettingsfileSYMBOLOGY", "symbology.txt"),
                    "airports" => ("Settings", "airports", "airports.txt"),
                    "airportcoords" => ("Settings", "airportcoords", "icao.txt"),
                    "aircraft" => ("Settings", "aircraft", "aircraft.txt"),
                    "airlines" => ("Settings", "airlines", "airlines.txt"),
                    "TopSky" => ("Plugins", "Plugin1", "Plug\\TopSky.dll"),
                    "Squawks" => ("Plugins", "Plugin2", "Sq\\Squawks.dll"),
                    _ => panic!("harness: {k}"),
                };
                t += &format!("{c}\t{key}\t\\..\\{p}\\{v}\n");
            }
        }
        for (n, f) in &self.recent {
            t += &format!("RecentFiles\tRecent{n}\t\\R\\{}.asr\n", tok(f));
        }
        // a profile that says nothing at all is none
        t += "Plugins\tPlugin9\tnone.dll\nASRFastKeys\t1\tx\n";
        match self.prf {
            0 => {}
            1 => std::fs::write(self.profile(), t).expect("scratch"),
            _ => std::fs::write(self.profile(), r.pick(&["", "Settings\n", "Settings\tsector\n", "1 2 3\n"])).expect("scratch"),
        }
        let abs = r.below(3) == 0;
        let rel = |d: &str, n: &str| if abs { self.root.join(d).join(n).display().to_string() } else { format!("../{d}/{n}") };
        match self.toml {
            0 => {}
            1 => std::fs::write(
                self.setup(),
                format!("prf = {:?}\noverlays = {:?}\n", rel("p", "w.prf"), self.ovs.iter().map(|o| rel("o", &format!("{o}.jsonnet"))).collect::<Vec<_>>()),
            )
            .expect("scratch"),
            _ => std::fs::write(self.setup(), r.pick(&["", "prf = 3\noverlays = []\n", "prf = \"../p/w.prf\"\n", "overlays = []\n", "prf\n"])).expect("scratch"),
        }
    }
    fn load(&self, way: &str) -> AdaptationResult {
        let overlays = || self.ovs.iter().map(|o| self.spot("o", o));
        match way {
            "toml" => Adaptation::from_adaptation_toml(&self.setup()),
            _ => {
                let prf = Prf::parse(&self.profile(), &std::fs::read(self.profile()).unwrap_or_default())?;
                if way == "prf" {
                    Adaptation::from_prf(&prf)
                } else {
                    Adaptation::from_prf_with_overlays(&prf, overlays())
                }
            }
        }
    }
    fn observe(&self, e: &Value) -> Option<(String, Value, Value)> {
        let way = s(&e["way"]);
        let got = self.load(way);
        let at = |k: &str| format!("{way}.{k}");
        match got {
            Err(x) => {
                let k = format!("{x:?}");
                let kind = k.split(['(', ' ', '{']).next().unwrap_or("").to_string();
                if b(&e["ok"]) {
                    Some((at("result"), json!("ok"), json!(x.to_string())))
                } else if arr(&e["kinds"]).iter().any(|a| s(a) == kind || (s(a) == "Jsonnet" && kind == "JSON")) {
                    None
                } else {
                    Some((at("kind"), e["kinds"].clone(), json!(x.to_string())))
                }
            }
            Ok(a) => {
                if !b(&e["ok"]) {
                    return Some((at("result"), e["kinds"].clone(), json!("ok")));
                }
                let one = |v: Vec<i64>| if v.len() == 1 { json!(v[0]) } else { json!(v) };
                let vs = || (1i64..4);
                let own = |f: &dyn Fn(i64) -> bool| vs().filter(|v| f(*v)).collect::<Vec<_>>();
                let l = |v: i64| LETTER[v as usize];
                let j = serde_json::to_value(&a.settings).expect("settings");
                let codes = &j["ssr"]["special_use_codes"];
                let apt = &a.locations.airports;
                let dots = j["track"]["history_dots"]["count"].as_i64().unwrap_or(-1);
                let mut said: Vec<Value> = vec![];
                for o in ["o1", "o2"] {
                    if let Some(v) = codes.get(o) {
                        said.push(json!([o, v.as_str().unwrap_or("").parse::<i64>().unwrap_or(-1)]));
                    }
                }
                let name = a.name.clone();
                let o = json!({
                    "needed": {
                        "sct": one(own(&|v| a.locations.fixes.contains_key(&format!("FX{v}")))),
                        "ese": one(own(&|v| a.positions.contains_key(&format!("P{v}")))),
                        "airway": one(own(&|v| hops(&a, &format!("F{}", l(v)), &format!("T{}", l(v))) > 0)),
                        "symbology": one(own(&|v| j["maps"]["line_styles"]["geo"]["width"].as_i64() == Some(10 + v))),
                        "airports": one(own(&|v| apt.get("QQQQ").is_some_and(|x| x.country.as_deref() == Some(&format!("C{v}"))))),
                        "navdata": one(own(&|v| apt.contains_key(&format!("QQQ{v}")) && apt.get("QQQQ").is_some_and(|x| (x.coordinate.y() - (10.5 + v as f64)).abs() < 1e-9))),
                        "aircraft": one(own(&|v| a.aircraft.contains_key(&format!("T{v}")))),
                        "airlines": one(own(&|v| a.airlines.contains_key(&format!("AA{}", l(v))))),
                    },
                    "tsset": if dots > 10 { vec![dots - 10] } else { vec![] },
                    "tssym": own(&|v| a.symbols.get(&format!("S{v}")).is_some()),
                    "tsmap": own(&|v| serde_json::to_string(&a.maps).is_ok_and(|t| t.contains(&format!("\"M{v}\"")))),
                    "files": a.settings.asr_files.iter().map(|f| f.strip_prefix(self.root.join("p/R")).map_or(f.display().to_string(), |f| untok(&f.with_extension("").to_string_lossy()))).collect::<Vec<_>>(),
                    "squawks": own(&|v| codes.get(format!("100{v}")).is_some()),
                    "overlay": if name == "World" { json!([]) } else { json!([name.split('-').next_back().and_then(|x| x.parse::<i64>().ok())]) },
                    "said_s": said,
                });
                compare(&e["parts"][0], &o).map(|(p, x, y)| (at(&p), x, y)).or_else(|| {
                    let w = self.ovs.last().map_or("World".into(), |o| o.clone());
                    (way != "prf" && !name.starts_with(&w)).then(|| (at("name"), json!(w), json!(name)))
                })
            }
        }
    }
}

fn hops(a: &Adaptation, from: &str, to: &str) -> usize {
    let fix = |d: &str| vatsim_parser::adaptation::locations::Fix { designator: d.into(), coordinate: geo::point!(x: 10.0, y: if d == from { 10.0 } else { 10.5 }) };
    a.locations.airways.expand_airway_segment(&fix(from), to, "Q1", &a.locations).map_or(0, |x| x.len())
}

pub fn load(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 95);
    let root = ctx.dir.join("load");
    let _ = std::fs::remove_dir_all(&root);
    for p in ["a/Plug", "a/Sq", "b/Plug", "b/Sq", "o", "p", "t"] {
        std::fs::create_dir_all(root.join(p)).expect("scratch");
    }
    let root = root.canonicalize().expect("scratch");
    let settings = ["sector", "airways", "SettingsfileSYMBOLOGY", "airports", "airportcoords", "aircraft", "airlines", "TopSky", "Squawks"];
    let mut w = Files {
        root,
        point: settings.iter().map(|k| ((*k).to_string(), Some("a".to_string()))).collect(),
        prf: 1,
        toml: 1,
        ovs: vec![],
        recent: vec![],
    };
    let all = ["sct", "ese", "airway", "symbology", "airports", "navdata", "aircraft", "airlines", "tsset", "tssym", "tsmap", "squawks"];
    for f in all {
        w.put("a", f, 1, &mut r);
        w.put("b", f, 2, &mut r);
    }
    for o in ["o1", "o2"] {
        w.put("o", o, 1, &mut r);
    }
    let mut checks = 0;
    let ways = |x: &Value, w: &Files, r: &mut Rnd, checks: &mut usize| {
        w.settle(r);
        for e in arr(x) {
            *checks += 15;
            if let Some(bad) = w.observe(&e) {
                return Some(bad);
            }
        }
        None
    };
    for (n, op) in arr(&case["h"]).iter().enumerate() {
        match s(&op["op"]) {
            "put" => w.put(s(&op["s"][0]), s(&op["s"][1]), i(&op["v"]), &mut r),
            "point" => {
                let k = s(&op["k"]);
                let p = arr(&op["p"]).first().map(|x| s(x).to_string());
                w.point.iter_mut().find(|x| x.0 == k).expect("setting").1 = p;
            }
            "prf" => w.prf = i(&op["v"]),
            "toml" => w.toml = i(&op["v"]),
            "recent" => w.recent.push((i(&op["n"]), s(&op["f"]).to_string())),
            "ovs" => w.ovs = arr(&op["v"]).iter().map(|x| s(x).to_string()).collect(),
            "load" => {
                if let Some((at, e, o)) = ways(&op["x"], &w, &mut r, &mut checks) {
                    return Report { checks, bad: Some((format!("step {n}: {at}"), e, o)), input: case["h"].clone() };
                }
            }
            x => panic!("harness: {x}"),
        }
    }
    let bad = ways(&case["x"], &w, &mut r, &mut checks);
    Report { checks, bad, input: case["h"].clone() }
}
