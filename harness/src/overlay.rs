//! Spec Overlay.tla: overlay files applied to an adaptation.
use crate::secidx::{answers, ring, SECS, VOLS};
use crate::util::*;
use crate::world::{World, SCT, SYMBOLOGY};
use crate::Report;
use serde_json::{json, Map, Value};
use std::path::{Path, PathBuf};
use vatsim_parser::adaptation::icao::Airline;
use vatsim_parser::adaptation::sectors::{Sector, Volume};
use uom::si::{f32::Time, time::second};
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::line_styles::Dash;
use vatsim_parser::adaptation::settings::CoordinationTiming;
use vatsim_parser::adaptation::{Adaptation, Position};
use vatsim_parser::ese::Constraint;

// ------------------------------------------------------------ the adaptation to begin with

/// An adaptation with something in every part, positions and texts all awkward.
fn base(ctx: &Ctx, r: &mut Rnd) -> Adaptation {
    let mut at = |sep: &str| {
        let q = |d: u64, h: [char; 2], r: &mut Rnd| format!("{}{:03}.{:02}.{:02}.{:03}", h[r.below(2) as usize], r.below(d), r.below(60), r.below(60), r.below(1000));
        let a = q(89, ['N', 'S'], r);
        let b = q(179, ['E', 'W'], r);
        format!("{a}{sep}{b}")
    };
    let mut sct = String::from("#define CA 255\n#define CB 16711680\n");
    sct += SCT;
    sct += &format!("[VOR]\nVVV 112.300 {}\nVVV 110.050 {}\n[NDB]\nNNN 426.000 {}\n", at(" "), at(" "), at(" "));
    sct += &format!("[FIXES]\nFAAAA {}\nFBBBB {}\nFBBBB {}\n[AIRPORT]\nAAAA 118.700 {} D\nBBBB 000.000 {} E\n", at(" "), at(" "), at(" "), at(" "), at(" "));
    sct += &format!("[RUNWAY]\n08R 26L 080 260 {} {} AAAA\n", at(" "), at(" "));
    let (a, b) = (at(" "), at(" "));
    sct += &format!("[SID]\nSID one {a} {b}\n[STAR]\nSTAR one {a} {b} CA\n[ARTCC HIGH]\nHigh {a} {b}\n[ARTCC]\nMid {a} {b} CB\n[ARTCC LOW]\nLow {b} {a}\n[GEO]\nGeo one {a} {b} CA\n");
    sct += &format!("[LABELS]\n\"L 1 \\ $\" {a} CA\n[REGIONS]\nREGIONNAME Reg one\nCA {a}\n {b}\n {}\n[HIGH AIRWAY]\nU1 {a} {b}\n[LOW AIRWAY]\nL1 {b} {a}\n", at(" "));
    let mut ese = format!("[POSITIONS]\nPOS_CTR:M\u{fc}n \"x\" 'y' \\ %s $ {{}} ~:129.100:ALB:AL:EDMM:CTR:::2354:2367:{}:{}\n[AIRSPACE]\n", at(":"), at(":"));
    let c: Vec<String> = (0..3).map(|_| at(":")).collect();
    for k in 0..3 {
        ese += &format!("SECTORLINE:{k}\nCOORD:{}\nCOORD:{}\n", c[k], c[(k + 1) % 3]);
    }
    ese += "SECTOR:EDMM\u{b7}TRI\u{b7}000\u{b7}105:00000:10500\nOWNER:ALB:ED\nBORDER:0:1:2\nDEPAPT:AAAA:BBBB\nARRAPT:AAAA\nACTIVE:AAAA:08R\n";
    ese += "COPX:AAAA:08R:FAAAA:*:*:EDMM\u{b7}TRI\u{b7}000\u{b7}105:EDMM\u{b7}X\u{b7}000\u{b7}105:9000:*:FAAAA|\nFIR_COPX:*:*:FBBBB:BBBB:*:A\u{b7}B\u{b7}1\u{b7}2:C\u{b7}D\u{b7}1\u{b7}2:*:12000:to B\n";
    ese += "[SIDSSTARS]\nSID:AAAA:08R:FA1N:FAAAA VVV FBBBB\nSTAR:BBBB:08R:FB2A:NNN FAAAA\n";
    let maps = format!(
        "COLORDEF:C1:1:2:3\nLINESTYLEDEF:LS1:a:b:10,3\nSYMBOLDEF:SY\nMOVETO:-1.5:0\nLINETO:2:3.7\nMAP:M one\nFOLDER:F1\nCOLOR:C1\nASRDATA:CTR,APP\nZOOM:9\nSTYLE:LS1:2\nACTIVE:ID:*:*:IGL:*\nACTIVE:RWY:ARR:AAAA08R:DEP:*\nAND_ACTIVE:1\nAND_ACTIVE:AREA:A1,B2\nACTIVE:AREA:A1:B2\nACTIVE:AUP:X1\nACTIVE:NOTAM:EDDM:A B,C\nACTIVE:0101:1231:0:0000:2359\nACTIVE:240101:251231:12345:0600:1800\nACTIVE:CALLSIGN:DLH*:*:AAL:*\nACTIVE:MAP:!:F1\\M two\nACTIVE:RWY:ARR:*:AAAA08R:DEP:AAAA26L:*\nLINE:{}:{}\nTEXT:{}:A \"text\" \\ $\nSYMBOL:SY:{}\nCOORD:{}\nCOORD:{}\nCOORD:{}\nCOORDPOLY:50\n\nMAP:M two\nCOLOR:C1\nLINE:{}:{}\n",
        at(":"), at(":"), at(":"), at(":"), at(":"), at(":"), at(":"), at(":"), at(":")
    );
    let dec = |r: &mut Rnd| format!("{}.{:06}", r.below(60), r.below(1_000_000));
    let (x1, y1, x2, y2) = (dec(r), dec(r), dec(r), dec(r));
    let airway = format!(
        "FAAAA\t{x1}\t{y1}\t14\tY1\tB\tFBBBB\t{x2}\t{y2}\t09500\tY\t\t\t\t\tN\nFBBBB\t{x2}\t{y2}\t14\tY1\tH\tFAAAA\t{x1}\t{y1}\tNESTB\tN\t\t\t\t\tN\n"
    );
    let w = World {
        sct: encode(&sct, r.next()),
        ese: encode(&ese, r.next()),
        airway: airway.into(),
        airports: b"AAAA\tNAME A\tCountry\nCCCC\tNAME C\tC\n".to_vec(),
        navdata: format!("AAAA {} {} NAV A\nCCCC {} {} NAV C\n", dec(r), dec(r), dec(r), dec(r)).into(),
        aircraft: b"QQQ\tML2J\tMAKER\tNAME\nB\tHH-E\tM \"q\"\tN\n".to_vec(),
        symbology: SYMBOLOGY.replace("Other:nothing", "Geo:line:255:3.3:3:2:8\nAirports:name:65280:4.7:1:1:2\nOther:nothing").into(),
        squawks: Some(b"{\"NonDiscreteColor\":\"#000000\",\"NonDiscreteMessage\":\"\",\"NonDiscrete\":[],\"Squawks\":[]}".to_vec()),
        ts_settings: Some(b"Airspace_Time=10\nColor_Track_Default=1,2,3\n".to_vec()),
        ts_symbols: Some(b"SYMBOL:S2\nMOVETO:0:0\nARC:0:0:2.5:10:350\nPOLYGON:0:0:1:1:2:0\n".to_vec()),
        ts_maps: Some(maps.into()),
        ..World::default()
    };
    let mut a = w.load(ctx).unwrap_or_else(|e| panic!("harness: base world: {e}"));
    // what the specification begins with
    a.name = "World".into();
    a.settings.maps.font_size = 12.0;
    a.settings.maps.layer = 1.0;
    a.settings.maps.auto_folder = "AUTO".into();
    a.settings.maps.line_styles.geo.width = 1;
    a.settings.track.history_dots.count = 6;
    a.settings.track.history_dots.enabled = true;
    a.settings.track.vector.length = 2.0;
    a.settings.track.vector.enabled = false;
    a.settings.coopans = true;
    a.settings.ssr.special_use_codes = [("1000", "a"), ("7000", "V")].map(|(k, v)| (k.to_string(), v.to_string())).into();
    a.settings.asr_files = vec!["x.asr".into()];
    a.airlines = ["AAA", "BBB"]
        .map(|k| (k.to_string(), Airline { designator: k.into(), name: "N".into(), callsign: "C".into(), country: "L".into() }))
        .into();
    a.colours.map.geo = rgb(66051);
    a.colours.map.sid = rgb(11259375);
    let v = js(&a);
    for k in ["sectors", "volumes", "positions", "departure_constraints", "sids", "stars", "maps", "locations", "line_styles", "aircraft", "airlines"] {
        assert!(v[k].as_object().is_none_or(|m| !m.is_empty()), "harness: no {k} in the base world");
    }
    a.maps.get_mut("F1").expect("F1").hidden = false;
    a.positions.insert("P1".into(), position("P1", "129.100", &[1]));
    a.line_styles.insert("S1".into(), dashes(&[3, 2]));
    a.line_styles.insert("S2".into(), dashes(&[]));
    a.departure_constraints.insert("K1".into(), constraint("to X", 9000, -1));
    a.sectors.0 = [(SECS[1].to_string(), sector(1, &["P1".into()], &[1]))].into();
    a.volumes = [(VOLS[1].to_string(), volume(1, &json!([[0, 0], [4, 0], [4, 4], [0, 4]]), 0, 100))].into();
    a.rebuild_sector_index();
    a
}
fn rgb(n: i64) -> Colour {
    Colour::from_rgb((n >> 16) as u8, (n >> 8) as u8, n as u8)
}
fn position(id: &str, freq: &str, vis: &[i64]) -> Position {
    Position {
        id: id.into(),
        name: "A B".into(),
        frequency: freq.into(),
        prefix: String::new(),
        suffix: "CTR".into(),
        visibility_points: vis.iter().map(|v| geo::Point::from(pt(*v))).collect(),
    }
}
fn dashes(l: &[i64]) -> Option<Vec<Dash>> {
    (!l.is_empty()).then(|| l.chunks(2).map(|c| Dash { length: c[0] as f32, gap: c[1] as f32 }).collect())
}
fn constraint(desc: &str, clb: i64, act: i64) -> Constraint {
    Constraint {
        previous_fix: Some("A".into()),
        departure_runway: None,
        subsequent_fix: None,
        arrival_runway: Some("08".into()),
        fix: Some("FAAAA".into()),
        exit_sector: "X\u{b7}1".into(),
        entry_sector: String::new(),
        climb_level: u32::try_from(clb).ok(),
        descent_level: Some(0),
        description: desc.into(),
        coord_timing: timing(act),
    }
}
fn timing(act: i64) -> Option<CoordinationTiming> {
    (act >= 0).then(|| CoordinationTiming { act_time: Some(Time::new::<second>(act as f32)), abi_time: None, rev_time: None })
}
fn js<T: serde::Serialize>(t: &T) -> Value {
    serde_json::to_value(t).expect("serialise")
}
fn sector(n: usize, prio: &[String], vs: &[usize]) -> Sector {
    Sector {
        id: SECS[n].into(),
        position_priority: prio.to_vec(),
        runway_filter: vec![],
        volumes: vs.iter().map(|v| VOLS[*v].to_string()).collect(),
        departure_aerodromes: Default::default(),
        arrival_aerodromes: ["AAAA", "BBBB"].map(String::from).into(),
    }
}
fn volume(n: usize, rg: &Value, lo: u32, hi: u32) -> Volume {
    Volume::new(VOLS[n].into(), lo, hi, ring(rg))
}
fn the_ring(n: i64) -> Value {
    match n {
        1 => json!([[0, 0], [4, 0], [4, 4], [0, 4]]),
        2 => json!([[2, 2], [6, 2], [6, 6], [2, 6]]),
        _ => json!([[-2, 0], [1, 0], [1, 6], [-2, 6]]),
    }
}

// ------------------------------------------------------------ overlay files

#[derive(Clone)]
enum Node {
    /// how it is assigned, and what
    Leaf(&'static str, String),
    Obj(Vec<(String, Node)>),
}
/// Put a leaf at a path; false if something is there already.
fn place(obj: &mut Vec<(String, Node)>, path: &[String], leaf: &Node) -> bool {
    let k = obj.iter().position(|x| x.0 == path[0]);
    match (k, path.len()) {
        (None, 1) => {
            obj.push((path[0].clone(), leaf.clone()));
            true
        }
        (Some(_), 1) => false,
        (k, _) => {
            let k = k.unwrap_or_else(|| {
                obj.push((path[0].clone(), Node::Obj(vec![])));
                obj.len() - 1
            });
            match &mut obj[k].1 {
                Node::Obj(o) => place(o, &path[1..], leaf),
                Node::Leaf(..) => false,
            }
        }
    }
}
fn quoted(t: &str, r: &mut Rnd) -> String {
    let single = r.below(2) == 0 && !t.contains('\'');
    let t = t.replace('\\', "\\\\");
    if single {
        format!("'{t}'")
    } else {
        format!("\"{}\"", t.replace('"', "\\\""))
    }
}
fn key(k: &str, r: &mut Rnd) -> String {
    let bare = k.chars().all(|c| c.is_ascii_alphabetic() || c == '_') && k != "name";
    match r.below(4) {
        0 => format!("[{}]", quoted(k, r)),
        1 => quoted(k, r),
        _ if bare => k.to_string(),
        _ => quoted(k, r),
    }
}
fn render(obj: &[(String, Node)], r: &mut Rnd) -> String {
    let mut t = String::from("{");
    for (k, n) in obj {
        t += match r.below(6) {
            0 => "\n  // a comment: { \n",
            1 => " /* { */ ",
            2 => "\n# }\n",
            _ => "\n ",
        };
        match n {
            Node::Leaf(m, e) if m.starts_with("local") => t += &format!("{m} {}: {e},", key(k, r)),
            Node::Leaf(m, e) if *m == "raw" => t += &format!("{e},"),
            Node::Leaf(m, e) => t += &format!("{}{m} {e},", key(k, r)),
            Node::Obj(o) => t += &format!("{}+: {},", key(k, r), render(o, r)),
        }
    }
    t + "}"
}
/// How an edit is written.
fn edit(e: &Value, n: usize, r: &mut Rnd) -> Vec<(Vec<String>, Node)> {
    let p = |t: &str| t.split('.').map(String::from).collect::<Vec<_>>();
    let sub = |t: &str, k: &str| [p(t), vec![k.to_string()]].concat();
    let (m, num) = (s(&e["m"]), i(&e["n"]));
    let texts: Vec<String> = arr(&e["q"]).iter().map(|x| tok(s(x))).collect();
    let nums: Vec<i64> = arr(&e["z"]).iter().map(i).collect();
    let set = |path: Vec<String>, t: String| vec![(path, Node::Leaf(":", t))];
    let add = |path: Vec<String>, t: String| vec![(path, Node::Leaf("+:", t))];
    match s(&e["k"]) {
        "num" => {
            let path = p(match s(&e["p"]) {
                "font" => "settings.maps.font_size",
                "layer" => "settings.maps.layer",
                "dots" => "settings.track.history_dots.count",
                "length" => "settings.track.vector.length",
                _ => "settings.maps.line_styles.geo.width",
            });
            let l = path.last().expect("path").clone();
            match m {
                "set" => set(path, if r.below(4) == 0 { format!("{} + 1", num - 1) } else { num.to_string() }),
                "add" => add(path, num.to_string()),
                "super" => set(path, if r.below(2) == 0 { format!("super.{l} + {num}") } else { format!("{num} + super['{l}']") }),
                _ => set(path, if r.below(2) == 0 { format!("self.layer + {num}") } else { format!("$.settings.maps.layer + {num}") }),
            }
        }
        "flag" => {
            let path = p(match s(&e["p"]) {
                "coopans" => "settings.coopans",
                "vector" => "settings.track.vector.enabled",
                "folder" => "maps.F1.hidden",
                _ => "settings.track.history_dots.enabled",
            });
            set(path, (num == 1).to_string())
        }
        "text" => {
            let path = p(if s(&e["p"]) == "name" { "name" } else { "settings.maps.auto_folder" });
            let l = path.last().expect("path").clone();
            let t = quoted(&tok(s(&e["s"])), r);
            match m {
                "set" => set(path, t),
                "add" => add(path, t),
                _ => set(path, format!("{t} + super.{l}")),
            }
        }
        "codes" => {
            let path = "settings.ssr.special_use_codes";
            let pairs: Vec<(String, String)> = texts.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0].clone(), c[1].clone())).collect();
            let obj = |r: &mut Rnd| {
                let q: Vec<String> = pairs.iter().map(|(k, v)| format!("{}: {}", quoted(k, r), quoted(v, r))).collect();
                format!("{{ {} }}", q.join(", "))
            };
            match m {
                "set" => set(p(path), obj(r)),
                _ if r.below(2) == 0 && !pairs.is_empty() => pairs.iter().map(|(k, v)| (sub(path, k), Node::Leaf(":", quoted(v, r)))).collect(),
                _ => add(p(path), obj(r)),
            }
        }
        "files" => {
            let l: Vec<String> = texts.iter().map(|t| quoted(t, r)).collect();
            let l = format!("[{}]", l.join(", "));
            match m {
                "set" => set(p("settings.asr_files"), l),
                "before" => set(p("settings.asr_files"), format!("{l} + super.asr_files")),
                _ => add(p("settings.asr_files"), l),
            }
        }
        "air" => {
            let k = s(&e["p"]);
            let full = || {
                json!({"designator": k, "name": texts.first().cloned().unwrap_or_default(), "callsign": texts.get(1).cloned().unwrap_or_default(), "country": "L"})
            };
            match m {
                "new" => set(sub("airlines", k), full().to_string()),
                "part" => set([sub("airlines", k), vec!["name".into()]].concat(), quoted(&texts.first().cloned().unwrap_or_default(), r)),
                _ => set(p("airlines"), json!({k: full()}).to_string()),
            }
        }
        "vol" => {
            let k = VOLS[num as usize];
            let full = || serde_json::to_value(volume(num as usize, &the_ring(nums[0]), nums[1] as u32, nums[2] as u32)).expect("volume");
            match m {
                "new" => set(sub("volumes", k), full().to_string()),
                "level" => vec![
                    ([sub("volumes", k), vec!["lower_level".into()]].concat(), Node::Leaf(":", nums[1].to_string())),
                    ([sub("volumes", k), vec!["upper_level".into()]].concat(), Node::Leaf(":", nums[2].to_string())),
                ],
                _ => set(p("volumes"), json!({k: full()}).to_string()),
            }
        }
        "sec" => {
            let k = SECS[num as usize];
            let vs: Vec<usize> = nums.iter().map(|x| *x as usize).collect();
            let full = || serde_json::to_value(sector(num as usize, &texts, &vs)).expect("sector");
            let names = || json!(vs.iter().map(|v| VOLS[*v]).collect::<Vec<_>>()).to_string();
            let leaf = |f: &str| [sub("sectors", k), vec![f.to_string()]].concat();
            match m {
                "new" => set(sub("sectors", k), full().to_string()),
                "vs" => set(leaf("volumes"), names()),
                "addvs" => add(leaf("volumes"), names()),
                "prio" => set(leaf("position_priority"), json!(texts).to_string()),
                _ => set(p("sectors"), json!({k: full()}).to_string()),
            }
        }
        "col" => {
            let t: String = format!("#{num:06x}").chars().map(|c| if r.below(2) == 0 { c.to_ascii_uppercase() } else { c }).collect();
            set(sub("colours.map", s(&e["p"])), quoted(&t, r))
        }
        "poss" => {
            let k = s(&e["p"]);
            let leaf = |f: &str| [sub("positions", k), vec![f.to_string()]].concat();
            let f = tok(s(&e["s"]));
            let vis = js(&position(k, &f, &nums))["visibility_points"].to_string();
            match m {
                "new" => set(sub("positions", k), js(&position(k, &f, &nums)).to_string()),
                "freq" => set(leaf("frequency"), quoted(&f, r)),
                "vis" => set(leaf("visibility_points"), vis),
                _ => add(leaf("visibility_points"), vis),
            }
        }
        "styles" => {
            let path = sub("line_styles", s(&e["p"]));
            let t = js(&dashes(&nums)).to_string();
            if m == "new" { set(path, t) } else { add(path, t) }
        }
        "cons" => {
            let k = s(&e["p"]);
            let leaf = |f: &str| [sub("departure_constraints", k), vec![f.to_string()]].concat();
            let d = tok(s(&e["s"]));
            match m {
                "new" => set(sub("departure_constraints", k), js(&constraint(&d, num, -1)).to_string()),
                "desc" => set(leaf("description"), quoted(&d, r)),
                "clb" => set(leaf("climb_level"), js(&constraint("", num, -1))["climb_level"].to_string()),
                // what is not given is none
                _ if num >= 0 && r.below(2) == 0 => set(leaf("coord_timing"), format!("{{ act_time: {num} }}")),
                _ => set(leaf("coord_timing"), js(&timing(num)).to_string()),
            }
        }
        _ => match m {
            "unknown" => set(vec![format!("nosuch{n}")], "{ a: [1, 2] }".into()),
            "deep" => set(p(&format!("settings.maps.nosuch{n}")), "null".into()),
            "hidden" => vec![(vec![format!("nosuch{n}")], Node::Leaf("::", "error 'never needed'".into()))],
            "local" => vec![(vec![format!("x{n}")], Node::Leaf("raw", format!("local x{n} = 1")))],
            _ => vec![],
        },
    }
}

struct Calls<'a> {
    dir: PathBuf,
    r: &'a mut Rnd,
    n: usize,
    /// finished files of the call, and the objects of the file being written
    files: Vec<PathBuf>,
    objs: Vec<Vec<(String, Node)>>,
    texts: Vec<String>,
}
impl Calls<'_> {
    fn add(&mut self, e: &Value) {
        self.n += 1;
        let leaves = edit(e, self.n, self.r);
        // a new object of the file where the last one says something about this already, and now and then anyway
        let mut o = self.objs.last().cloned().unwrap_or_default();
        let fits = leaves.iter().all(|(p, l)| place(&mut o, p, l));
        if fits && !self.objs.is_empty() && self.r.below(4) != 0 {
            *self.objs.last_mut().expect("object") = o;
        } else {
            let mut o = vec![];
            for (p, l) in &leaves {
                assert!(place(&mut o, p, l), "harness: edit");
            }
            self.objs.push(o);
        }
    }
    fn write(&mut self, text: &str) -> PathBuf {
        self.n += 1;
        let f = self.dir.join(format!("{}{}.jsonnet", self.r.pick(&["o", "o ", "\u{fc}'\"\\", "a%20"]), self.n));
        std::fs::write(&f, text).expect("scratch");
        self.texts.push(text.into());
        // relative to the current directory now and then
        let cwd = std::env::current_dir().expect("cwd");
        match f.strip_prefix(&cwd) {
            Ok(rel) if self.r.below(3) == 0 => rel.to_path_buf(),
            _ => f,
        }
    }
    fn end_file(&mut self) {
        let objs = std::mem::take(&mut self.objs);
        let parts: Vec<String> = objs.iter().map(|o| render(o, self.r)).collect();
        let n = self.n;
        let lib = |t: &str, k: usize| {
            let name = format!("lib{n}_{k}.libsonnet");
            std::fs::write(self.dir.join(&name), t).expect("scratch");
            format!("(import '{name}')")
        };
        let plus = if parts.is_empty() { "{}".to_string() } else { parts.join(" + ") };
        let text = match self.r.below(7) {
            0 => lib(&plus, 0),
            1 if !parts.is_empty() => parts.iter().enumerate().map(|(k, t)| lib(t, k)).collect::<Vec<_>>().join(" + "),
            2 => format!("local f(x) = {plus};\nf(1)\n"),
            3 => format!("local o = {plus};\nif 1 + 1 == 2 then o else {{}}\n"),
            4 => format!("{} + {{}}\n", plus),
            _ => plus,
        };
        let p = self.write(&text);
        self.files.push(p);
    }
    fn end_call(&mut self) -> Vec<PathBuf> {
        if !self.objs.is_empty() || self.files.is_empty() {
            self.end_file();
        }
        std::mem::take(&mut self.files)
    }
}

fn failing(k: &str, dir: &Path, c: &mut Calls) -> PathBuf {
    match k {
        "missing" => dir.join("nosuch.jsonnet"),
        "folder" => dir.to_path_buf(),
        _ => {
            let t = match k {
                "syntax" => "{ name: }",
                "type" => "{ name: 5 }",
                "error" => "{ name: error 'no' }",
                "number" => "5",
                "list" => "[]",
                "nosuper" => "{ name: super.nosuch }",
                "nofield" => "{ name: self.nosuch }",
                "null" => "{ name: null }",
                "negative" => "{ settings+: { track+: { history_dots+: { count: -1 } } } }",
                "fraction" => "{ settings+: { track+: { history_dots+: { count: 1.5 } } } }",
                "import" => "{ name: import 'nosuch.libsonnet' }",
                "assert" => "{ assert false : 'no' }",
                "colshort" => "{ colours+: { map+: { geo: '#12345' } } }",
                "collong" => "{ colours+: { map+: { geo: '#11223344' } } }",
                "colword" => "{ colours+: { map+: { sid: 'red' } } }",
                "coldigit" => "{ colours+: { map+: { sid: '#00gg00' } } }",
                "stylehalf" => "{ line_styles+: { S1: [{ length: 1 }] } }",
                "visnum" => "{ positions+: { P1+: { visibility_points: [1, 2] } } }",
                _ => panic!("harness: {k}"),
            };
            c.write(t)
        }
    }
}

// ------------------------------------------------------------ what comes of it

/// As data, sets sorted.
fn data(a: &Adaptation) -> Value {
    let mut v = serde_json::to_value(a).expect("serialise");
    if let Some(o) = v["sectors"].as_object_mut() {
        for x in o.values_mut() {
            for k in ["volumes", "departure_aerodromes", "arrival_aerodromes"] {
                if let Some(l) = x[k].as_array_mut() {
                    l.sort_by_key(ToString::to_string);
                }
            }
        }
    }
    v
}
/// Reading a number back may change its last digit.
fn close(e: &Value, o: &Value) -> Option<(String, Value, Value)> {
    match (e, o) {
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().find_map(|(k, (x, y))| close(x, y).map(|(p, x, y)| (format!("[{k}]{p}"), x, y))),
        (Value::Object(a), Value::Object(b)) if a.keys().eq(b.keys()) => a.iter().zip(b.values()).find_map(|((k, x), y)| close(x, y).map(|(p, x, y)| (format!(".{k}{p}"), x, y))),
        (Value::Number(a), Value::Number(b)) => {
            let (x, y) = (a.as_f64().unwrap_or(f64::NAN), b.as_f64().unwrap_or(f64::NAN));
            ((x - y).abs() > 1e-12 * (1.0 + x.abs())).then(|| (String::new(), e.clone(), o.clone()))
        }
        _ if e == o => None,
        _ => Some((String::new(), e.clone(), o.clone())),
    }
}
fn patch(v: &mut Value, x: &Value) {
    let st = &mut v["settings"];
    let n = |k: &str| i(&x["num"][k]);
    st["maps"]["font_size"] = json!(n("font") as f32);
    st["maps"]["layer"] = json!(n("layer") as f32);
    st["maps"]["line_styles"]["geo"]["width"] = json!(n("width"));
    st["track"]["history_dots"]["count"] = json!(n("dots"));
    st["track"]["vector"]["length"] = json!(n("length") as f32);
    st["coopans"] = x["flag"]["coopans"].clone();
    st["track"]["vector"]["enabled"] = x["flag"]["vector"].clone();
    st["track"]["history_dots"]["enabled"] = x["flag"]["dotson"].clone();
    v["maps"]["F1"]["hidden"] = x["flag"]["folder"].clone();
    for k in ["geo", "sid"] {
        v["colours"]["map"][k] = format!("#{:06x}", i(&x["col"][k])).into();
    }
    let ints = |v: &Value| arr(v).iter().map(i).collect::<Vec<_>>();
    for p in arr(&x["poss"]) {
        let k = s(&p[0]);
        v["positions"][k] = js(&position(k, &tok(s(&p[1]["freq"])), &ints(&p[1]["vis"])));
    }
    for p in arr(&x["styles"]) {
        v["line_styles"][s(&p[0])] = js(&dashes(&ints(&p[1])));
    }
    for p in arr(&x["cons"]) {
        v["departure_constraints"][s(&p[0])] = js(&constraint(&tok(s(&p[1]["desc"])), i(&p[1]["clb"]), i(&p[1]["act"])));
    }
    let st = &mut v["settings"];
    st["maps"]["auto_folder"] = json!(tok(s(&x["text"]["auto"])));
    st["ssr"]["special_use_codes"] = arr(&x["codes"]).iter().map(|p| (s(&p[0]).to_string(), p[1].clone())).collect::<Map<_, _>>().into();
    st["asr_files"] = x["files"].clone();
    v["name"] = json!(tok(s(&x["text"]["name"])));
    v["airlines"] = arr(&x["air"])
        .iter()
        .map(|p| (s(&p[0]).to_string(), json!({"designator": p[0], "name": p[1][0], "callsign": p[1][1], "country": "L"})))
        .collect::<Map<_, _>>()
        .into();
    v["volumes"] = arr(&x["vols"])
        .iter()
        .map(|p| (VOLS[i(&p[0]) as usize].to_string(), serde_json::to_value(volume(i(&p[0]) as usize, &p[1], i(&p[2]) as u32, i(&p[3]) as u32)).expect("volume")))
        .collect::<Map<_, _>>()
        .into();
    let mut only = Adaptation::default();
    for p in arr(&x["secs"]) {
        let prio: Vec<String> = arr(&p[1]).iter().map(|t| s(t).to_string()).collect();
        let vs: Vec<usize> = arr(&p[2]).iter().map(|t| i(t) as usize).collect();
        only.sectors.0.insert(SECS[i(&p[0]) as usize].into(), sector(i(&p[0]) as usize, &prio, &vs));
    }
    v["sectors"] = data(&only)["sectors"].clone();
}
/// a text with its numbers rounded
fn nums(t: &str) -> String {
    t.split_inclusive(|c: char| !(c.is_ascii_digit() || c == '.'))
        .map(|w| {
            let e = w.trim_end_matches(|c: char| !(c.is_ascii_digit() || c == '.'));
            e.parse::<f64>().map_or_else(|_| w.to_string(), |x| format!("{x:.9}{}", &w[e.len()..]))
        })
        .collect()
}
/// answers that depend on data no overlay here changes
fn elsewhere(a: &Adaptation) -> Value {
    let l = &a.locations;
    let f = l.convert_designator("FAAAA");
    let route = f.as_ref().and_then(|f| l.airways.expand_airway_segment(f, "FBBBB", "Y1", l));
    json!([
        f.is_some(),
        nums(&format!("{:?}", ["VVV", "NNN", "AAAA", "CCCC", "XXXX", "FBBBB"].map(|d| l.convert_designator(d)))),
        nums(&format!("{:?}", ["4830N01130E", "VVV090020"].map(|d| l.convert_designator(d)))),
        nums(&format!("{route:?}")),
    ])
}

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 97);
    let mut a = base(ctx, &mut r);
    let mut want = data(&a);
    let else_want = elsewhere(&a);
    let dir = ctx.dir.join("ov");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let dir = dir.canonicalize().expect("scratch");
    let mut c = Calls { dir: dir.clone(), r: &mut r, n: 0, files: vec![], objs: vec![], texts: vec![] };
    let mut checks = 0;
    macro_rules! bad {
        ($at:expr, $e:expr, $o:expr) => {
            return Report { checks, bad: Some(($at.into(), json!($e), json!($o))), input: json!(c.texts) }
        };
    }
    let mut open = false;
    macro_rules! call {
        () => {{
            let files = c.end_call();
            open = false;
            match a.clone().apply_jsonnet_overlays(files.iter()) {
                Ok(x) => a = x,
                Err(e) => bad!("call", "ok", e.to_string()),
            }
        }};
    }
    for op in arr(&case["h"]) {
        match s(&op["op"]) {
            "edit" => {
                c.add(&op["e"]);
                open = true;
            }
            "file" => c.end_file(),
            "again" => {
                if !c.objs.is_empty() {
                    c.end_file();
                }
                let f = c.files[i(&op["i"]) as usize - 1].clone();
                c.files.push(f);
            }
            "call" => call!(),
            "none" => match a.clone().apply_jsonnet_overlays(Vec::<PathBuf>::new().into_iter()) {
                Ok(x) => a = x,
                Err(e) => bad!("no overlay", "ok", e.to_string()),
            },
            "save" => {
                let t = serde_json::to_string(&a).expect("serialise");
                a = serde_json::from_str(&t).expect("deserialise");
            }
            "fail" => {
                checks += 1;
                let k = s(&op["k"]);
                let f = failing(k, &dir, &mut c);
                let mut files = c.files.clone();
                // what cannot even be read fails wherever it is
                if matches!(k, "missing" | "folder" | "syntax") {
                    let at = c.r.below(files.len() as u64 + 1) as usize;
                    files.insert(at, f);
                } else {
                    files.push(f);
                }
                if a.clone().apply_jsonnet_overlays(files.iter()).is_ok() {
                    bad!(format!("failing overlay: {k}"), "an error", "ok");
                }
            }
            x => panic!("harness: {x}"),
        }
    }
    if open {
        call!();
    }
    let x = &case["x"];
    patch(&mut want, x);
    let got = data(&a);
    checks += 40;
    if let Some((at, e, o)) = close(&want, &got) {
        bad!(at, e, o);
    }
    let o = elsewhere(&a);
    if o != else_want {
        bad!("elsewhere", else_want, o);
    }
    if let Some((at, e, o)) = answers(&a, &x["q"], &mut checks) {
        bad!(at, e, o);
    }
    Report { checks, bad: None, input: json!(c.texts) }
}
