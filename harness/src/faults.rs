//! Spec Faults.tla: whatever a file has become, reading it ends with a result or an error.
use crate::util::*;
use crate::world::World;
use crate::Report;
use geo::{Line, Point};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::settings::SsrSettings;
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::airway::parse_airway_txt;
use vatsim_parser::asr::Asr;
use vatsim_parser::ese::Ese;
use vatsim_parser::icao_aircraft::parse_aircraft;
use vatsim_parser::icao_airlines::parse_airlines;
use vatsim_parser::icao_airports::parse_airports;
use vatsim_parser::isec::parse_isec_txt;
use vatsim_parser::navdata_airports::parse_navdata_airports;
use vatsim_parser::prf::Prf;
use vatsim_parser::sct::Sct;
use vatsim_parser::squawks::parse_squawks_json;
use vatsim_parser::symbology::Symbology;
use vatsim_parser::topsky::Topsky;
use vatsim_parser::Location;

const RAW: char = '\u{e0ff}';

/// The file's bytes.
fn bytes(lines: &[Value], r: &mut Rnd) -> Vec<u8> {
    let nl = if r.below(3) == 0 { "\r\n" } else { "\n" };
    let mut t = String::new();
    for l in lines {
        let l = tok(s(l))
            .replace("{D}", "\u{661}")
            .replace("{DD}", "\u{ff11}\u{ff12}")
            .replace("{EM}", "\u{1f6e9}")
            .replace("{9x400}", &"9".repeat(400))
            .replace("{x5000}", &"x".repeat(5000))
            .replace("{TAB}", "\t")
            .replace("{00}", "\0")
            .replace("{BOM}", "\u{feff}")
            .replace("{NL}", "\n")
            .replace("{CRLF}", "\r\n")
            .replace("{CR}", "\r")
            .replace("{FF}", &RAW.to_string());
        let (n, l) = l.strip_prefix("{MANY}").map_or((1, l.as_str()), |l| (2000, l));
        for _ in 0..n {
            t += &l.replace("{MANY}", "").replace("{EOF}", "");
            if !l.ends_with("{EOF}") {
                t += nl;
            }
        }
    }
    let b = encode(&t, if t.contains(RAW) { 1 } else { r.next() });
    if !t.contains(RAW) {
        return b;
    }
    let raw = RAW.to_string().into_bytes();
    let (mut o, mut k) = (vec![], 0);
    while k < b.len() {
        if b[k..].starts_with(&raw) {
            o.push(0xff);
            k += raw.len();
        } else {
            o.push(b[k]);
            k += 1;
        }
    }
    o
}
/// Everything that can be asked of a loaded adaptation.
fn ask(a: &mut Adaptation) -> usize {
    let mut n = 0;
    let xs = [48.5, 49.0, 0.0, -90.0, 180.0, 400.0, f64::NAN, f64::INFINITY];
    for x in xs {
        for y in [11.0, f64::NAN, -1e300] {
            for l in [0.0, 10500.0, f32::NAN, f32::MAX] {
                n += usize::from(a.find_sector(Point::new(y, x), l).is_some());
            }
            n += a.volumes_at(Point::new(y, x)).count();
            n += a.volumes_near_line(Line::new((y, x), (x, y))).count();
        }
    }
    a.rebuild_sector_index();
    for d in ["FAAAA", "VVV", "AAAA", "AAAA08L", "AAAA1", "VVV090020", "4830N01130E", "", "\u{661}\u{661}", "\u{fc}\u{fc}\u{fc}\u{fc}\u{fc}"] {
        n += usize::from(a.locations.contains_designator(d));
        if let Some(f) = a.locations.convert_designator(d) {
            for to in ["CCCC1", "BBBB1", "FAAAA", ""] {
                for w in ["Y1", "Z9", ""] {
                    n += a.locations.airways.expand_airway_segment(&f, to, w, &a.locations).map_or(0, |r| r.len());
                }
            }
        }
    }
    n += serde_json::to_string(a).map_or(0, |t| t.len());
    n += format!("{a:?}").len();
    n
}

thread_local! {
    static PLACES: RefCell<HashMap<usize, Adaptation>> = RefCell::new(HashMap::new());
}
fn places(lines: &[Value], ctx: &Ctx) -> usize {
    PLACES.with(|p| {
        let mut p = p.borrow_mut();
        let a = p.entry(0).or_insert_with(|| {
            let mut w = World::default();
            w.sct = b"[INFO]\nW\nA_CTR\nAAAA\nN048.00.00.000\nE011.00.00.000\n60\n39\n-1.0\n1\n[VOR]\nVVV 112.3 N048.00.00.000 E011.00.00.000\n[FIXES]\nFAAAA N048.00.00.000 E011.00.00.000\n[AIRPORT]\nAAAA 118.7 N048.00.00.000 E011.00.00.000 D\n[RUNWAY]\n08L 26R 080 260 N048.00.00.000 E011.00.00.000 N048.01.00.000 E011.01.00.000 AAAA\n".to_vec();
            w.load(ctx).expect("harness: base world")
        });
        let mut r = Rnd::new(ctx, 3);
        let mut n = 0;
        for l in String::from_utf8_lossy(&bytes(lines, &mut r)).lines() {
            for t in [l, l.trim()] {
                n += usize::from(a.locations.convert_designator(t).is_some());
                n += usize::from(a.locations.contains_designator(t));
                n += usize::from(a.locations.convert_location(&Location::Fix(t.to_string())).is_some());
            }
            if let Ok(k) = l.parse::<i32>() {
                n += usize::from(Colour::from_euroscope(k).is_ok_and(|c| c.to_euroscope() == k));
            }
        }
        n
    })
}

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let f = s(&case["f"]);
    let mut r = Rnd::new(ctx, 3);
    let lines = arr(&case["d"]);
    let text = bytes(&lines, &mut r);
    let input = json!(String::from_utf8_lossy(&text).chars().take(4000).collect::<String>());
    let mut checks = 1;
    let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| reading(f, &text, &lines, ctx, &mut checks)));
    let bad = match (o, s(&case["must"])) {
        (Err(p), _) => Some((format!("{f}: panic"), json!("a result or an error"), json!(panic_text(&p)))),
        (Ok(Err(e)), "result") => Some((format!("{f}: as it is"), json!("a result"), json!(e))),
        (Ok(Ok(())), "error") => Some((format!("{f}: {}", case["h"][0]), json!("an error"), json!("a result"))),
        _ => None,
    };
    Report { checks, bad, input }
}

/// What reading the file itself says; then everything that uses it.
fn reading(f: &str, text: &[u8], lines: &[Value], ctx: &Ctx, checks: &mut usize) -> Result<(), String> {
    fn st<T, E: std::fmt::Display>(x: Result<T, E>) -> Result<(), String> {
        x.map(|_| ()).map_err(|e| e.to_string())
    }
    let mut w = World::default();
    let dir = ctx.dir.join("w");
    let o = match f {
        "sct" => {
            let p = Sct::parse(text);
            if let Ok(p) = &p {
                *checks += usize::from(Sct::parse(p.to_string().as_bytes()).is_ok());
            }
            w.sct = text.to_vec();
            st(p)
        }
        "ese" | "airspace" => {
            w.ese = text.to_vec();
            st(Ese::parse(text))
        }
        "airway" => {
            w.airway = text.to_vec();
            st(parse_airway_txt(text))
        }
        "isec" => return st(parse_isec_txt(text).map(|v| *checks += v.len())),
        "asr" => return st(Asr::parse(text)),
        "symbology" => {
            w.symbology = text.to_vec();
            st(Symbology::parse(text))
        }
        "aircraft" => {
            w.aircraft = text.to_vec();
            st(parse_aircraft(text))
        }
        "airlines" => {
            w.airlines = text.to_vec();
            st(parse_airlines(text))
        }
        "airports" => {
            w.airports = text.to_vec();
            st(parse_airports(text))
        }
        "navdata" => {
            w.navdata = text.to_vec();
            st(parse_navdata_airports(text))
        }
        "squawks" => {
            w.squawks = Some(text.to_vec());
            let p = parse_squawks_json(text);
            if let Ok(p) = &p {
                *checks += SsrSettings::from_squawks_json(p).special_use_codes.len();
            }
            st(p)
        }
        "maps" | "elements" => {
            w.ts_maps = Some(text.to_vec());
            Ok(())
        }
        "symbols" => {
            w.ts_symbols = Some(text.to_vec());
            Ok(())
        }
        "settings" => {
            w.ts_settings = Some(text.to_vec());
            Ok(())
        }
        "places" => {
            *checks += places(lines, ctx);
            return Ok(());
        }
        _ => Ok(()),
    };
    let prf = w.write(&ctx.dir);
    let o = if matches!(f, "maps" | "elements" | "symbols" | "settings") { st(Topsky::parse(&dir.join("Plug"))) } else { o };
    let loaded = match f {
        "prf" => {
            std::fs::write(&prf, text).expect("scratch");
            let p = Prf::parse(&prf, text);
            let o = st(p.as_ref());
            let _ = p.map(|p| Adaptation::from_prf(&p)).map(|a| a.map(|mut a| *checks += ask(&mut a)));
            return o;
        }
        "toml" => {
            std::fs::write(dir.join("w.toml"), text).expect("scratch");
            std::fs::write(dir.join("o.jsonnet"), "{}").expect("scratch");
            Adaptation::from_adaptation_toml(&dir.join("w.toml"))
        }
        "overlay" => {
            let p = dir.join("o.jsonnet");
            std::fs::write(&p, text).expect("scratch");
            let prf = Prf::parse(&prf, &std::fs::read(&prf).expect("scratch")).expect("harness: profile");
            Adaptation::from_prf_with_overlays(&prf, [p].iter())
        }
        _ => Prf::parse(&prf, &std::fs::read(&prf).expect("scratch"))
            .map_err(|e| panic!("harness: profile {e}"))
            .and_then(|p| Adaptation::from_prf(&p)),
    };
    match (loaded, f) {
        (Ok(mut a), _) => {
            *checks += ask(&mut a);
            o
        }
        (Err(e), "toml" | "overlay") => Err(e.to_string()),
        _ => o,
    }
}
