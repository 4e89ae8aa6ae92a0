//! Spec Long.tla: lists of any length come out complete, in order and apart from each other.
use crate::util::*;
use crate::world::{World, SCT};
use crate::Report;
use geo::Point;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vatsim_parser::adaptation::locations::Fix;
use vatsim_parser::adaptation::maps::active::Active;
use vatsim_parser::adaptation::symbols::SymbolRule;
use vatsim_parser::asr::Asr;
use vatsim_parser::ese::{Ese, SidStar};
use vatsim_parser::sct::Sct;

type Lists = BTreeMap<(String, String), Vec<i64>>;

fn span(v: &Value) -> Vec<i64> {
    let (a, b) = (i(&v[0]), i(&v[1]));
    if a <= b { (a..=b).collect() } else { (b..=a).rev().collect() }
}
/// places are numbered a second of arc apart
fn deg_of(p: i64) -> (f64, f64) {
    (10.0 + p as f64 / 3600.0, 11.0 + (p % 7) as f64 / 60.0)
}
fn place(p: i64, sep: &str) -> String {
    format!("N{:03}.{:02}.{:02}.000{sep}E011.{:02}.00.000", 10 + p / 3600, p / 60 % 60, p % 60, p % 7)
}
fn at(lat: f64, lng: f64) -> i64 {
    let p = ((lat - 10.0) * 3600.0).round() as i64;
    let (a, b) = deg_of(p);
    if (a - lat).abs() < 1e-6 && (b - lng).abs() < 1e-6 { p } else { -1 }
}
/// names of elements: a letter for the kind, and the number
fn name(k: char, p: i64) -> String {
    format!("{k}{p}")
}
fn num(k: char, t: &str) -> i64 {
    t.strip_prefix(k).and_then(|x| x.parse().ok()).unwrap_or(-1)
}
fn icao(p: i64) -> String {
    let d = |q: i64| char::from(b'A' + (p / q % 26) as u8);
    format!("{}{}{}{}", d(17576), d(676), d(26), d(1))
}
fn line_of(p: i64) -> String {
    icao(p)[1..].to_string()
}
fn of_icao(t: &str) -> i64 {
    t.bytes().fold(0, |a, c| a * 26 + i64::from(c.wrapping_sub(b'A')))
}
fn type_of(p: i64) -> String {
    let d = |q: i64| char::from_digit((p / q % 36) as u32, 36).unwrap().to_ascii_uppercase();
    format!("T{}{}{}", d(1296), d(36), d(1))
}
fn of_type(t: &str) -> i64 {
    t.strip_prefix('T').and_then(|x| i64::from_str_radix(x, 36).ok()).unwrap_or(-1)
}

struct In<'a> {
    /// whether it is written and read again
    again: bool,
    ls: &'a Lists,
    nl: &'static str,
}
impl In<'_> {
    fn of<'b>(&'b self, k: &'b str) -> impl Iterator<Item = (&'b str, &'b [i64])> {
        self.ls.iter().filter(move |(q, _)| q.0 == k).map(|(q, v)| (q.1.as_str(), v.as_slice()))
    }
    fn one<'b>(&'b self, k: &'b str) -> &'b [i64] {
        self.of(k).next().map_or(&[], |x| x.1)
    }
    fn rows(&self, k: &str, f: impl Fn(i64) -> String) -> String {
        self.one(k).iter().map(|p| f(*p) + self.nl).collect()
    }
    fn join(&self, v: &[i64], sep: &str, f: impl Fn(i64) -> String) -> String {
        v.iter().map(|p| f(*p)).collect::<Vec<_>>().join(sep)
    }
}
fn put(o: &mut Lists, k: &str, n: &str, v: Vec<i64>) {
    if !v.is_empty() {
        o.entry((k.into(), n.into())).or_default().extend(v);
    }
}
type Seen = Result<Lists, String>;

fn sct(x: &In, ctx: &Ctx, r: &mut Rnd, wide: bool) -> Seen {
    let nl = x.nl;
    let mut t = String::new();
    let group = |k: &str| -> String {
        x.of(k)
            .map(|(n, v)| {
                let mut first = format!("{n:<25} ");
                v.windows(2).map(|w| std::mem::take(&mut first) + &place(w[0], " ") + " " + &place(w[1], " ") + nl).collect::<String>()
            })
            .collect()
    };
    let mut secs = vec![
        format!("[VOR]{nl}{}", x.rows("vor", |p| format!("{} 112.300 {}", name('V', p), place(p, " ")))),
        format!("[NDB]{nl}{}", x.rows("ndb", |p| format!("{} 350.0 {}", name('N', p), place(p, " ")))),
        format!("[FIXES]{nl}{}", x.rows("fix", |p| format!("{} {}", name('F', p), place(p, " ")))),
        format!("[AIRPORT]{nl}{}", x.rows("port", |p| format!("{} 118.500 {} D", icao(p), place(p, " ")))),
        format!("[LABELS]{nl}{}", x.rows("label", |p| format!("\"L {p}\" {} col", place(p, " ")))),
    ];
    for (s, k) in [("GEO", "geo"), ("SID", "sids"), ("STAR", "stars"), ("ARTCC", "artcc"), ("ARTCC LOW", "artccl"), ("ARTCC HIGH", "artcch")] {
        secs.push(format!("[{s}]{nl}{}", group(k)));
    }
    secs.push(format!("[REGIONS]{nl}{}", x.of("region").map(|(n, v)| format!("REGIONNAME {n}{nl}col {}{nl}", x.join(v, nl, |p| place(p, " ")))).collect::<String>()));
    let k = r.below(secs.len() as u64) as usize;
    secs.rotate_left(k);
    for s in secs {
        t += &s;
    }
    let mut o = Lists::new();
    let pts = |v: &[vatsim_parser::Location]| -> Vec<i64> {
        v.iter().map(|l| if let vatsim_parser::Location::Coordinate(c) = l { at(c.y(), c.x()) } else { -2 }).collect()
    };
    let text = format!("{}{t}", SCT.replace('\n', nl));
    if wide {
        // as drawn
        let a = World { sct: text.into_bytes(), ..World::default() }.load(ctx)?;
        let q = &a.sct_items;
        for (k, m) in [("geo", &q.geo), ("sids", &q.sids), ("stars", &q.stars), ("artcc", &q.artccs), ("artccl", &q.artccs_low), ("artcch", &q.artccs_high)] {
            for (n, v) in m.iter_all() {
                let ls: Vec<_> = v.iter().flat_map(|g| &g.lines).collect();
                if ls.len() != 1 {
                    return Err(format!("{k} {n}: {} lines", ls.len()));
                }
                put(&mut o, k, n, ls[0].0.iter().map(|c| at(c.y, c.x)).collect());
            }
        }
        for (n, v) in q.regions.iter_all() {
            for g in v {
                put(&mut o, "region", n, g.polygon.iter().map(|c| at(c.y, c.x)).collect());
            }
        }
        for l in q.labels.iter_all().flat_map(|(_, v)| v) {
            let p = pts(&[l.coordinate.clone()])[0];
            put(&mut o, "label", "A1", vec![if num('L', &l.name.replace(' ', "")) == p { p } else { -3 }]);
        }
        return Ok(o);
    }
    let mut f = Sct::parse(text.as_bytes()).map_err(|e| e.to_string())?;
    if x.again {
        f = Sct::parse(f.to_string().as_bytes()).map_err(|e| format!("written: {e}"))?;
    }
    let same = |p: i64, q: i64| if p == q { p } else { -3 };
    put(&mut o, "vor", "A1", f.vors.iter().map(|v| same(num('V', &v.designator), at(v.coordinate.y(), v.coordinate.x()))).collect());
    put(&mut o, "ndb", "A1", f.ndbs.iter().map(|v| same(num('N', &v.designator), at(v.coordinate.y(), v.coordinate.x()))).collect());
    put(&mut o, "fix", "A1", f.fixes.iter().map(|v| same(num('F', &v.designator), at(v.coordinate.y(), v.coordinate.x()))).collect());
    put(&mut o, "port", "A1", f.airports.iter().map(|v| same(of_icao(&v.designator), at(v.coordinate.y(), v.coordinate.x()))).collect());
    put(&mut o, "label", "A1", f.labels.iter().map(|v| same(num('L', &v.name.replace(' ', "")), pts(&[v.coordinate.clone()])[0])).collect());
    for g in &f.regions {
        put(&mut o, "region", &g.name, g.polygon.iter().map(|c| at(c.y, c.x)).collect());
    }
    let mut line = |k: &str, n: &str, g: &[vatsim_parser::sct::ColouredLines]| {
        // one group of one line
        let l = if let [g] = g { g.lines.as_slice() } else { &[] };
        put(&mut o, k, n, if let [l] = l { pts(&l.points) } else { vec![-4, g.len() as i64, l.len() as i64] });
    };
    f.geo.iter().for_each(|g| line("geo", &g.name, &g.line_groups));
    f.sids.iter().for_each(|g| line("sids", &g.name, &g.line_groups));
    f.stars.iter().for_each(|g| line("stars", &g.name, &g.line_groups));
    f.artccs.iter().for_each(|g| line("artcc", &g.name, &g.line_groups));
    f.artccs_low.iter().for_each(|g| line("artccl", &g.name, &g.line_groups));
    f.artccs_high.iter().for_each(|g| line("artcch", &g.name, &g.line_groups));
    Ok(o)
}

fn ese(x: &In, ctx: &Ctx, f: &str) -> Seen {
    let nl = x.nl;
    let mut t = format!("[POSITIONS]{nl}");
    t += &x.rows("pos", |p| format!("{}_CTR:Name {p}:{}.{:03}:{}:M:ED:CTR:::2000:2001:{}", name('P', p), 100 + p % 40, p % 1000, name('P', p), place(p, ":")));
    t += &format!("[AIRSPACE]{nl}");
    // lines of borders, and lines that are lists themselves
    for (_, v) in x.of("border") {
        for p in v {
            t += &format!("SECTORLINE:{}{nl}COORD:{}{nl}COORD:{}{nl}", name('B', *p), place(*p, ":"), place(*p + 1, ":"));
        }
    }
    for (n, v) in x.of("line") {
        t += &format!("SECTORLINE:LN{n}{nl}");
        for p in v {
            t += &format!("COORD:{}{nl}", place(*p, ":"));
        }
    }
    for n in ["A1", "B2"] {
        let get = |k: &str| x.ls.get(&(k.into(), n.into()));
        t += &format!("SECTOR:LS{n}:0:1000{nl}OWNER:X{nl}BORDER:LN{n}{nl}SECTOR:S{n}:0:1000{nl}");
        for (k, w, c) in [("owner", "OWNER", 'O'), ("border", "BORDER", 'B'), ("dep", "DEPAPT", 'D'), ("arr", "ARRAPT", 'A')] {
            if let Some(v) = get(k) {
                t += &format!("{w}:{}{nl}", x.join(v, ":", |p| name(c, p)));
            }
        }
        for p in get("active").into_iter().flatten() {
            t += &format!("ACTIVE:{}:{:02}{nl}", name('R', *p), p % 37);
        }
    }
    for p in x.one("volume") {
        t += &format!("SECTORLINE:V{p}{nl}COORD:{}{nl}COORD:{}{nl}COORD:{}{nl}COORD:{0}{nl}SECTOR:V{p}:{}:{}{nl}OWNER:{}{nl}BORDER:V{p}{nl}",
            place(7 * p, ":"), place(7 * p + 6, ":"), place(7 * p + 7, ":"), p, p + 1, name('O', *p));
    }
    for (k, w, c) in [("cop", "COPX", 'C'), ("fircop", "FIR_COPX", 'G')] {
        t += &x.rows(k, |p| {
            let (u, d) = if p % 2 == 0 { (format!("{}", 100 * p), "*".into()) } else { ("*".into(), format!("{}", 100 * p)) };
            format!("{w}:*:*:{}:*:*:FROM:TO:{u}:{d}:text {p}", name(c, p))
        });
    }
    t += &format!("[SIDSSTARS]{nl}");
    for (k, w) in [("sidw", "SID"), ("starw", "STAR")] {
        for (n, v) in x.of(k) {
            t += &format!("{w}:EDDM:26L:{n}:{}{nl}", x.join(v, " ", |p| name('F', p)));
        }
    }
    let mut o = Lists::new();
    if f == "route" || f == "volume" || f == "cop" || f == "pos" {
        let fixes: String = x.ls.values().flatten().map(|p| format!("{} {}{nl}", name('F', *p), place(*p, " "))).collect();
        let a = World { ese: t.clone().into_bytes(), sct: format!("{}[FIXES]{nl}{fixes}", SCT.replace('\n', nl)).into_bytes(), ..World::default() }.load(ctx)?;
        for (k, n, v) in a.locations.sids.values().flat_map(|m| m.flat_iter()).map(|(n, q)| ("sidw", n, &q.waypoints)).chain(a.locations.stars.values().flat_map(|m| m.flat_iter()).map(|(n, q)| ("starw", n, &q.waypoints))) {
            put(&mut o, k, n, v.iter().map(|w| if num('F', &w.designator) == at(w.coordinate.y(), w.coordinate.x()) { num('F', &w.designator) } else { -3 }).collect());
        }
        for (id, q) in &a.positions {
            let p = num('P', id);
            let ok = q.id == *id && q.name == format!("{id}_CTR") && matches!(q.visibility_points.as_slice(), [c] if at(c.y(), c.x()) == p);
            put(&mut o, "pos", "A1", vec![if ok { p } else { -3 }]);
        }
        for (c, even) in a.departure_constraints.values().map(|c| (c, 0)).chain(a.destination_constraints.values().map(|c| (c, 1))) {
            let w = c.fix.as_deref().unwrap_or("");
            let (k, l) = if w.starts_with('C') { ("cop", 'C') } else { ("fircop", 'G') };
            let p = num(l, w);
            let lvl = if even == 0 { c.climb_level } else { c.descent_level };
            put(&mut o, k, "A1", vec![if p % 2 == even && lvl == Some(100 * p as u32) && c.description == format!("text {p}") { p } else { -3 }]);
        }
        if f == "volume" {
            for (id, v) in &a.volumes {
                let p = num('V', id);
                let (lat, lng) = [0, 6, 7].iter().map(|k| deg_of(7 * p + k)).fold((0.0, 0.0), |s, q| (s.0 + q.0 / 3.0, s.1 + q.1 / 3.0));
                let q = Point::new(lng, lat);
                let lvl = p as f32 + 0.5;
                let found = a.find_sector(q, lvl) == Some(id.as_str()) && a.find_sector(q, p as f32 - 0.5) != Some(id.as_str()) && a.volumes_at(q).any(|(i, w)| i == id && w.id == *id);
                let sec = a.sectors.0.get(id).is_some_and(|s| s.volumes.len() == 1 && s.volumes.contains(id) && s.position_priority == [name('O', p)]);
                put(&mut o, "volume", "A1", vec![if found && sec && i64::from(v.lower_level) == p { p } else { -3 }]);
            }
        }
        return Ok(o);
    }
    let e = Ese::parse(t.as_bytes()).map_err(|e| e.to_string())?;
    for (id, q) in &e.sectors {
        if let Some(n) = id.strip_prefix("LS") {
            put(&mut o, "line", n, q.border.iter().flat_map(|l| l.points.0.iter().map(|c| at(c.y, c.x))).collect());
        } else if let Some(n) = id.strip_prefix('S') {
            put(&mut o, "border", n, q.border.iter().map(|l| match l.points.0.as_slice() {
                [a, b] if at(a.y, a.x) + 1 == at(b.y, b.x) => at(a.y, a.x),
                _ => -3,
            }).collect());
            put(&mut o, "owner", n, q.owner_priority.iter().map(|t| num('O', t)).collect());
            put(&mut o, "dep", n, q.departure_airports.iter().map(|t| num('D', t)).collect());
            put(&mut o, "arr", n, q.arrival_airports.iter().map(|t| num('A', t)).collect());
            put(&mut o, "active", n, q.runway_filter.iter().map(|w| {
                let p = num('R', &w.icao);
                if w.designator == format!("{:02}", p % 37) { p } else { -3 }
            }).collect());
        }
    }
    for c in &e.constraints {
        let w = c.fix.as_deref().unwrap_or("");
        put(&mut o, if w.starts_with('C') { "cop" } else { "fircop" }, "A1", vec![w[1..].parse().unwrap_or(-1)]);
    }
    for q in &e.sids_stars {
        let (k, n, v) = match q {
            SidStar::Sid(q) => ("sidw", &q.name, &q.waypoints),
            SidStar::Star(q) => ("starw", &q.name, &q.waypoints),
        };
        put(&mut o, k, n, v.iter().map(|w| num('F', w)).collect());
    }
    Ok(o)
}

fn maps(x: &In, ctx: &Ctx, f: &str) -> Seen {
    let nl = x.nl;
    let mut t = format!("COLORDEF:Own:1:2:3{nl}");
    let mut sym = String::new();
    for n in ["A1", "B2"] {
        let get = |k: &str| x.ls.get(&(k.into(), n.into()));
        let names = |k: &str, c: char| get(k).map_or("*".to_string(), |v| x.join(v, ",", |p| name(c, p)));
        t += &format!("MAP:{n}{nl}FOLDER:F{n}{nl}COLOR:Own{nl}");
        for (k, w) in [("coordline", "COORDLINE"), ("coordpoly", "COORDPOLY:50")] {
            if let Some(v) = get(k) {
                t += &format!("COORD:{}{nl}{w}{nl}", x.join(v, &format!("{nl}COORD:"), |p| place(p, ":")));
            }
        }
        if let Some(v) = get("mapline") {
            for w in v.windows(2) {
                t += &format!("LINE:{}:{}{nl}", place(w[0], ":"), place(w[1], ":"));
            }
        }
        for p in get("symbol").into_iter().flatten() {
            t += &format!("SYMBOL:{}:{}{nl}", name('Y', *p), place(*p, ":"));
        }
        for p in get("text").into_iter().flatten() {
            t += &format!("TEXT:{}:text {p}{nl}", place(*p, ":"));
        }
        if get("own").or(get("ownex")).or(get("online")).is_some() {
            t += &format!("ACTIVE:ID:{}:{}:{}:*{nl}", names("own", 'P'), names("ownex", 'P'), names("online", 'P'));
        }
        for (k, w) in [("area", "AREA:"), ("aup", "AUP:"), ("notam", "NOTAM:EDMM:")] {
            if get(k).is_some() {
                t += &format!("ACTIVE:{w}{}{nl}", names(k, 'Z'));
            }
        }
        if get("rwyarr").or(get("rwydep")).is_some() {
            let rw = |k: &str| get(k).map_or("*".to_string(), |v| x.join(v, ",", |p| format!("{}{:02}", icao(p), p % 37)));
            t += &format!("ACTIVE:RWY:ARR:{}:DEP:{}{nl}", rw("rwyarr"), rw("rwydep"));
        }
        for (j, p) in get("rules").into_iter().flatten().enumerate() {
            t += &format!("{}ACTIVE:MAP:=:F:{}{nl}", if j % 3 == 2 { "AND_" } else { "" }, name('M', *p)).replace("=:F:", "=:F\\");
        }
        if let Some(v) = get("shape") {
            sym += &format!("SYMBOL:{n}{nl}");
            for p in v {
                sym += &format!("LINETO:{}:{}{nl}", p, p % 7);
            }
        }
    }
    for p in x.one("folder") {
        t += &format!("MAP:Same{nl}FOLDER:One{nl}COLOR:Own{nl}TEXT:{}:text {p}{nl}", place(*p, ":"));
    }
    sym += &x.rows("symbols", |p| format!("SYMBOL:{}{nl}MOVETO:{p}:1", name('Y', p)));
    if f == "symbols" && sym.is_empty() {
        sym = format!("SYMBOL:Other{nl}MOVETO:1:1{nl}");
    }
    let w = World { ts_maps: Some(t.into_bytes()), ts_symbols: (f == "symbols").then(|| sym.into_bytes()), ..World::default() };
    let a = w.load(ctx)?;
    let mut o = Lists::new();
    if f == "symbols" {
        for p in x.one("symbols") {
            let ok = a.symbols.get(&name('Y', *p)).is_some_and(|v| matches!(v, [SymbolRule::Move((x, y))] if *x as i64 == *p && *y as i64 == 1));
            put(&mut o, "symbols", "A1", vec![if ok { *p } else { -3 }]);
        }
        for (n, _) in x.of("shape") {
            put(&mut o, "shape", n, a.symbols.get(n).into_iter().flatten().map(|q| match q {
                SymbolRule::Line((x, y)) if *y as i64 == *x as i64 % 7 => *x as i64,
                _ => -3,
            }).collect());
        }
        return Ok(o);
    }
    for (fname, folder) in &a.maps {
        for (n, m) in &folder.maps {
            if fname == "One" {
                // the n-th map of the name is the n-th of the file
                let k = if n == "Same" { 1 } else { n.strip_prefix("Same_").and_then(|k| k.parse().ok()).unwrap_or(0) };
                let l = m.map_groups.iter().flat_map(|g| &g.labels).collect::<Vec<_>>();
                let p = if let [l] = l.as_slice() { at(l.coordinate.y(), l.coordinate.x()) } else { -5 };
                put(&mut o, "#", &format!("{k:09}"), vec![p]);
                continue;
            }
            for g in &m.map_groups {
                for l in &g.lines.0 {
                    let v: Vec<i64> = l.0.iter().map(|c| at(c.y, c.x)).collect();
                    let k = if x.ls.get(&("coordline".into(), n.clone())) == Some(&v) { "coordline" } else { "mapline" };
                    put(&mut o, k, n, v);
                }
                for p in &g.polygons {
                    put(&mut o, "coordpoly", n, p.exterior().0.iter().map(|c| at(c.y, c.x)).collect());
                }
                put(&mut o, "symbol", n, g.symbols.iter().map(|q| if num('Y', &q.name) == at(q.coordinate.y(), q.coordinate.x()) { num('Y', &q.name) } else { -3 }).collect());
                put(&mut o, "text", n, g.labels.iter().map(|q| if q.text == format!("text {}", at(q.coordinate.y(), q.coordinate.x())) { at(q.coordinate.y(), q.coordinate.x()) } else { -3 }).collect());
            }
            let many = |v: &Option<Vec<String>>, c: char| v.iter().flatten().map(|t| num(c, t)).collect::<Vec<_>>();
            let rw = |v: &Option<Vec<vatsim_parser::adaptation::maps::active::RunwayIdentifier>>| -> Vec<i64> {
                v.iter().flatten().map(|q| if q.designator == format!("{:02}", of_icao(&q.icao) % 37) { of_icao(&q.icao) } else { -3 }).collect()
            };
            let mut j = 0;
            for (alt, and) in m.active.iter().flat_map(|g| g.iter().enumerate().map(|(k, a)| (a, k))) {
                match alt {
                    Active::Id(q) => {
                        put(&mut o, "own", n, many(&q.own, 'P'));
                        put(&mut o, "ownex", n, many(&q.own_excludes, 'P'));
                        put(&mut o, "online", n, many(&q.online, 'P'));
                    }
                    Active::Area(q) => put(&mut o, "area", n, many(&Some(q.areas.clone()), 'Z')),
                    Active::Aup(q) => put(&mut o, "aup", n, many(&Some(q.clone()), 'Z')),
                    Active::Notam(_, q) => put(&mut o, "notam", n, many(&Some(q.clone()), 'Z')),
                    Active::Runway(q) => {
                        put(&mut o, "rwyarr", n, rw(&q.arrival));
                        put(&mut o, "rwydep", n, rw(&q.departure));
                    }
                    Active::Map(_, _, t) => {
                        put(&mut o, "rules", n, vec![if (j % 3 == 2) == (and > 0) { num('M', t) } else { -3 }]);
                        j += 1;
                    }
                    _ => put(&mut o, "other", n, vec![0]),
                }
            }
        }
    }
    // in the order of their names, which must be all from the first on
    let all: Vec<_> = o.iter().filter(|(k, _)| k.0 == "#").map(|(k, v)| (k.1.parse::<usize>().unwrap_or(0), v.clone())).collect();
    o.retain(|k, _| k.0 != "#");
    for (j, (k, v)) in all.into_iter().enumerate() {
        put(&mut o, "folder", "A1", if k == j + 1 && v.len() == 1 { v } else { vec![-6] });
    }
    Ok(o)
}

fn lists(x: &In, r: &mut Rnd) -> Seen {
    let mut o = Lists::new();
    let dec = |p: i64| deg_of(p);
    let same = |a: i64, b: i64| if a == b { a } else { -3 };
    let t = x.rows("aircraft", |p| format!("{}\tMLJ2J\tMAKER\tNAME {p}", type_of(p)).replace("MLJ2J", "ML2J"));
    if !t.is_empty() {
        let m = vatsim_parser::icao_aircraft::parse_aircraft(t.as_bytes()).map_err(|e| e.to_string())?;
        put(&mut o, "aircraft", "A1", m.0.iter().map(|(k, a)| if a.name == format!("NAME {}", of_type(k)) && a.designator == *k { of_type(k) } else { -3 }).collect());
    }
    let t = x.rows("airline", |p| format!("{}\tName {p}\tCALL {p}\tCOUNTRY", line_of(p)));
    if !t.is_empty() {
        let m = vatsim_parser::icao_airlines::parse_airlines(t.as_bytes()).map_err(|e| e.to_string())?;
        put(&mut o, "airline", "A1", m.iter().map(|(k, a)| if a.name == format!("Name {}", of_icao(k)) && a.callsign == format!("CALL {}", of_icao(k)) { of_icao(k) } else { -3 }).collect());
    }
    let t = x.rows("icao", |p| format!("{}\tName {p}\tCountry {p}", icao(p)));
    if !t.is_empty() {
        let m = vatsim_parser::icao_airports::parse_airports(t.as_bytes()).map_err(|e| e.to_string())?;
        put(&mut o, "icao", "A1", m.iter().map(|(k, a)| if a.name == format!("Name {}", of_icao(k)) && a.country == format!("Country {}", of_icao(k)) { of_icao(k) } else { -3 }).collect());
    }
    let t = x.rows("navdata", |p| format!("{}    {:.8}    {:.8}    Name {p}", icao(p), dec(p).0, dec(p).1));
    if !t.is_empty() {
        let m = vatsim_parser::navdata_airports::parse_navdata_airports(t.as_bytes()).map_err(|e| e.to_string())?;
        put(&mut o, "navdata", "A1", m.iter().map(|(k, a)| same(of_icao(k), at(a.location.y(), a.location.x()))).collect());
    }
    let t = x.rows("isec", |p| format!("{}\t{:.8}\t{:.8}\t15", name('F', p), dec(p).0, dec(p).1));
    if !t.is_empty() {
        let mut m = vatsim_parser::isec::parse_isec_txt(t.as_bytes()).map_err(|e| e.to_string())?;
        if r.below(2) == 0 {
            m = vatsim_parser::isec::parse_isec_txt(m.to_string().as_bytes()).map_err(|e| e.to_string())?;
        }
        put(&mut o, "isec", "A1", m.flat_iter().map(|(k, a)| same(num('F', k), at((a.coordinate.y() * 3600.0).round() / 3600.0, (a.coordinate.x() * 60.0).round() / 60.0))).collect());
    }
    Ok(o)
}

fn asr(x: &In) -> Seen {
    let nl = x.nl;
    let mut t = format!("DisplayTypeName:Standard ES radar screen{nl}");
    t += &x.rows("asrfix", |p| format!("Fixes:{}:{}", name('F', p), if p % 2 == 0 { "name" } else { "symbol" }));
    t += &x.rows("asrgeo", |p| format!("Geo:Geo {p}:"));
    t += &x.rows("asrtext", |p| format!("Free Text:G{}\\text {p}:freetext", p % 5));
    t += &x.rows("asrplug", |p| format!("PLUGIN:P{}:Key {p}:Value {p}", p % 9));
    let a = Asr::parse(t.as_bytes()).map_err(|e| e.to_string())?;
    let mut o = Lists::new();
    put(&mut o, "asrfix", "A1", a.map.fixes.iter().map(|(n, k)| if format!("{k:?}").to_lowercase().contains(if num('F', n) % 2 == 0 { "name" } else { "symbol" }) { num('F', n) } else { -3 }).collect());
    put(&mut o, "asrgeo", "A1", a.map.geo.iter().map(|n| num('o', n.strip_prefix("Ge").unwrap_or("").replace(' ', "").as_str())).collect());
    put(&mut o, "asrtext", "A1", a.map.free_text.iter().map(|(g, n)| {
        let p = n.strip_prefix("text ").and_then(|n| n.parse().ok()).unwrap_or(-1);
        if *g == format!("G{}", p % 5) { p } else { -3 }
    }).collect());
    let j = serde_json::to_value(&a.plugin_settings).map_err(|e| e.to_string())?;
    let mut ps = vec![];
    for p in x.one("asrplug") {
        ps.push(if a.plugin_settings.0.get(&(format!("P{}", p % 9), format!("Key {p}"))).is_some_and(|v| *v == format!("Value {p}")) { *p } else { -3 });
    }
    if a.plugin_settings.0.len() != x.one("asrplug").len() {
        return Err(format!("{} plugin settings: {}", a.plugin_settings.0.len(), j.to_string().chars().take(200).collect::<String>()));
    }
    put(&mut o, "asrplug", "A1", ps);
    Ok(o)
}

fn squawks(case: &Value, r: &mut Rnd) -> Seen {
    let mut list = vec![];
    for op in arr(&case["h"]) {
        let v = span(&op["r"]);
        if r.below(2) == 0 {
            let (a, z) = (v.iter().min().unwrap(), v.iter().max().unwrap());
            list.push(json!({"range": {"start": format!("{a:04o}"), "end": format!("{z:04o}")}, "message": "M", "color": "#000000"}));
        } else {
            list.extend(v.iter().map(|p| json!({"code": format!("{p:04o}"), "message": "M", "color": "#000000"})));
        }
    }
    let file = json!({"NonDiscreteColor": "#123456", "NonDiscreteMessage": "ND", "NonDiscrete": [], "Squawks": list}).to_string();
    let q = vatsim_parser::squawks::parse_squawks_json(file.as_bytes()).map_err(|e| e.to_string())?;
    let c = vatsim_parser::adaptation::settings::SsrSettings::from_squawks_json(&q).special_use_codes;
    let mut o = Lists::new();
    put(&mut o, "squawk", "A1", c.iter().map(|(k, m)| if k.len() == 4 && m == "M" { i64::from_str_radix(k, 8).unwrap_or(-1) } else { -3 }).collect());
    Ok(o)
}

fn airway(x: &In) -> Seen {
    let row = |p: i64| format!("{:.6}\t{:.6}", 10.0 + p as f64 / 3600.0, 11.0 + (p % 7) as f64 / 60.0);
    let mut t = String::new();
    for (n, v) in x.of("awy") {
        for (j, p) in v.iter().enumerate() {
            let nb = |q: Option<&i64>| q.map_or("\t\t\t\t\tN".to_string(), |q| format!("\t{}\t{}\t{:05}\tY", name('F', *q), row(*q), q % 400 * 100));
            t += &format!("{}\t{}\t14\t{n}\tB{}{}\n", name('F', *p), row(*p), nb(j.checked_sub(1).and_then(|j| v.get(j))), nb(v.get(j + 1)));
        }
    }
    let g = vatsim_parser::airway::parse_airway_txt(t.as_bytes()).map_err(|e| e.to_string())?;
    let loc = vatsim_parser::adaptation::locations::Locations::default();
    let mut o = Lists::new();
    for (n, v) in x.of("awy") {
        let fix = |p: i64| {
            let q: Vec<f64> = row(p).split('\t').map(|t| t.parse().unwrap()).collect();
            Fix { designator: name('F', p), coordinate: Point::new(q[1], q[0]) }
        };
        // there and back
        let (a, z) = (v[0], v[v.len() - 1]);
        let way = |a: i64, z: i64| -> Vec<i64> {
            let mut l = vec![a];
            l.extend(g.expand_airway_segment(&fix(a), &name('F', z), n, &loc).into_iter().flatten().map(|s| num('F', &s.0.fix.designator)));
            l
        };
        let mut back = way(z, a);
        back.reverse();
        let there = way(a, z);
        put(&mut o, "awy", n, if there == back { there } else { vec![-3, there.len() as i64, back.len() as i64] });
    }
    Ok(o)
}

/// results that have no order of their own
const SETS: [&str; 10] = ["aircraft", "airline", "icao", "navdata", "isec", "squawk", "symbols", "volume", "pos", "asrplug"];

pub fn run(case: &Value, ctx: &Ctx) -> Report {
    let mut r = Rnd::new(ctx, 91);
    let f = s(&case["f"]);
    let mut ls = Lists::new();
    for op in arr(&case["h"]) {
        ls.entry((s(&op["k"]).into(), s(&op["n"]).into())).or_default().extend(span(&op["r"]));
    }
    let q = In { ls: &ls, again: f == "sct" && r.below(2) == 0, nl: if r.below(3) == 0 { "\r\n" } else { "\n" } };
    let seen = std::thread::scope(|sc| {
        // on the stack any thread has
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, || match f {
            "sct" | "lines" => sct(&q, ctx, &mut r, false),
            "region" => sct(&q, ctx, &mut r, true),
            "airspace" | "volume" | "pos" | "cop" => ese(&q, ctx, f),
            "route" => ese(&q, ctx, if r.below(2) == 0 { "route" } else { "" }),
            "map" | "active" | "folder" | "symbols" => maps(&q, ctx, f),
            "lists" => lists(&q, &mut r),
            "asr" => asr(&q),
            "squawk" => squawks(case, &mut r),
            "awy" => airway(&q),
            f => panic!("harness: focus {f}"),
        });
        h.expect("thread").join().unwrap_or_else(|e| Err(format!("panic: {}", crate::util::panic_text(&e))))
    });
    let input = case["h"].clone();
    let mut seen = match seen {
        Ok(o) => o,
        Err(e) => return Report { checks: 1, bad: Some(("read".into(), json!("ok"), json!(e.lines().take(8).collect::<Vec<_>>()))), input },
    };
    let mut checks = 0;
    for x in arr(&case["x"]) {
        let (k, n) = (s(&x["k"]), s(&x["n"]));
        let mut want: Vec<i64> = arr(&x["l"]).iter().flat_map(span).collect();
        let mut got = seen.remove(&(k.into(), n.into())).unwrap_or_default();
        // polygons are closed
        if k == "coordpoly" {
            if want.first() != want.last() {
                want.push(want[0]);
            }
        }
        if SETS.contains(&k) || f == "cop" || f == "pos" || (f == "region" && k == "label") || (q.again && ["vor", "ndb", "fix", "port", "label"].contains(&k)) {
            want.sort_unstable();
            got.sort_unstable();
        }
        checks += want.len();
        if want != got {
            let at = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            let part = |v: &[i64]| json!({"length": v.len(), "from": at, "elements": v.iter().skip(at).take(5).collect::<Vec<_>>()});
            return Report { checks, bad: Some((format!("{k} {n}"), part(&want), part(&got))), input };
        }
    }
    let bad = (!seen.is_empty()).then(|| ("lists".to_string(), json!([]), json!(seen.keys().collect::<Vec<_>>())));
    Report { checks, bad, input }
}
