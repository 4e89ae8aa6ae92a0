//! A complete profile on disk, of which a case replaces some files.
use crate::util::*;
use std::path::{Path, PathBuf};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::prf::Prf;

pub const SYMBOLOGY: &str = "SYMBOLOGY\nSYMBOLSIZE\nOther:nothing:1:3.5:0:0:7\nSYMBOL:0\nSYMBOLITEM:MOVETO -3 -3\nm_ClipArea:5\nEND\n";
pub const SCT: &str = "[INFO]\nWorld\nAAAA_CTR\nAAAA\nN048.00.00.000\nE011.00.00.000\n60\n39\n-1.0\n1\n";
pub const ESE: &str = "[POSITIONS]\n[AIRSPACE]\n[SIDSSTARS]\n";

#[derive(Clone)]
pub struct World {
    pub sct: Vec<u8>,
    pub ese: Vec<u8>,
    pub airway: Vec<u8>,
    pub airports: Vec<u8>,
    pub airlines: Vec<u8>,
    pub aircraft: Vec<u8>,
    pub navdata: Vec<u8>,
    pub symbology: Vec<u8>,
    pub squawks: Option<Vec<u8>>,
    /// TopSky settings, symbols and maps; no plugin at all if none is given
    pub ts_settings: Option<Vec<u8>>,
    pub ts_symbols: Option<Vec<u8>>,
    pub ts_maps: Option<Vec<u8>>,
    pub prf_extra: String,
}
impl Default for World {
    fn default() -> Self {
        World {
            sct: SCT.into(),
            ese: ESE.into(),
            airway: b"QQQAA\t10.000000\t10.000000\t14\tQ1\tB\tQQQBB\t10.500000\t10.000000\t\tY\t\t\t\t\tN\n".to_vec(),
            airports: b"QQQQ\tNAME\tCountry\n".to_vec(),
            airlines: b"QQQ\tNAME\tCALL\tCOUNTRY\n".to_vec(),
            aircraft: b"QQQ\tML2J\tMAKER\tNAME\n".to_vec(),
            navdata: vec![],
            symbology: SYMBOLOGY.into(),
            squawks: None,
            ts_settings: None,
            ts_symbols: None,
            ts_maps: None,
            prf_extra: String::new(),
        }
    }
}
impl World {
    /// Write everything below a fresh directory; the path of the profile.
    pub fn write(&self, dir: &Path) -> PathBuf {
        let d = dir.join("w");
        let _ = std::fs::remove_dir_all(&d);
        for s in ["ICAO", "NavData", "Plug", "Sq"] {
            std::fs::create_dir_all(d.join(s)).expect("scratch");
        }
        let put = |n: &str, b: &[u8]| std::fs::write(d.join(n), b).expect("scratch");
        put("w.sct", &self.sct);
        put("w.ese", &self.ese);
        put("NavData/airway.txt", &self.airway);
        put("NavData/icao.txt", &self.navdata);
        put("ICAO/airports.txt", &self.airports);
        put("ICAO/airlines.txt", &self.airlines);
        put("ICAO/aircraft.txt", &self.aircraft);
        put("symbology.txt", &self.symbology);
        let mut prf = String::from(
            "Settings\tsector\t\\w.sct\nSettings\tairways\t\\NavData\\airway.txt\nSettings\tairportcoords\t\\NavData\\icao.txt\n\
             Settings\tairlines\t\\ICAO\\airlines.txt\nSettings\taircraft\t\\ICAO\\aircraft.txt\nSettings\tairports\t\\ICAO\\airports.txt\n\
             Settings\tSettingsfileSYMBOLOGY\t\\symbology.txt\n",
        );
        if let Some(s) = &self.squawks {
            put("Sq/squawks.json", s);
            prf += "Plugins\tPlugin1\t\\Sq\\Squawks.dll\n";
        }
        if self.ts_settings.is_some() || self.ts_symbols.is_some() || self.ts_maps.is_some() {
            put("Plug/TopSkySettings.txt", self.ts_settings.as_deref().unwrap_or(b"Airspace_Time=10\n"));
            if let Some(s) = &self.ts_symbols {
                put("Plug/TopSkySymbols.txt", s);
            }
            put("Plug/TopSkyMaps.txt", self.ts_maps.as_deref().unwrap_or(b"COLORDEF:Unused:1:2:3\n"));
            prf += "Plugins\tPlugin2\t\\Plug\\TopSky.dll\n";
        }
        prf += &self.prf_extra;
        put("w.prf", prf.as_bytes());
        d.join("w.prf")
    }
    pub fn load(&self, ctx: &Ctx) -> Result<Adaptation, String> {
        let p = self.write(&ctx.dir);
        let prf = Prf::parse(&p, &std::fs::read(&p).expect("scratch")).map_err(|e| format!("prf: {e}"))?;
        Adaptation::from_prf(&prf).map_err(|e| e.to_string())
    }
}
